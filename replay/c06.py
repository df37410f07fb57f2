from .common import *


def check(X, k):
    p, n = X.shape
    S, M = public('prepcovars.uniform_splits_from_matrix', jnp.asarray(X), k)
    true('shapes', S.shape == (p, k - 1) and M.shape == (p,), got=(S.shape, M.shape), want=((p, k - 1), (p,)))
    true('number of cutpoints', np.dtype(M.dtype).kind == 'u' and np.all(np.asarray(M).astype(int) == k - 1), got=M, want=k - 1)
    lo, hi = X.min(1).astype(float), X.max(1).astype(float)
    want = lo[:, None] + (np.arange(1, k) / float(k))[None] * (hi - lo)[:, None]
    scale = np.maximum(np.maximum(np.abs(lo), np.abs(hi))[:, None], 1e-20)
    close('evenly spaced interior grid', np.asarray(S, float) / scale, want / scale, rtol=2e-5, atol=2e-6, X=X, num_bins=k)


def one(rng, p, n, k, dt):
    if dt == 'float32':
        X = (rng.normal(size=(p, n)) * 10. ** rng.integers(-2, 3) + rng.normal() * 5).astype(dt)
    else:
        ii = np.iinfo(dt)
        X = rng.integers(ii.min, ii.max, size=(p, n), endpoint=True).astype(dt)
        if rng.random() < 0.5:
            X = rng.integers(0, 9, size=(p, n)).astype(dt)
    check(X, k)


def cases(rng, tier):
    for k in (1, 2, 3, 255, 256, 257, 258, 1000, 65536, 65537):
        yield dict(num_bins=k), (lambda k=k: check(np.array([[0, 1, 4], [-2, 7, 3], [5, 5, 5]], np.float32), k))
    for j in range(80 if tier == 'quick' else 500):
        p, n, k = int(rng.integers(1, 5)), int(rng.integers(1, 9)), int(rng.integers(1, 30))
        dt = ['float32', 'uint8', 'int8', 'int32'][j % 4]
        s = int(rng.integers(2 ** 31))
        yield dict(p=p, n=n, num_bins=k, dtype=dt, seed=s), (lambda a=(p, n, k, dt), s=s: one(Rng(s), *a))

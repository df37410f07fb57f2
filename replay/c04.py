from .common import *


def one(rng, p, n, m, dt, **kw):
    if dt == 'float32':
        pool = rng.choice([-2.5, -1., 0., 0.5, 1., 3., 1e6, -1e6], size=(max(p, 1), 9)).astype(dt)
        if rng.random() < 0.5:
            pool = rng.normal(size=(max(p, 1), 9)).astype(dt)
        huge = np.inf
    else:
        ii = np.iinfo(dt)
        pool = rng.integers(max(ii.min, -300), min(ii.max, 300), size=(max(p, 1), 9)).astype(dt)
        pool[:, 0] = ii.max
        pool[:, 1] = ii.min
        huge = ii.max
    X = np.stack([rng.choice(pool[v], n) for v in range(p)]) if p else np.zeros((0, n), dt)
    S = np.stack([np.sort(rng.choice(pool[v], m)) for v in range(p)]) if p else np.zeros((0, m), dt)
    for v in range(p):
        k = int(rng.integers(0, m + 1))
        S[v, k:] = huge
    out = public('prepcovars.bin_predictors', jnp.asarray(X), jnp.asarray(S), **kw)
    want = (S[:, None, :] < X[:, :, None]).sum(2) if m else np.zeros((p, n), int)
    eq('number of cutpoints below each value', np.asarray(out).astype(int), want, X=X, splits=S)
    true('unsigned type that holds every bin', np.dtype(out.dtype).kind == 'u' and np.iinfo(out.dtype).max >= m, got=str(out.dtype), m=m)


def wide(m, dt):
    S = np.arange(m)[None].astype(dt)
    X = np.array([[0, 1, m // 2, m - 1, m, m + 5]]).astype(dt)
    out = public('prepcovars.bin_predictors', jnp.asarray(X), jnp.asarray(S))
    eq('number of cutpoints below each value', np.asarray(out).astype(int), (S[:, None, :] < X[:, :, None]).sum(2), m=m)


def mixed(rng, p, n, m, dx, ds):
    """predictors and cutpoints of different types, all values exactly representable in both after promotion"""
    X = (rng.integers(0, 90, (p, n)) / (1 if dx.startswith(('i', 'u')) else 4)).astype(dx)
    S = np.sort((rng.integers(0, 90, (p, m)) / (1 if ds.startswith(('i', 'u')) else 4)).astype(ds), axis=1)
    out = public('prepcovars.bin_predictors', jnp.asarray(X), jnp.asarray(S))
    eq('number of cutpoints below each value', np.asarray(out).astype(int), (S[:, None, :] < X[:, :, None]).sum(2), X=X, splits=S)


def cases(rng, tier):
    for j, (dx, ds) in enumerate((a, b) for a in ('float32', 'uint8', 'int32', 'int8') for b in ('float32', 'uint8', 'int32', 'uint16') if a != b):
        yield dict(X=dx, splits=ds, seed=j), (lambda j=j, dx=dx, ds=ds: mixed(Rng(j), 3, 40, 9, dx, ds))
    for m in (254, 255, 256, 257, 65535, 65536):
        for dt in ('int32', 'float32'):
            yield dict(m=m, dtype=dt), (lambda m=m, dt=dt: wide(m, dt))
    for j in range(150 if tier == 'quick' else 1000):
        p, n, m = int(rng.integers(0, 5)), int(rng.integers(0, 8)), int(rng.integers(0, 7))
        dt = ['float32', 'uint8', 'int32', 'uint16', 'int8'][j % 5]
        kw = {} if j % 4 else dict(method=['sort', 'compare_all', 'scan'][j % 3])
        s = int(rng.integers(2 ** 31))
        yield dict(p=p, n=n, m=m, dtype=dt, seed=s, **kw), (lambda a=(p, n, m, dt), s=s, kw=kw: one(Rng(s), *a, **kw))

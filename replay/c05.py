from .common import *


def check(X, k, label):
    p, n = X.shape
    splits, ms = public('prepcovars.quantilized_splits_from_matrix', jnp.asarray(X), k)
    dt = X.dtype
    L = min(k, n) - 1
    true('shapes', splits.shape == (p, L) and ms.shape == (p,), got=(splits.shape, ms.shape), want=((p, L), (p,)))
    true('type of the number of cutpoints', np.dtype(ms.dtype).kind == 'u' and np.iinfo(ms.dtype).max >= L, got=str(ms.dtype))
    S, M = np.asarray(splits), np.asarray(ms).astype(int)
    huge = np.inf if dt.kind == 'f' else int(np.iinfo(dt).max)
    for v in range(p):
        u = np.unique(X[v])
        D = len(u)
        d = dict(row=X[v], max_bins=k, got=S[v], used=int(M[v]))
        true('number of cutpoints', M[v] == min(D - 1, L), want=min(D - 1, L), **d)
        s = S[v, :M[v]]
        if dt.kind == 'f':
            mids = ((u[1:].astype(dt) + u[:-1].astype(dt)) / dt.type(2)).astype(float)
        else:
            mids = np.array([(int(a) + int(b)) // 2 for a, b in zip(u[:-1], u[1:])], object)
        true('unused entries are the maximum value of the type', all(float(x) == huge if dt.kind == 'f' else int(x) == huge for x in S[v, M[v]:]), **d)
        vals = [float(x) if dt.kind == 'f' else int(x) for x in s]
        pos = [next((i for i, m in enumerate(mids) if m == x), None) for x in vals]
        true('every cutpoint is the midpoint of two consecutive distinct values', None not in pos, mids=list(map(float, mids)), **d)
        true('different midpoints, in order', all(a < b for a, b in zip(pos, pos[1:])), **d)
        if D - 1 <= L:
            true('all consecutive distinct values are separated', pos == list(range(D - 1)), **d)


def one(rng, p, n, k, dt):
    if dt == 'float32':
        X = rng.integers(-20, 20, size=(p, n)).astype(dt) / 4
    else:
        ii = np.iinfo(dt)
        X = rng.integers(max(ii.min, -12), min(ii.max, 30), size=(p, n)).astype(dt)
        for v in range(p):
            w = rng.random()
            if w < 0.3:
                X[v] = rng.choice([ii.min, ii.max, 0, 1, ii.max - 1], n)
            elif w < 0.5:
                X[v] = rng.integers(ii.min, ii.max, n, endpoint=True)
    check(X, k, '')


def cases(rng, tier):
    for n, k in ((1, 1), (1, 5), (2, 1), (2, 2), (300, 256), (300, 257), (300, 300), (300, 100), (256, 256), (257, 1000), (30, 7), (13, 12), (13, 11), (100, 3), (258, 257), (1000, 256)):
        for dt in ('float32', 'int32'):
            X = np.stack([rng.permutation(n), np.arange(n) * 3, np.arange(n) % 5]).astype(dt)
            yield dict(n=n, max_bins=k, dtype=dt, rows='all distinct / few values'), (lambda X=X, k=k: check(X, k, ''))
    for j in range(120 if tier == 'quick' else 800):
        p, n = int(rng.integers(1, 4)), int(rng.integers(1, 40))
        k = int(rng.integers(1, 45))
        dt = ['float32', 'uint8', 'int8', 'int32', 'uint16', 'int16'][j % 6]
        s = int(rng.integers(2 ** 31))
        yield dict(p=p, n=n, max_bins=k, dtype=dt, seed=s), (lambda a=(p, n, k, dt), s=s: one(Rng(s), *a))

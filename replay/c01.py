from .common import *


def cases(rng, tier):
    cfg = [(0, 1, 3, 4), (1, 2, 5, 3), (2, 3, 5, 9), (3, 300, 40, 7), (6, 5, 30, 200), (7, 5, 40, 255), (8, 3, 40, 300), (9, 257, 30, 70000), (5, 70000, 5, 12), (15, 3, 6, 65535), (16, 2, 5, 3)]
    k = 0
    while True:
        D, p, n, ms = cfg[k] if k < len(cfg) else (int(rng.integers(0, 9)), int(rng.integers(1, 300)), int(rng.integers(1, 60)), int(rng.choice([1, 2, 5, 254, 255, 256, 65535, 65536])))
        k += 1
        T = int(rng.integers(1, 6))
        seed = int(rng.integers(2 ** 31))
        yield dict(D=D, p=p, n=n, T=T, maxsplit=ms, seed=seed), lambda a=(D, p, n, T, ms, seed): one(*a)


def forest(r, D, p, n, T, ms, respect=None):
    max_split, X = data(r, p, n, ms)
    trees = [random_tree(r, D, p, max_split, r.choice([0.3, 0.7, 0.95]), respect=bool(r.random() < 0.7) if respect is None else respect) for _ in range(T)]
    sd = min_udtype(ms)
    vd = min_udtype(p - 1)
    return max_split.astype(sd), X.astype(sd), np.array([t[0] for t in trees]).astype(vd), np.array([t[1] for t in trees]).astype(sd)


def one(D, p, n, T, ms, seed):
    r = Rng(seed)
    max_split, X, var, split = forest(r, D, p, n, T, ms)
    want = np.array([routes(X, v, s) for v, s in zip(var, split)])
    got = public('grove.traverse_forest', jnp.asarray(X), jnp.asarray(var), jnp.asarray(split))
    eq('traverse_forest: index of the leaf each point falls into', np.asarray(got, np.int64), want, var=var[0], split=split[0], X=X)
    for i in range(min(n, 3)):
        t = int(r.integers(T))
        g = public('grove.traverse_tree', jnp.asarray(X[:, i]), jnp.asarray(var[t]), jnp.asarray(split[t]))
        eq('traverse_tree: index of the leaf', np.asarray(g, np.int64), np.int64(route(X[:, i], var[t], split[t])), x=X[:, i], var=var[t], split=split[t])

from .common import *
from .c01 import forest


def cases(rng, tier):
    k = 0
    cfg = [(0, 1, 3, 4, 1, 1), (2, 3, 7, 9, 3, 2), (3, 4, 5, 6, 256, 2), (2, 2, 4, 6, 257, 3), (5, 300, 20, 300, 20, 3), (8, 5, 20, 70000, 5, 1), (7, 4, 33, 200, 300, 4)]
    while True:
        D, p, n, ms, T, S = cfg[k] if k < len(cfg) else (int(rng.integers(0, 7)), int(rng.integers(1, 30)), int(rng.integers(1, 60)), int(rng.choice([1, 5, 255, 256])), int(rng.integers(1, 40)), int(rng.integers(1, 5)))
        k += 1
        seed = int(rng.integers(2 ** 31))
        yield dict(D=D, p=p, n=n, T=T, S=S, maxsplit=ms, seed=seed), lambda a=(D, p, n, T, S, ms, seed): one(*a)


def one(D, p, n, T, S, ms, seed):
    r = Rng(seed)
    fs = [forest(r, D, p, n, T, ms) for _ in range(S)]
    X = fs[0][1]
    leaf = r.integers(-2 ** 14, 2 ** 14, (S, T, 2 ** (D + 1))).astype(np.float32) / 4
    var = np.array([f[2] for f in fs])
    split = np.array([f[3] for f in fs])
    want = np.array([[leaf[s, t][routes(X, var[s, t], split[s, t])] for t in range(T)] for s in range(S)])
    g = public('grove.evaluate_forest', jnp.asarray(X), jnp.asarray(leaf[0]), jnp.asarray(var[0]), jnp.asarray(split[0]))
    eq('evaluate_forest: sum of the reached leaves', np.asarray(g, float), want[0].sum(0).astype(float))
    g = public('grove.evaluate_forest', jnp.asarray(X), jnp.asarray(leaf[0]), jnp.asarray(var[0]), jnp.asarray(split[0]), sum_trees=False)
    eq('evaluate_forest(sum_trees=False): reached leaves', np.asarray(g, float), want[0].astype(float))
    tr = dict(leaf_trees=jnp.asarray(leaf), var_trees=jnp.asarray(var), split_trees=jnp.asarray(split))
    g = public('mcmcloop.evaluate_trace', tr, jnp.asarray(X))
    eq('evaluate_trace: one prediction per saved iteration', np.asarray(g, float), want.sum(1).astype(float))

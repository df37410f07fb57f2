from .common import *
from .c01 import forest
from .states import leaves
import importlib


def small(p):
    return np.dtype('uint8' if p - 1 < 256 else 'uint16' if p - 1 < 65536 else 'uint32')


def expected(leaf, var, split, ms):
    S = len(split)
    bad = dict(
        check_types=not (var.dtype == small(len(ms)) and split.dtype == ms.dtype),
        check_sizes=not (len(leaf) == 2 * len(var) == 2 * S),
        check_unused_node=not (var[0] == 0 and split[0] == 0),
        check_leaf_values=not bool(np.all(np.isfinite(leaf))),
        check_stray_nodes=any(split[i] != 0 and split[i // 2] == 0 for i in range(2, S)))
    return bad


def judge(label, code, bad, **kw):
    names = public('debug.describe_error', int(code))
    eq(f'{label}: violated conditions', sorted(names), sorted(k for k in bad if bad[k]), code=int(code), **kw)


def one(D, p, ms, seed):
    r = Rng(seed)
    f = forest(r, D, p, 5, 4, ms)
    mx, var, split = None, np.array(f[2]), np.array(f[3])
    H = split.shape[1]
    leaf = r.normal(size=(4, 2 * H)).astype(np.float32)
    mx = np.full(p, ms, split.dtype)
    var = var.astype(small(p))
    for t in range(4):
        l, v, s = leaf[t].copy(), var[t].copy(), split[t].copy()
        judge('well-formed tree', public('debug.check_tree', *map(jnp.asarray, (l, v, s, mx))), expected(l, v, s, mx), split=s)
        # a random combination of defects
        if r.random() < .4:
            v = v.astype([np.uint16, np.int8, np.uint32][int(r.integers(3))]) if v.dtype == np.uint8 else v.astype(np.uint8)
        if r.random() < .3:
            s = s.astype(np.uint32)
        k = int(r.integers(5))
        if k == 0:
            l = l[:-1]
        elif k == 1:
            v = np.concatenate([v, v])
        elif k == 2 and H > 1:
            s = s[:H // 2]
        if r.random() < .3:
            v[0] = 1
        if r.random() < .3:
            s[0] = 1
        if r.random() < .4:
            l[int(r.integers(len(l)))] = [np.inf, -np.inf, np.nan][int(r.integers(3))]
        if len(s) > 2 and r.random() < .5:
            s[int(r.integers(2, len(s)))] = 1
        judge('malformed tree', public('debug.check_tree', *map(jnp.asarray, (l, v, s, mx))), expected(l, v, s, mx), split=s, var=v)
    var[0, 0] = 1
    leaf[2, -1] = np.nan
    for k, c in enumerate(np.asarray(public('debug.check_forest', *map(jnp.asarray, (leaf, var, split, mx))))):
        judge('forest', c, expected(leaf[k], var[k], split[k], mx))
    tr = dict(leaf_trees=leaf[None].repeat(2, 0).copy(), var_trees=var[None].repeat(2, 0), split_trees=split[None].repeat(2, 0))
    tr['leaf_trees'][1, 1, 0] = np.inf
    codes = np.asarray(public('debug.check_trace', {k: jnp.asarray(v) for k, v in tr.items()}, dict(max_split=jnp.asarray(mx))))
    for i in range(2):
        for k in range(4):
            judge('trace', codes[i, k], expected(tr['leaf_trees'][i, k], var[k], split[k], mx))
    dep = [max(i.bit_length() - 1 for i in leaves(split[t])) for t in range(4)]
    split[:, 0] = 0
    eq('depth histogram', np.asarray(public('debug.forest_depth_distr', jnp.asarray(split))), np.bincount(dep, minlength=D + 1), split=split)
    eq('depth of the deepest leaf', [int(internal('debug.tree_actual_depth', jnp.asarray(s))) for s in split], dep, split=split)


def cases(rng, tier):
    for D, p, ms in ((2, 3, 5), (0, 2, 3), (3, 256, 255), (3, 257, 256), (1, 1, 1), (5, 300, 20), (8, 5, 70000), (4, 65537, 3)):
        s = int(rng.integers(2 ** 31))
        yield dict(D=D, p=p, maxsplit=ms, seed=s), (lambda a=(D, p, ms, s): one(*a))
    while True:
        D, p, ms, s = int(rng.integers(0, 7)), int(rng.integers(1, 30)), int(rng.choice([1, 5, 255, 256])), int(rng.integers(2 ** 31))
        yield dict(D=D, p=p, maxsplit=ms, seed=s), (lambda a=(D, p, ms, s): one(*a))

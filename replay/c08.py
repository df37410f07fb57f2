from .common import *
import math
import warnings


def lanes(kind, r, n):
    """(function, arguments, input axes, output axes, batched leaves with their axes, outputs' axes)"""
    d, e = int(r.integers(1, 4)), int(r.integers(1, 4))
    w = r.integers(1, 9, e).astype(np.float32)
    if kind == 0:
        x, y = r.integers(-9, 9, (n, d)).astype(np.float32), r.integers(0, 255, n).astype(np.uint8)
        return (lambda x, y, w: x.sum(1) * 2 + y + w.sum()), (x, y, w), (0, 0, None), 0, [0]
    if kind == 1:
        x = r.integers(0, 60000, (d, n)).astype(np.uint16)
        return (lambda x: (x.T.astype(jnp.float32) + 1, (x % 100).astype(jnp.int8))), (x,), 1, (0, 1), [0, 1]
    if kind == 2:
        a, b = r.integers(-9, 9, n).astype(np.int32), r.integers(0, 200, (d, n, e)).astype(np.uint8)
        return (lambda t, w: dict(u=t['b'].transpose(2, 1, 0) + w[:, None, None].astype(jnp.uint8), v=t['a'] * 3)), (dict(a=a, b=b), w), (dict(a=0, b=1), None), dict(u=1, v=0), [1, 0]
    if kind == 3:
        x = r.integers(-9, 9, (d, e, n)).astype(np.float32)
        return (lambda x: jnp.cumsum(x, 0)), (x,), -1, -1, [2]
    x = r.integers(-9, 9, n).astype(np.float32)
    return (lambda x: x * x - 1), (x,), 0, 0, [0]


def one(kind, n, bound, seed):
    r = Rng(seed)
    f, args, ia, oa, oaxes = lanes(kind, r, n)
    args = jax.tree_util.tree_map(jnp.asarray, args)
    want = f(*args)
    flat = lambda axes, tree: [axes] * len(jax.tree_util.tree_leaves(tree)) if isinstance(axes, int) else jax.tree_util.tree_leaves(jax.tree_util.tree_map(lambda _, a: -99 if a is None else a, tree, axes, is_leaf=lambda q: q is None))
    per = [(x, a) for t, ax in ((args, ia), (want, oa)) for x, a in zip(jax.tree_util.tree_leaves(t), flat(ax, t)) if a != -99]
    total = sum(math.prod(x.shape) * x.dtype.itemsize for x, _ in per)
    lane = total // n if n else 0
    bound = max(1, [1, lane - 1, lane, lane + 1, 2 * lane, 3 * lane + 1, total // 2, total // 3 + 1, total - 1, total, total + 1, 10 * total, total // 7][bound % 13] if bound < 1000 else int(r.integers(1, max(2, total + 2))))
    info = dict(kind=kind, n=n, bound=bound, total=total)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            from bartz import jaxext
            got, nb = jaxext.autobatch(f, bound, ia, oa, True)(*args)
        except Exception as ex:
            raise Fail(f'autobatch raised {type(ex).__name__}: {str(ex)[:200]} on a valid input', **info)
        plain = jaxext.autobatch(f, bound, ia, oa)(*args)
    nb = int(nb)
    info['nbatches'] = nb
    gl, wl, pl = (jax.tree_util.tree_leaves(q) for q in (got, want, plain))
    true('number of outputs', len(gl) == len(wl) == len(pl), **info)
    for g, w, p in zip(gl, wl, pl):
        true('type of the output', g.dtype == w.dtype == p.dtype, got=g, want=w, **info)
        eq('batched result', g, w, **info)
        eq('batched result (number of batches not asked)', p, w, **info)
    true('the number of batches is between 1 and the size', 1 <= nb <= max(1, n), **info)
    true('the number of batches divides the size', n % nb == 0, **info)
    warned = any('nbytes' in str(w.message) or 'batch' in str(w.message) for w in ws)
    if n:
        true('each batch is within the bound, or a single element', total // nb <= bound or nb == n, **info)
        true('a warning is given if and only if the bound cannot be kept', warned == (total // nb > bound), warned=warned, **info)
    else:
        true('no warning without data', not warned, **info)


def cases(rng, tier):
    for n in (12, 0, 1, 7, 30, 97, 64, 36, 2):
        for b in range(0, 13, 2 if n in (12, 30, 36) else 4):
            kind = (n + b) % 5
            s = int(rng.integers(2 ** 31))
            yield dict(kind=kind, n=n, bound=b, seed=s), (lambda a=(kind, n, b, s): one(*a))
    while True:
        n = int(rng.choice([int(rng.integers(0, 40)), int(rng.integers(40, 400)), int(rng.integers(1, 12)) * int(rng.integers(1, 12)), int(rng.integers(1, 30)) ** 2]))
        kind, b, s = int(rng.integers(5)), int(rng.integers(0, 13)) + 1000 * int(rng.integers(2)), int(rng.integers(2 ** 31))
        yield dict(kind=kind, n=n, bound=b, seed=s), (lambda a=(kind, n, b, s): one(*a))

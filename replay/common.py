"""Helpers of the concrete checks: random trees, forests and sampler states; failure reporting."""
import inspect
import numpy as np
import jax
from jax import numpy as jnp


class Fail(Exception):
    def __init__(self, what, key='', **detail):
        super().__init__(what)
        self.what, self.key = what, key
        self.detail = {k: short(v) for k, v in detail.items()}


class Skip(Exception):
    """the thing to run does not exist in this form (internal helper renamed, ...)"""


def short(v):
    if isinstance(v, (np.ndarray, jax.Array)):
        a = np.asarray(v) if not jnp.issubdtype(v.dtype, jax.dtypes.prng_key) else np.zeros(0)
        return dict(shape=a.shape, dtype=str(a.dtype), values=a.ravel()[:64].tolist())
    return v


class Rng(np.random.Generator):
    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))


def get(path):
    """real function 'mod.attr' or Skip"""
    import importlib
    m, a = path.split('.', 1)
    o = importlib.import_module('bartz.' + m)
    for p in a.split('.'):
        if not hasattr(o, p):
            raise Skip(f'{path} does not exist')
        o = getattr(o, p)
    return o


def internal(path, *a, **kw):
    """call an internal helper; a changed signature or result structure is not a violation"""
    f = get(path)
    try:
        inspect.signature(inspect.unwrap(f)).bind(*a, **kw)
    except TypeError as e:
        raise Skip(f'{path}: {e}')
    except ValueError:
        pass
    try:
        return f(*a, **kw)
    except (TypeError, AttributeError, KeyError) as e:
        raise Skip(f'{path}: {type(e).__name__} {e}')


def public(path, *a, **kw):
    """call a public function on a valid input; an exception is a failure"""
    try:
        f = get(path)
    except Skip:
        raise Fail(f'public function {path} does not exist')
    try:
        return f(*a, **kw)
    except Exception as e:
        raise Fail(f'{path} raised {type(e).__name__}: {str(e)[:300]} on a valid input')


def eq(what, got, want, **d):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or not np.array_equal(got, want):
        bad = None
        if got.shape == want.shape:
            bad = np.argwhere(got != want)[:5].tolist()
        raise Fail(what, got=got, want=want, where=bad, **d)


def close(what, got, want, rtol=1e-3, atol=1e-4, **d):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True):
        raise Fail(what, got=got, want=want, **d)


def true(what, cond, **d):
    if not bool(np.all(cond)):
        raise Fail(what, **d)


def min_udtype(v):
    for t in (np.uint8, np.uint16, np.uint32):
        if v <= np.iinfo(t).max:
            return np.dtype(t)
    return np.dtype(np.uint64)


# ------------------------------------------------------------------ trees

def random_tree(rng, D, p, max_split, pgrow=0.7, respect=True):
    """var, split arrays of length 2**D (heap, slot 0 unused); depth of leaves up to D (bottom level)"""
    H = 2 ** D
    var = np.zeros(H, int)
    split = np.zeros(H, int)
    if H == 1:
        return var, split
    stack = [(1, {})]
    while stack:
        i, rngs = stack.pop()
        if i >= H or rng.random() > pgrow:
            continue
        if respect:
            ok = [v for v in range(p) if rngs.get(v, (1, max_split[v] + 1))[0] < rngs.get(v, (1, max_split[v] + 1))[1]] if p <= 400 else None
            if ok is None:
                cand = rng.integers(0, p, 20)
                ok = [v for v in cand if rngs.get(v, (1, max_split[v] + 1))[0] < rngs.get(v, (1, max_split[v] + 1))[1]]
            if not ok:
                continue
            v = int(ok[rng.integers(len(ok))])
            if rng.random() < 0.15:
                v = int(ok[-1])
        else:
            v = int(rng.integers(0, p))
        lo, hi = rngs.get(v, (1, max_split[v] + 1)) if respect else (1, max_split[v] + 1)
        if hi <= lo:
            continue
        s = int(rng.integers(lo, hi))
        if rng.random() < 0.2:
            s = hi - 1
        elif rng.random() < 0.2:
            s = lo
        var[i], split[i] = v, s
        stack.append((2 * i, {**rngs, v: (lo, s)}))
        stack.append((2 * i + 1, {**rngs, v: (s + 1, hi)}))
    return var, split


def route(x, var, split):
    i = 1
    H = len(split)
    while i < H and split[i] != 0:
        i = 2 * i + (1 if int(x[var[i]]) >= int(split[i]) else 0)
    return i


def routes(X, var, split):
    """vectorized over points: X (p, n)"""
    n = X.shape[1]
    idx = np.ones(n, np.int64)
    H = len(split)
    for _ in range(int(H).bit_length()):
        ii = np.minimum(idx, H - 1)
        dec = (idx < H) & (split[ii] != 0)
        right = X[np.clip(var[ii], 0, X.shape[0] - 1), np.arange(n)].astype(np.int64) >= split[ii].astype(np.int64)
        idx = np.where(dec, 2 * idx + right, idx)
    return idx


def data(rng, p, n, maxs):
    """max_split (p,), X (p, n) with X[v] in 0..max_split[v]"""
    max_split = rng.integers(0, maxs + 1, p)
    max_split[rng.integers(p)] = maxs
    X = rng.integers(0, max_split[:, None] + 1, (p, n))
    edge = rng.random((p, n))
    X = np.where(edge < 0.1, max_split[:, None], X)
    return max_split, X

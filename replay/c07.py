from .common import *


def check(x, size, fill):
    out, length = public('jaxext.unique', jnp.asarray(x), size, fill)
    u = np.unique(x)[:size]
    want = np.full(size, fill, x.dtype)
    want[:len(u)] = u
    eq('distinct values in increasing order, then the fill value', out, want, x=x, size=size, fill=fill)
    true('type', out.dtype == x.dtype, got=str(out.dtype), want=str(x.dtype))
    true('number of used entries', int(length) == len(u), got=int(length), want=len(u), x=x, size=size)


def cases(rng, tier):
    for j in range(200 if tier == 'quick' else 1500):
        n, k = int(rng.integers(0, 12)), int(rng.integers(1, 9))
        dt = ['float32', 'uint8', 'int32', 'int8'][j % 4]
        lo = 0 if dt == 'uint8' else -4
        x = rng.integers(lo, lo + k, n).astype(dt)
        if j % 7 == 0 and dt != 'float32' and n:
            x[0] = np.iinfo(dt).max
        if dt == 'float32' and j % 8:
            x = (x * float(10.) ** rng.integers(-20, 20)).astype(dt)
        size = int(rng.integers(0, n + 3)) if j % 3 else n
        fill = [0, 5, 100, 127][j % 4] if dt != 'float32' or j % 8 else np.inf
        yield dict(x=x.tolist(), size=size, fill=float(fill), dtype=dt), (lambda x=x, s=size, f=fill: check(x, s, f))

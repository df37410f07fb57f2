from .common import *


def width(m):
    v = public('jaxext.minimal_unsigned_dtype', m)
    dt = np.dtype(v)
    want = next(np.dtype(f'uint{b}') for b in (8, 16, 32, 64) if m < 2 ** b)
    true('smallest unsigned type', dt == want, got=str(dt), want=str(want), max_value=m)


def cast(dt, vals):
    x = jnp.asarray(vals, dt)
    y = public('jaxext.ensure_unsigned', x)
    b = np.dtype(dt).itemsize * 8
    true('unsigned type of the same width', np.dtype(y.dtype) == np.dtype(f'uint{b}'), got=str(y.dtype), dtype=dt)
    eq('values modulo the width', np.asarray(y).astype(object), np.asarray(x).astype(object) % 2 ** b)
    true('signed to unsigned', np.dtype(public('jaxext.signed_to_unsigned', np.dtype(dt))) == np.dtype(f'uint{b}'), dtype=dt)


def huge(dt):
    h = public('jaxext.huge_value', np.zeros(2, dt) if dt != 'bfloat16' else jnp.zeros(2, jnp.bfloat16))
    want = np.inf if 'float' in dt else int(np.iinfo(dt).max)
    true('largest value', h == want, got=float(h), dtype=dt)


def cases(rng, tier):
    for b in (8, 16, 32):
        for k in range(-3, 4):
            yield dict(max_value=2 ** b + k), (lambda m=2 ** b + k: width(m))
    for m in (0, 1, 100, 2 ** 40, 2 ** 64 - 1, 2 ** 63):
        yield dict(max_value=m), (lambda m=m: width(m))
    for dt in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64', 'bfloat16'):
        yield dict(huge=dt), (lambda dt=dt: huge(dt))
    for dt in ('int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32'):
        ii = np.iinfo(dt)
        vals = [0, 1, ii.max, ii.min, ii.max - 1, ii.min + 1] + [int(x) for x in rng.integers(ii.min, ii.max, 20)]
        yield dict(cast=dt), (lambda dt=dt, v=vals: cast(dt, v))
    for j in range(300 if tier == 'quick' else 3000):
        m = int(rng.integers(0, 2 ** int(rng.integers(1, 63))))
        yield dict(max_value=m), (lambda m=m: width(m))

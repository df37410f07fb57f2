"""Contracts of the helpers of bartz.jaxext on integer types."""
from dv.fw import *
from dv.fw import Contract, Item, register, Outcome
from dv.theory import *

INTS = ('uint8', 'uint16', 'uint32', 'int8', 'int16', 'int32')
FLOATS = ('float16', 'bfloat16', 'float32')


def bits(dt):
    return np.dtype(dt).itemsize * 8


@register
class MinimalUnsigned(Contract):
    name = 'jaxext.minimal_unsigned_dtype'

    def dims(self, E, v):
        return NS(m=E.var('m', 0, 2 ** 64 - 1))

    def args(self, d, v):
        return dict(max_value=d.m)

    def ensures(self, c, A, out):
        m, dt = c.z(A.max_value), np.dtype(out)
        return [Item('an unsigned type', lambda: bv(dt.kind == 'u')),
                Item('holds the value', lambda: m <= 2 ** bits(dt) - 1),
                Item('no smaller unsigned type holds the value', lambda: And(*[m > 2 ** b - 1 for b in (8, 16, 32) if b < bits(dt)]))]


@register
class HugeValue(Contract):
    name = 'jaxext.huge_value'

    def variants(self):
        return INTS + FLOATS

    def dims(self, E, v):
        return NS(n=E.var('n', 0))

    def args(self, d, v):
        return dict(x=Spec((d.n,), jnp.dtype(v)))

    def ensures(self, c, A, out):
        dt = A.x.dtype
        if kind(dt) == 'i':
            b = bits(dt)
            return [Item('the largest value of the type', lambda: bv(not isinstance(out, Arr) and int(out) == 2 ** (b if np.dtype(dt).kind == 'u' else b - 1) - 1))]
        return [Item('infinity', lambda: bv(not isinstance(out, Arr) and float(out) == math.inf))]


@register
class EnsureUnsigned(Contract):
    name = 'jaxext.ensure_unsigned'

    def variants(self):
        return INTS

    def dims(self, E, v):
        return NS(n=E.var('n', 0), k=E.var('k', 0))

    def args(self, d, v):
        return dict(x=Spec((d.n, d.k), v))

    def ensures(self, c, A, out):
        b = bits(A.x.dtype)
        return [Item('unsigned type of the same width', lambda: bv(np.dtype(out.dtype).kind == 'u' and bits(out.dtype) == b)),
                Item('same shape', lambda: bv(tuple(map(str, out.shape)) == tuple(map(str, A.x.shape)))),
                Item('the value modulo the width', lambda i, j: And(out(i, j) >= 0, out(i, j) < 2 ** b, out(i, j) == A.x(i, j) % 2 ** b), dims=out.shape)]

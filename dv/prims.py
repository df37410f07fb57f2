"""Semantics of JAX primitives (the language the verified program is written in)."""
import numpy as np
from . import sem
from .sem import *
from .sem import Ctx
from .dims import is_sym
import z3
import jax
from jax import numpy as jnp, lax
from jax._src import core
from jax._src.lax.slicing import GatherScatterMode

RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


def aval_arr(aval, f, name=None):
    return Arr(aval.shape, aval.dtype, f, name)


def lit(val, aval):
    """closure of a literal / constant array"""
    dt = aval.dtype
    if is_key(dt):
        raise Unsupported('key literal')
    a = np.asarray(val)
    k = kind(dt)

    def term(v):
        if k == 'b':
            return z3.BoolVal(bool(v))
        if k == 'i':
            return z3.IntVal(int(v))
        v = float(v)
        if v != v or v in (float('inf'), float('-inf')):
            return special(v)
        return z3.RealVal(str(__import__('fractions').Fraction(v)))
    if a.ndim == 0:
        t = term(a)
        return Arr((), dt, lambda: t, 'lit')
    if a.size and np.all(a == a.flat[0]):
        t = term(a.flat[0])
        return Arr(a.shape, dt, lambda *i: t, 'const')

    def f(*idx):
        ns = [num(i) for i in idx]
        if all(n is not None for n in ns):
            if all(0 <= n < s for n, s in zip(ns, a.shape)):
                return term(a[tuple(ns)])
            return Ctx.current.fresh('oob', sort_of(dt))
        if a.size > 4096:
            raise Unsupported('large constant table')
        r = None
        for pos in np.ndindex(*a.shape):
            t = term(a[pos])
            r = t if r is None else If(And(*[Eq(i, iv(int(p))) for i, p in zip(idx, pos)]), t, r)
        return r
    return Arr(a.shape, dt, f, 'const')


PINF = z3.Const('+inf', R)
NINF = z3.Const('-inf', R)
NANV = z3.Const('nan', R)


def special(v):
    Ctx.current.notes.add('non-finite float literal')
    return NANV if v != v else PINF if v > 0 else NINF


def ew(fn):
    """elementwise rule"""
    def r(ctx, eqn, *ins):
        av = eqn.outvars[0].aval
        dt = av.dtype

        def f(*idx):
            return fn(ctx, eqn, dt, *[a(*idx) if a.ndim else a() for a in ins])
        return [aval_arr(av, f)]
    return r


def arith(op):
    def g(ctx, eqn, dt, a, b):
        r = op(a, b)
        if kind(dt) == 'i':
            return ctx.wrap(r, dt)
        return extended(ctx, op, a, b, r) if ctx.maybe_inf else r
    return ew(g)


def extended(ctx, op, a, b, r):
    """sum or quotient of terms that may be +inf (only where a contract declares such inputs)"""
    ia, ib = may_inf(ctx, a), may_inf(ctx, b)
    if not ia and not ib:
        return r
    if op is Add:
        return If(Or(Eq(a, PINF) if ia else F, Eq(b, PINF) if ib else F), PINF, r)
    if op == 'div' and not ib and num(b) is not None and num(b) > 0:
        return If(Eq(a, PINF), PINF, r)
    raise Unsupported('arithmetic on infinities')


def may_inf(ctx, t):
    from .prove import syms
    return bool(syms(t) & ctx.maybe_inf)


def icmp(c, op, f, a, b):
    '''comparison of integers, decided by their ranges where possible'''
    if z3.is_int(a) and num(a) is None or z3.is_int(b) and num(b) is None:
        (la, ha), (lb, hb) = c.ivl(a), c.ivl(b)
        yes, no = {'lt': (ha < lb, la >= hb), 'le': (ha <= lb, la > hb), 'gt': (la > hb, ha <= lb), 'ge': (la >= hb, ha < lb)}[op]
        if yes:
            return T
        if no:
            return F
    return f(a, b)


RULES['add'] = RULES['add_any'] = arith(Add)
RULES['sub'] = arith(Sub)
RULES['mul'] = arith(Mul)
RULES['max'] = ew(lambda c, e, dt, a, b: Max(a, b) if kind(dt) != 'b' else Or(a, b))
RULES['min'] = ew(lambda c, e, dt, a, b: Min(a, b) if kind(dt) != 'b' else And(a, b))
RULES['eq'] = ew(lambda c, e, dt, a, b: Eq(a, b))
RULES['ne'] = ew(lambda c, e, dt, a, b: Not(Eq(a, b)))
RULES['lt'] = ew(lambda c, e, dt, a, b: icmp(c, 'lt', Lt, a, b) if not z3.is_bool(a) else And(Not(a), b))
RULES['le'] = ew(lambda c, e, dt, a, b: icmp(c, 'le', Le, a, b) if not z3.is_bool(a) else Or(Not(a), b))
RULES['gt'] = ew(lambda c, e, dt, a, b: icmp(c, 'gt', Gt, a, b) if not z3.is_bool(a) else And(a, Not(b)))
RULES['ge'] = ew(lambda c, e, dt, a, b: icmp(c, 'ge', Ge, a, b) if not z3.is_bool(a) else Or(a, Not(b)))


@rule('neg')
@ew
def _neg(ctx, eqn, dt, a):
    return ctx.wrap(Sub(iv(0), a), dt) if kind(dt) == 'i' else Sub(z3.RealVal(0), a)


@rule('abs')
@ew
def _abs(ctx, eqn, dt, a):
    n = Sub(iv(0) if kind(dt) == 'i' else z3.RealVal(0), a)
    r = If(Ge(a, mk(0, a)), a, n)
    return ctx.wrap(r, dt) if kind(dt) == 'i' else r


@rule('sign')
@ew
def _sign(ctx, eqn, dt, a):
    return If(Gt(a, mk(0, a)), mk(1, a), If(Lt(a, mk(0, a)), mk(-1, a), mk(0, a)))


def tdiv(a, b):
    """integer division truncating toward zero (b == 0 unspecified, except XLA: -1)"""
    nb = num(b)
    if nb is not None and nb > 0:
        return If(Ge(a, iv(0)), fdiv(a, b), Sub(iv(0), fdiv(Sub(iv(0), a), b)))
    q = lambda x, y: x / y
    return If(Eq(b, iv(0)), iv(-1),
              If(Gt(b, iv(0)), If(Ge(a, iv(0)), q(a, b), -q(-a, b)), If(Ge(a, iv(0)), -q(a, -b), q(-a, -b))))


def trem(a, b):
    nb = num(b)
    if nb is not None and nb > 0:
        return If(Ge(a, iv(0)), fmod(a, b), Sub(iv(0), fmod(Sub(iv(0), a), b)))
    ab = If(Gt(b, iv(0)), b, Sub(iv(0), b))
    return If(Eq(b, iv(0)), a, If(Ge(a, iv(0)), a % ab, -((-a) % ab)))


@rule('div')
@ew
def _div(ctx, eqn, dt, a, b):
    if kind(dt) == 'i':
        lo, hi = ctx.ivl(a)
        if lo >= 0 and ctx.ivl(b)[0] > 0:
            return fdiv(a, b)
        return ctx.wrap(tdiv(a, b), dt)
    nb = num(b)
    if nb is not None and nb != 0:
        na = num(a)
        if na is not None:
            import fractions
            return z3.RealVal(str(fractions.Fraction(na) / fractions.Fraction(nb)))
    return extended(ctx, 'div', a, b, a / b) if ctx.maybe_inf else a / b


@rule('rem')
@ew
def _rem(ctx, eqn, dt, a, b):
    if kind(dt) == 'i':
        if ctx.ivl(a)[0] >= 0 and ctx.ivl(b)[0] > 0:
            return fmod(a, b)
        return trem(a, b)
    raise Unsupported('float rem')


@rule('and')
@ew
def _and(ctx, eqn, dt, a, b):
    if kind(dt) == 'b':
        return And(a, b)
    return bitand(ctx, dt, a, b)


def bitand(ctx, dt, a, b):
    lo, hi = DT_RANGE[np.dtype(dt)]
    size = hi - lo + 1
    for x, y in ((a, b), (b, a)):
        n = num(y)
        if n is None:
            continue
        if num(x) is not None:
            return iv(int(np.array(num(x)).astype(dt) & np.array(n).astype(dt)))
        if n >= 0 and (n & (n + 1)) == 0:       # low mask; floor-mod is the two's complement meaning
            return fmod(x, iv(n + 1))
        m = n if n < 0 else n - size if lo == 0 else n
        if lo == 0 and n >= 0 and (size - n) & (size - n - 1) == 0:
            return Sub(x, fmod(x, iv(size - n)))
        if n < 0 and ((-n) & (-n - 1)) == 0:
            return Sub(x, fmod(x, iv(-n)))
        if n >= 0 and n & (n - 1) == 0:          # single bit
            return Mul(fmod(fdiv(x, iv(n)), iv(2)), iv(n))
    if a.eq(b):
        return a
    ctx.notes.add('general bitwise and')
    return BitAnd(a, b)


@rule('or')
@ew
def _or(ctx, eqn, dt, a, b):
    if kind(dt) == 'b':
        return Or(a, b)
    return bitor(ctx, dt, a, b)


def bitval(t):
    """k if the term is the single bit k, or that bit or zero"""
    n = num(t)
    if n is not None:
        return n if n > 0 and n & (n - 1) == 0 else None
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        arms = {num(t.arg(1)), num(t.arg(2))}
        if 0 in arms and len(arms) == 2 and None not in arms:
            k, = arms - {0}
            return k if k > 0 and k & (k - 1) == 0 else None
    return None


def bitor(ctx, dt, a, b, depth=0):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return iv(int(np.array(na).astype(dt) | np.array(nb).astype(dt)))
    if na == 0:
        return b
    if nb == 0:
        return a
    for x, y in ((a, b), (b, a)):
        k = bitval(y)
        if k is not None:
            lo, hi = ctx.ivl(x)
            if 0 <= lo and hi < k:          # disjoint bits
                return Add(x, y)
    if nb is not None and nb > 0 and nb & (nb - 1) == 0:
        return If(Eq(fmod(fdiv(a, iv(nb)), iv(2)), iv(1)), a, Add(a, iv(nb)))
    if na is not None and na > 0 and na & (na - 1) == 0:
        return bitor(ctx, dt, b, a)
    if depth < 20:
        for x, y in ((a, b), (b, a)):
            if z3.is_app_of(x, z3.Z3_OP_ITE) and (num(x.arg(1)) is not None or num(x.arg(2)) is not None):
                return If(x.arg(0), bitor(ctx, dt, y, x.arg(1), depth + 1), bitor(ctx, dt, y, x.arg(2), depth + 1))
    ctx.notes.add('general bitwise or')
    return BitOr(a, b)


@rule('xor')
@ew
def _xor(ctx, eqn, dt, a, b):
    if kind(dt) == 'b':
        return If(a, Not(b), b) if not (z3.is_true(a) or z3.is_true(b)) else Not(b if z3.is_true(a) else a)
    na, nb = num(a), num(b)
    if na == 0:
        return b
    if nb == 0:
        return a
    if nb == 1 or na == 1:
        x = a if nb == 1 else b
        return If(Eq(fmod(x, iv(2)), iv(0)), Add(x, iv(1)), Sub(x, iv(1)))
    ctx.notes.add('general bitwise xor')
    return BitXor(a, b)


@rule('not')
@ew
def _not(ctx, eqn, dt, a):
    if kind(dt) == 'b':
        return Not(a)
    lo, hi = DT_RANGE[np.dtype(dt)]
    return Sub(iv(hi), a) if lo == 0 else Sub(iv(-1), a)


@rule('shift_left')
@ew
def _shl(ctx, eqn, dt, a, b):
    n = num(b)
    if n is None:
        ctx.notes.add('variable shift')
        return ctx.wrap(a * P2(b), dt)
    lo, hi = DT_RANGE[np.dtype(dt)]
    if n >= (hi - lo + 1).bit_length() - 1:
        return iv(0)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and num(a.arg(1)) is not None and num(a.arg(2)) is not None:
        return If(a.arg(0), *[ctx.wrap(iv(num(x) * 2 ** n), dt) for x in (a.arg(1), a.arg(2))])
    return ctx.wrap(Mul(a, iv(2 ** n)), dt)


@rule('shift_right_logical', 'shift_right_arithmetic')
@ew
def _shr(ctx, eqn, dt, a, b):
    n = num(b)
    if n is None:
        raise Unsupported('variable right shift')
    lo, hi = DT_RANGE[np.dtype(dt)]
    bits = (hi - lo + 1).bit_length() - 1
    if eqn.primitive.name == 'shift_right_logical' and lo < 0 and n > 0:
        a = If(Ge(a, iv(0)), a, Add(a, iv(hi - lo + 1)))
    if n >= bits:
        return iv(0) if lo == 0 else If(Ge(a, iv(0)), iv(0), iv(-1))
    return fdiv(a, iv(2 ** n))


@rule('select_n')
def _select(ctx, eqn, which, *cases):
    av = eqn.outvars[0].aval

    def f(*idx):
        w = which(*idx) if which.ndim else which()
        if kind(which.dtype) == 'b':
            if z3.is_true(w):
                return cases[1](*idx)
            if z3.is_false(w):
                return cases[0](*idx)
            return If(w, cases[1](*idx), cases[0](*idx))
        r = cases[-1](*idx)
        for n in range(len(cases) - 2, -1, -1):
            r = If(Eq(w, iv(n)), cases[n](*idx), r)
        return r
    return [aval_arr(av, f)]


@rule('clamp')
def _clamp(ctx, eqn, lo, x, hi):
    av = eqn.outvars[0].aval

    def f(*idx):
        l = lo(*idx) if lo.ndim else lo()
        h = hi(*idx) if hi.ndim else hi()
        return Min(Max(x(*idx), l), h)
    return [aval_arr(av, f)]


def to_real(t):
    n = num(t)
    return z3.RealVal(str(n)) if n is not None else z3.ToReal(t)


def trunc(t):
    n = num(t)
    if n is not None:
        return iv(int(n))
    return If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def narrow(t, dst):
    """rounding to a type narrower than single precision is not read as exact: an unknown function that keeps small integers"""
    n = num(t)
    if n is not None and n == int(n) and abs(n) <= 256:
        return t
    return z3.Function(f'round_{dst}', R, R)(t)


def convert(ctx, t, src, dst):
    a, b = kind(src), kind(dst)
    if b == 'f' and np.dtype(dst).itemsize < 4 and a != 'b' and src != dst:
        return narrow(t if a == b else to_real(t), str(np.dtype(dst)))
    if a == b:
        return ctx.wrap(t, dst) if b == 'i' else t
    if a == 'b':
        return If(t, iv(1), iv(0)) if b == 'i' else If(t, z3.RealVal(1), z3.RealVal(0))
    if b == 'b':
        return Not(Eq(t, mk(0, t)))
    if a == 'i':
        return to_real(t)
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return ctx.wrap(t.arg(0), dst)
    return ctx.wrap(trunc(t), dst)


@rule('convert_element_type')
def _convert(ctx, eqn, a):
    av = eqn.outvars[0].aval
    return [aval_arr(av, lambda *i: convert(ctx, a(*i), a.dtype, av.dtype))]


@rule('bitcast_convert_type')
def _bitcast(ctx, eqn, a):
    av = eqn.outvars[0].aval
    if kind(a.dtype) == 'b' and kind(av.dtype) == 'i':
        return [aval_arr(av, lambda *i: convert(ctx, a(*i), a.dtype, av.dtype))]
    if kind(a.dtype) == 'i' and kind(av.dtype) == 'i' and np.dtype(a.dtype).itemsize == np.dtype(av.dtype).itemsize:
        return [aval_arr(av, lambda *i: ctx.wrap(a(*i), av.dtype))]
    raise Unsupported('bitcast')


@rule('copy', 'copy_p', 'stop_gradient', 'device_put', 'optimization_barrier', 'sharding_constraint')
def _copy(ctx, eqn, *a):
    return list(a)


@rule('reduce_precision')
@ew
def _rprec(ctx, eqn, dt, a):
    if eqn.params['exponent_bits'] >= 8 and eqn.params['mantissa_bits'] >= 23:
        return a
    return narrow(a, 'e%dm%d' % (eqn.params['exponent_bits'], eqn.params['mantissa_bits']))


@rule('log')
@ew
def _log(ctx, eqn, dt, a):
    return log_term(ctx, a)


def log_term(ctx, a):
    if num(a) == 1:
        return z3.RealVal(0)
    t = Log(a)
    ctx.keep.append(t)
    ctx.logs = getattr(ctx, 'logs', {})
    ctx.logs[a.get_id()] = a
    return t


RULES['log1p'] = ew(lambda c, e, dt, a: log_term(c, Add(a, z3.RealVal(1))))


@rule('exp')
@ew
def _exp(ctx, eqn, dt, a):
    t = Exp(a)
    ctx.fact(t > 0)
    return t


def sqrt_term(ctx, a):
    t = Sqrt(a)
    ctx.fact(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
    ctx.fact(z3.Implies(a > 0, t > 0))
    return t


RULES['sqrt'] = ew(lambda c, e, dt, a: sqrt_term(c, a))
RULES['rsqrt'] = ew(lambda c, e, dt, a: 1 / sqrt_term(c, a))
RULES['square'] = ew(lambda c, e, dt, a: c.wrap(Mul(a, a), dt) if kind(dt) == 'i' else Mul(a, a))


SinF = z3.Function('sin', R, R)
RULES['sin'] = ew(lambda c, e, dt, a: SinF(a))


@rule('integer_pow')
@ew
def _ipow(ctx, eqn, dt, a):
    y = eqn.params['y']
    r = mk(1, a)
    for _ in range(abs(y)):
        r = Mul(r, a)
    if y < 0:
        return 1 / r
    return ctx.wrap(r, dt) if kind(dt) == 'i' else r


@rule('pow')
@ew
def _pow(ctx, eqn, dt, a, b):
    if kind(dt) != 'f':
        raise Unsupported('integer pow')
    b = to_real(b) if z3.is_int(b) else b
    n = num(b)
    if n is not None and n == int(n) and 0 <= n <= 4:
        r = z3.RealVal(1)
        for _ in range(int(n)):
            r = Mul(r, a)
        return r
    t = Pow(a, b)
    ctx.fact(z3.Implies(a > 0, t > 0))
    ctx.fact(z3.Implies(a == 1, t == 1))
    return t


def round_even(a):
    f = z3.ToInt(a)
    d = a - z3.ToReal(f)
    half = z3.RealVal('1/2')
    return If(d < half, f, If(d > half, f + 1, If(Eq(fmod(f, iv(2)), iv(0)), f, f + 1)))


@rule('round')
@ew
def _round(ctx, eqn, dt, a):
    m = eqn.params['rounding_method']
    if int(m) == int(lax.RoundingMethod.TO_NEAREST_EVEN):
        return z3.ToReal(round_even(a))
    f = z3.ToInt(a if True else a)
    aa = If(a >= 0, a, -a)
    r = z3.ToReal(z3.ToInt(aa + z3.RealVal('1/2')))
    return If(a >= 0, r, -r)


RULES['floor'] = ew(lambda c, e, dt, a: z3.ToReal(z3.ToInt(a)))
RULES['ceil'] = ew(lambda c, e, dt, a: -z3.ToReal(z3.ToInt(-a)))


def finite(ctx, t, depth=0):
    """finiteness of a real term: every quotient in it has a non-zero divisor"""
    if t.eq(PINF) or t.eq(NINF) or t.eq(NANV):
        return F
    if z3.is_app_of(t, z3.Z3_OP_DIV):
        return And(finite(ctx, t.arg(0)), finite(ctx, t.arg(1)), Not(Eq(t.arg(1), z3.RealVal(0))))
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return If(t.arg(0), finite(ctx, t.arg(1)), finite(ctx, t.arg(2)))
    if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return And(*[finite(ctx, c) for c in t.children()])
    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in getattr(ctx, 'maybe_nonfinite', ()):
        return ctx.fin_pred(t)
    return T


RULES['is_finite'] = ew(lambda c, e, dt, a: finite(c, a))


# ---------------------------------------------------------------- structure

@rule('broadcast_in_dim')
def _bid(ctx, eqn, a, *dyn):
    av = eqn.outvars[0].aval
    bd = eqn.params['broadcast_dimensions']

    def f(*idx):
        ii = []
        for d, o in enumerate(bd):
            s = a.shape[d]
            if isinstance(s, int) and s == 1:
                ii.append(iv(0))
            else:
                ii.append(idx[o])
        return a(*ii)
    return [aval_arr(av, f)]


@rule('squeeze')
def _squeeze(ctx, eqn, a):
    av = eqn.outvars[0].aval
    dims = set(d % a.ndim for d in eqn.params['dimensions'])

    def f(*idx):
        it = iter(idx)
        return a(*[iv(0) if d in dims else next(it) for d in range(a.ndim)])
    return [aval_arr(av, f)]


@rule('expand_dims')
def _expand(ctx, eqn, a):
    av = eqn.outvars[0].aval
    dims = set(eqn.params['dimensions'])
    return [aval_arr(av, lambda *idx: a(*[i for d, i in enumerate(idx) if d not in dims]))]


@rule('transpose')
def _transpose(ctx, eqn, a):
    av = eqn.outvars[0].aval
    p = eqn.params['permutation']

    def f(*idx):
        ii = [None] * len(p)
        for o, d in enumerate(p):
            ii[d] = idx[o]
        return a(*ii)
    return [aval_arr(av, f)]


def dimeq(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = a - b
    if not is_sym(d):
        return d == 0
    e = Ctx.current.env
    return e.entail(e.z(d) == 0) is True


def reshape_groups(src, dst):
    """match [a, b, c] -> [a, b*c]: list of (src dims, dst dims) groups with equal products"""
    ones_s = [i for i, d in enumerate(src) if not dimeq(d, 1)]
    ones_d = [i for i, d in enumerate(dst) if not dimeq(d, 1)]
    groups = []
    i = j = 0
    while i < len(ones_s) or j < len(ones_d):
        if i >= len(ones_s) or j >= len(ones_d):
            raise Unsupported(f'reshape {src} -> {dst}')
        gs, gd = [ones_s[i]], [ones_d[j]]
        ps, pd = src[ones_s[i]], dst[ones_d[j]]
        i += 1
        j += 1
        tries = 0
        while not dimeq(ps, pd):
            # extend the side that can be matched; try both
            tries += 1
            if tries > 8:
                raise Unsupported(f'reshape {src} -> {dst}')
            ext_s = i < len(ones_s)
            ext_d = j < len(ones_d)
            e = Ctx.current.env
            small_s = e.entail(e.z(ps) <= e.z(pd)) if True else None
            if ext_d and (not ext_s or small_s is not True):
                # is extending the destination right?
                pd = pd * dst[ones_d[j]]
                gd.append(ones_d[j])
                j += 1
            elif ext_s:
                ps = ps * src[ones_s[i]]
                gs.append(ones_s[i])
                i += 1
            else:
                raise Unsupported(f'reshape {src} -> {dst}')
        groups.append((gs, gd))
    return groups


@rule('reshape')
def _reshape(ctx, eqn, a, *dyn):
    av = eqn.outvars[0].aval
    assert eqn.params.get('dimensions') is None
    src, dst = a.shape, av.shape
    groups = reshape_groups(src, dst)

    def f(*idx):
        ii = [iv(0)] * len(src)
        for gs, gd in groups:
            if len(gs) == 1 and len(gd) == 1:
                ii[gs[0]] = idx[gd[0]]
                continue
            flat = idx[gd[0]]
            for d in gd[1:]:
                flat = Add(Mul(flat, ctx.z(dst[d])), idx[d])
            for d in reversed(gs[1:]):
                s = ctx.z(src[d])
                ii[d] = fmod(flat, s)
                flat = fdiv(flat, s)
            ii[gs[0]] = flat
        return a(*ii)
    return [aval_arr(av, f)]


@rule('iota')
def _iota(ctx, eqn, *dyn):
    av = eqn.outvars[0].aval
    d = eqn.params['dimension']
    return [aval_arr(av, lambda *idx: convert(ctx, idx[d], np.dtype('int64'), av.dtype))]


@rule('dim_as_value')
def _dav(ctx, eqn):
    av = eqn.outvars[0].aval
    t = ctx.z(eqn.params['dim'])
    return [aval_arr(av, lambda: ctx.wrap(t, av.dtype))]


@rule('concatenate')
def _concat(ctx, eqn, *ops):
    av = eqn.outvars[0].aval
    d = eqn.params['dimension']

    def f(*idx):
        offs = [iv(0)]
        for o in ops:
            offs.append(Add(offs[-1], ctx.z(o.shape[d])))
        r = None
        for n in range(len(ops) - 1, -1, -1):
            if isinstance(ops[n].shape[d], int) and ops[n].shape[d] == 0:
                continue
            ii = list(idx)
            ii[d] = Sub(idx[d], offs[n])
            v = ops[n](*ii)
            r = v if r is None else If(Lt(idx[d], offs[n + 1]), v, r)
        return r
    return [aval_arr(av, f)]


@rule('pad')
def _pad(ctx, eqn, a, pv):
    av = eqn.outvars[0].aval
    cfg = eqn.params['padding_config']

    def f(*idx):
        ok, ii = [], []
        for d, (lo, hi, it) in enumerate(cfg):
            s = ctx.z(a.shape[d])
            if is_sym(it) or it != 0:
                raise Unsupported('interior padding')
            j = Sub(idx[d], ctx.z(lo))
            ii.append(j)
            if not (isinstance(lo, int) and lo == 0):
                ok.append(Ge(j, iv(0)))
            if not (isinstance(hi, int) and hi == 0):
                ok.append(Lt(j, s))
        return If(And(*ok), a(*ii), pv())
    return [aval_arr(av, f)]


@rule('slice')
def _slice(ctx, eqn, a):
    av = eqn.outvars[0].aval
    st = eqn.params['start_indices']
    sr = eqn.params['strides'] or (1,) * a.ndim
    return [aval_arr(av, lambda *idx: a(*[Add(ctx.z(s), Mul(i, ctx.z(q))) for i, s, q in zip(idx, st, sr)]))]


@rule('dynamic_slice')
def _dslice(ctx, eqn, a, *starts):
    av = eqn.outvars[0].aval
    sizes = eqn.params['slice_sizes']

    def f(*idx):
        ii = []
        for d in range(a.ndim):
            s = starts[d]()
            mx = Sub(ctx.z(a.shape[d]), ctx.z(sizes[d]))
            ii.append(Add(Max(iv(0), Min(s, mx)), idx[d]))
        return a(*ii)
    return [aval_arr(av, f)]


@rule('dynamic_update_slice')
def _dus(ctx, eqn, a, u, *starts):
    av = eqn.outvars[0].aval

    def f(*idx):
        ok, ii = [], []
        for d in range(a.ndim):
            mx = Sub(ctx.z(a.shape[d]), ctx.z(u.shape[d]))
            s = Max(iv(0), Min(starts[d](), mx))
            j = Sub(idx[d], s)
            ii.append(j)
            ok += [Ge(j, iv(0)), Lt(j, ctx.z(u.shape[d]))]
        return If(And(*ok), u(*ii), a(*idx))
    return [aval_arr(av, f)]


@rule('rev')
def _rev(ctx, eqn, a):
    av = eqn.outvars[0].aval
    ds = eqn.params['dimensions']
    return [aval_arr(av, lambda *idx: a(*[Sub(Sub(ctx.z(a.shape[d]), iv(1)), i) if d in ds else i for d, i in enumerate(idx)]))]


@rule('split')
def _split(ctx, eqn, a):
    ax = eqn.params['axis']
    out, off = [], 0
    for v, s in zip(eqn.outvars, eqn.params['sizes']):
        o = ctx.z(off)
        out.append(aval_arr(v.aval, lambda *idx, o=o: a(*[Add(i, o) if d == ax else i for d, i in enumerate(idx)])))
        off = off + s
    return out


# ---------------------------------------------------------------- gather / scatter

@rule('gather')
def _gather(ctx, eqn, op, ind):
    av = eqn.outvars[0].aval
    p = eqn.params
    dn = p['dimension_numbers']
    sizes = p['slice_sizes']
    mode = p['mode']
    fill = p['fill_value']
    offset_dims, collapsed, simap = dn.offset_dims, dn.collapsed_slice_dims, dn.start_index_map
    obd = getattr(dn, 'operand_batching_dims', ())
    if obd:
        raise Unsupported('gather batching dims')
    batch_out = [d for d in range(len(av.shape)) if d not in offset_dims]
    win = [d for d in range(op.ndim) if d not in collapsed]

    def f(*idx):
        b = [idx[d] for d in batch_out]
        start = [ind(*b, iv(k)) for k in range(len(simap))]
        if ctx.gathers is not None:
            ctx.gathers.append((op, dict(zip(simap, start))))
        off = [iv(0)] * op.ndim
        for d, o in zip(win, offset_dims):
            off[d] = idx[o]
        ok = []
        ii = list(off)
        for k, d in enumerate(simap):
            s = start[k]
            mx = Sub(ctx.z(op.shape[d]), ctx.z(sizes[d]))
            if mode == GatherScatterMode.FILL_OR_DROP:
                ok += [Ge(s, iv(0)), Le(s, mx)]
                ii[d] = Add(s, off[d])
            else:
                # clip; out-of-bounds promise is read as clipping, which is what XLA does
                ii[d] = Add(clip(ctx, s, mx), off[d])
        v = op(*ii)
        if mode == GatherScatterMode.FILL_OR_DROP:
            c = And(*ok)
            if z3.is_true(c):
                return v
            fv = fill
            if fv is None:
                k = kind(op.dtype)
                fv = {'f': float('nan'), 'b': True}.get(k)
                if k == 'i':
                    lo, hi = DT_RANGE[np.dtype(op.dtype)]
                    fv = hi if lo == 0 else lo
            t = special(fv) if kind(op.dtype) == 'f' and (fv != fv) else convert_lit(fv, op.dtype)
            return If(c, v, t)
        return v
    return [aval_arr(av, f)]


def clip(ctx, s, mx):
    a, b = ctx.ivl(s), ctx.ivl(mx)
    r = s
    if not b[0] >= a[1]:
        r = Min(r, mx)
    if a[0] < 0:
        r = If(Lt(s, iv(0)), iv(0), r)
    elif b[0] < 0:
        pass
    return r


def convert_lit(v, dt):
    k = kind(dt)
    if k == 'b':
        return z3.BoolVal(bool(v))
    if k == 'i':
        return iv(int(v))
    if float(v) != float(v) or abs(float(v)) == float('inf'):
        return special(float(v))
    return z3.RealVal(str(__import__('fractions').Fraction(float(v))))


def is_lane(ctx, start_k, nb, shape):
    """if the index component equals its own batch position for one batch axis, that axis"""
    ks = [z3.Int(f'L!{i}') for i in range(nb)]
    t = start_k(*ks)
    t = z3.simplify(t)
    for j in range(nb):
        if t.eq(ks[j]):
            return j
    for j in range(nb):
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(ctx.env.hyps())
        s.add(*[z3.And(k >= 0, k < ctx.z(d)) for k, d in zip(ks, shape)])
        s.add(t != ks[j])
        if s.check() == z3.unsat:
            return j
    return None


@rule('scatter', 'scatter-add', 'scatter_add', 'scatter-mul', 'scatter-min', 'scatter-max')
def _scatter(ctx, eqn, op, ind, upd):
    name = eqn.primitive.name.replace('_', '-')
    av = eqn.outvars[0].aval
    p = eqn.params
    dn = p['dimension_numbers']
    mode = p['mode']
    uwd, iwd, sdo = dn.update_window_dims, dn.inserted_window_dims, dn.scatter_dims_to_operand_dims
    if getattr(dn, 'operand_batching_dims', ()):
        raise Unsupported('scatter batching dims')
    nb = ind.ndim - 1
    bshape = ind.shape[:-1]
    usc = [d for d in range(upd.ndim) if d not in uwd]     # scatter (batch) dims of updates
    win = [d for d in range(op.ndim) if d not in iwd]      # operand dims of the window
    wsize = {d: upd.shape[u] for d, u in zip(win, uwd)}
    lanes = {}                                             # batch axis -> operand dim
    free = None

    def prepare():
        nonlocal free
        if free is not None:
            return
        for k, d in enumerate(sdo):
            if d not in iwd:
                continue
            j = is_lane(ctx, lambda *b, k=k: ind(*b, iv(k)), nb, bshape) if nb else None
            if j is not None and j not in lanes:
                lanes[j] = d
        free = [j for j in range(nb) if j not in lanes]

    def hit(b, o):
        """does update batch position b write operand position o, and with which window offset"""
        conds, w = [], {}
        start = {d: ind(*b, iv(k)) for k, d in enumerate(sdo)}
        for d in range(op.ndim):
            if d in iwd:
                if d in start:
                    s = start[d]
                    if mode == GatherScatterMode.CLIP:
                        s = clip(ctx, s, Sub(ctx.z(op.shape[d]), iv(1)))
                    conds.append(Eq(s, o[d]))
                else:
                    conds.append(Eq(o[d], iv(0)))
            else:
                full = dimeq(wsize[d], op.shape[d])
                if d in start:
                    s = start[d]
                    mx = Sub(ctx.z(op.shape[d]), ctx.z(wsize[d]))
                    if mode == GatherScatterMode.CLIP:
                        s = Max(iv(0), Min(s, mx))
                    else:
                        conds += [Ge(s, iv(0)), Le(s, mx)]
                    j = Sub(o[d], s)
                    conds += [Ge(j, iv(0)), Lt(j, ctx.z(wsize[d]))]
                else:
                    j = o[d]
                    if not full:
                        conds += [Ge(j, iv(0)), Lt(j, ctx.z(wsize[d]))]
                w[d] = j
        return And(*conds), w

    def uval(b, w):
        ui = [None] * upd.ndim
        for j, u in enumerate(usc):
            ui[u] = b[j]
        for d, u in zip(win, uwd):
            ui[u] = w[d]
        return upd(*ui)

    def f(*o):
        prepare()
        base = [None] * nb
        pre = []
        for j, d in lanes.items():
            base[j] = o[d]
            pre += [Ge(o[d], iv(0)), Lt(o[d], ctx.z(bshape[j]))] if not dimeq(bshape[j], op.shape[d]) else []
        if name == 'scatter-add':
            s = sort_of(op.dtype)
            zero = z3.IntVal(0) if s == I else z3.RealVal(0)

            def rec(js):
                if not js:
                    c, w = hit(base, o)
                    return If(And(*pre, c), uval(base, w), zero)
                j = js[0]

                def g(k):
                    base[j] = k
                    try:
                        return rec(js[1:])
                    finally:
                        base[j] = None
                return ctx.sum(bshape[j], g, s)
            r = Add(op(*o), rec(list(free)))
            return ctx.wrap(r, op.dtype) if s == I else r
        if name != 'scatter':
            raise Unsupported(name)
        if not free:
            c, w = hit(base, o)
            return If(And(*pre, c), uval(base, w), op(*o))
        # some update positions are unknown: either one of them writes here, or none does
        concrete = all(isinstance(bshape[j], int) and bshape[j] <= 64 for j in free)
        if concrete:
            r = op(*o)
            for pos in itertools.product(*[range(bshape[j]) for j in free]):
                b = list(base)
                for j, q in zip(free, pos):
                    b[j] = iv(q)
                c, w = hit(b, o)
                r = If(And(*pre, c), uval(b, w), r)
            return r
        ks = [ctx.fresh('upd', n=bshape[j]) for j in free]
        b = list(base)
        for j, k in zip(free, ks):
            b[j] = k
        c, w = hit(b, o)
        rng = And(*[And(k >= 0, k < ctx.z(bshape[j])) for j, k in zip(free, ks)])
        h = ctx.fresh('hit', B)
        ctx.fact(z3.Implies(h, And(*pre, rng, c)))

        def none_hits(*qs):
            b2 = list(base)
            for j, q in zip(free, qs):
                b2[j] = q
            c2, _ = hit(b2, o)
            r2 = And(*[And(q >= 0, q < ctx.z(bshape[j])) for j, q in zip(free, qs)])
            return z3.Implies(And(Not(h), r2, *pre), Not(c2))
        ctx.quants.append((len(free), none_hits, 'scatter'))
        return If(h, uval(b, w), op(*o))
    return [aval_arr(av, f)]


# ---------------------------------------------------------------- reductions

@rule('reduce_sum')
def _rsum(ctx, eqn, a):
    av = eqn.outvars[0].aval
    axes = eqn.params['axes']
    s = sort_of(a.dtype)

    def f(*idx):
        it = iter(idx)
        ii = [None if d in axes else next(it) for d in range(a.ndim)]

        def rec(ax, ii):
            if not ax:
                return a(*ii)
            return ctx.sum(a.shape[ax[0]], lambda k: rec(ax[1:], [k if d == ax[0] else i for d, i in enumerate(ii)]), s)
        r = rec(list(axes), ii)
        return ctx.wrap(r, av.dtype) if s == I else r
    return [aval_arr(av, f)]


def _red_idx(a, axes, idx):
    it = iter(idx)
    return [None if d in axes else next(it) for d in range(a.ndim)]


def _fill(ii, axes, ks):
    ii = list(ii)
    for d, k in zip(axes, ks):
        ii[d] = k
    return ii


@rule('reduce_or', 'reduce_and')
def _ror(ctx, eqn, a):
    av = eqn.outvars[0].aval
    axes = list(eqn.params['axes'])
    isor = eqn.primitive.name == 'reduce_or'

    def f(*idx):
        ii = _red_idx(a, axes, idx)
        g = lambda *ks: a(*_fill(ii, axes, ks)) if isor else Not(a(*_fill(ii, axes, ks)))
        if all(isinstance(a.shape[d], int) and a.shape[d] <= 16 for d in axes):
            b = Or(*[g(*[iv(p) for p in pos]) for pos in itertools.product(*[range(a.shape[d]) for d in axes])])
            return b if isor else Not(b)
        b = ctx.fresh('any', B)
        ws = [ctx.fresh('w', n=a.shape[d]) for d in axes]
        shp = [a.shape[d] for d in axes]
        ctx.fact(z3.Implies(b, And(ctx.in_range(ws, shp), g(*ws))))
        ctx.quants.append((len(axes), lambda *ks: z3.Implies(And(Not(b), ctx.in_range(ks, shp)), Not(g(*ks))), 'any'))
        ctx.add_pool(*ws)
        return b if isor else Not(b)
    return [aval_arr(av, f)]


@rule('reduce_max', 'reduce_min')
def _rmax(ctx, eqn, a):
    av = eqn.outvars[0].aval
    axes = list(eqn.params['axes'])
    mx = eqn.primitive.name == 'reduce_max'

    def f(*idx):
        ii = _red_idx(a, axes, idx)
        g = lambda *ks: a(*_fill(ii, axes, ks))
        shp = [a.shape[d] for d in axes]
        if all(isinstance(s, int) and 1 <= s <= 16 for s in shp):
            r = None
            for pos in itertools.product(*[range(s) for s in shp]):
                v = g(*[iv(p) for p in pos])
                r = v if r is None else (Max(r, v) if mx else Min(r, v))
            return r
        m = ctx.fresh('max' if mx else 'min', sort_of(a.dtype))
        ws = [ctx.fresh('w', n=a.shape[d]) for d in axes]
        ne = And(*[ctx.z(s) > 0 for s in shp])
        ctx.fact(z3.Implies(ne, And(ctx.in_range(ws, shp), g(*ws) == m)))
        if kind(a.dtype) == 'i':
            lo, hi = DT_RANGE[np.dtype(a.dtype)]
            ctx.fact(z3.Implies(Not(ne), m == (lo if mx else hi)))
            ctx.fact(And(m >= lo, m <= hi))
        ctx.quants.append((len(axes), lambda *ks: z3.Implies(ctx.in_range(ks, shp), g(*ks) <= m if mx else g(*ks) >= m), 'max'))
        ctx.add_pool(*ws)
        return m
    return [aval_arr(av, f)]


@rule('argmax', 'argmin')
def _argmax(ctx, eqn, a):
    av = eqn.outvars[0].aval
    (ax,) = eqn.params['axes']
    mx = eqn.primitive.name == 'argmax'

    def f(*idx):
        ii = _red_idx(a, [ax], idx)

        def g(k):
            v = a(*_fill(ii, [ax], [k]))
            return If(v, iv(1), iv(0)) if z3.is_bool(v) else v
        m = ctx.fresh('argmax', n=a.shape[ax])
        n = ctx.z(a.shape[ax])
        ctx.fact(z3.Implies(n > 0, And(m >= 0, m < n)))
        ctx.quants.append((1, lambda k: z3.Implies(And(k >= 0, k < n), And(
            (g(k) <= g(m)) if mx else (g(k) >= g(m)),
            z3.Implies(k < m, (g(k) < g(m)) if mx else (g(k) > g(m))))), 'argmax'))
        ctx.add_pool(m)
        return m
    return [aval_arr(av, f)]


@rule('cumsum')
def _cumsum(ctx, eqn, a):
    av = eqn.outvars[0].aval
    ax, rev = eqn.params['axis'], eqn.params['reverse']
    s = sort_of(a.dtype)

    def f(*idx):
        g = lambda k: a(*[k if d == ax else i for d, i in enumerate(idx)])
        n = ctx.z(a.shape[ax])
        if rev:
            r = Sub(ctx.sum(n, g, s), ctx.sum(idx[ax], g, s, of=n))
        else:
            r = ctx.sum(Add(idx[ax], iv(1)), g, s, of=n)
        return ctx.wrap(r, av.dtype) if s == I else r
    return [aval_arr(av, f)]


@rule('dot_general')
def _dot(ctx, eqn, a, b):
    av = eqn.outvars[0].aval
    (ca, cb), (ba, bb) = eqn.params['dimension_numbers']
    s = sort_of(av.dtype)
    ra = [d for d in range(a.ndim) if d not in ca and d not in ba]
    rb = [d for d in range(b.ndim) if d not in cb and d not in bb]

    def f(*idx):
        ia, ib = [None] * a.ndim, [None] * b.ndim
        q = 0
        for x, y in zip(ba, bb):
            ia[x] = ib[y] = idx[q]
            q += 1
        for d in ra:
            ia[d] = idx[q]
            q += 1
        for d in rb:
            ib[d] = idx[q]
            q += 1

        def rec(n, ia, ib):
            if n == len(ca):
                return Mul(convert(ctx, a(*ia), a.dtype, av.dtype), convert(ctx, b(*ib), b.dtype, av.dtype))

            def g(k):
                ja, jb = list(ia), list(ib)
                ja[ca[n]] = jb[cb[n]] = k
                return rec(n + 1, ja, jb)
            return ctx.sum(a.shape[ca[n]], g, s)
        r = rec(0, ia, ib)
        return ctx.wrap(r, av.dtype) if s == I else r
    return [aval_arr(av, f)]


@rule('sort')
def _sort(ctx, eqn, *ops):
    """assumed contract of XLA sort: a permutation of the input along the axis, ordered by the first keys"""
    ax = eqn.params['dimension']
    nk = eqn.params['num_keys']
    if nk != 1:
        raise Unsupported('multi-key sort')
    nd = ops[0].ndim
    n = ops[0].shape[ax]
    perm = ctx.func('perm', *([I] * nd), I)
    inv = ctx.func('inv', *([I] * nd), I)
    seen = []

    def sub(idx, j):
        return [j if d == ax else i for d, i in enumerate(idx)]

    def src(*idx):
        p = perm(*idx)
        nz = ctx.z(n)
        inr = And(idx[ax] >= 0, idx[ax] < nz)
        ctx.fact(z3.Implies(inr, And(p >= 0, p < nz, inv(*sub(idx, p)) == idx[ax])))
        for other in list(seen):
            if all(d == ax or i.eq(j) for d, (i, j) in enumerate(zip(idx, other))) and not other[ax].eq(idx[ax]):
                i, j = idx[ax], other[ax]
                oi, oj = ops[0](*sub(idx, p)), ops[0](*sub(other, perm(*other)))
                inb = And(i >= 0, i < nz, j >= 0, j < nz)
                ctx.fact(z3.Implies(And(inb, i <= j), oi <= oj))
                ctx.fact(z3.Implies(And(inb, j <= i), oj <= oi))
        if not any(all(i.eq(j) for i, j in zip(idx, o)) for o in seen):
            seen.append(idx)
        return p
    outs = []
    for o, v in zip(ops, eqn.outvars):
        arr = aval_arr(v.aval, lambda *idx, o=o: o(*sub(idx, src(*idx))), 'sorted')
        arr.meta = ('sort', o, perm, inv, ax)
        outs.append(arr)
    ctx.sorts.append(dict(outs=outs, ops=ops, perm=perm, inv=inv, axis=ax, n=n))
    return outs


# ---------------------------------------------------------------- PRNG keys

@rule('random_wrap')
def _rwrap(ctx, eqn, a):
    av = eqn.outvars[0].aval
    m = getattr(a, 'meta', None)
    if m and m[0] == 'unwrapped':
        return [m[1]]
    raise Unsupported('random_wrap of raw data')


@rule('random_unwrap')
def _runwrap(ctx, eqn, a):
    av = eqn.outvars[0].aval

    def f(*idx):
        raise Unsupported('raw key data')
    r = aval_arr(av, f)
    r.meta = ('unwrapped', a)
    return [r]


@rule('random_split')
def _rsplit(ctx, eqn, k):
    av = eqn.outvars[0].aval
    shape = eqn.params['shape']
    nb = k.ndim

    def f(*idx):
        b, s = idx[:nb], idx[nb:]
        flat = None
        tot = iv(1)
        for d, i in zip(shape, s):
            flat = i if flat is None else Add(Mul(flat, ctx.z(d)), i)
            tot = Mul(tot, ctx.z(d))
        return Key.spl(k(*b), tot, iv(0) if flat is None else flat)
    tot = iv(1)
    for d in shape:
        tot = Mul(tot, ctx.z(d))
    ctx.splits.append(dict(key=k, num=tot, level=tuple(ctx.hyp_stack)))
    return [aval_arr(av, f)]


@rule('random_seed')
def _rseed(ctx, eqn, a):
    return [aval_arr(eqn.outvars[0].aval, lambda *i: Key.root(a(*i)))]


@rule('random_fold_in')
def _rfold(ctx, eqn, k, d):
    av = eqn.outvars[0].aval
    ctx.splits.append(dict(key=k, num=None, data=d, level=tuple(ctx.hyp_stack)))
    return [aval_arr(av, lambda *i: Key.fold(k(*i), d(*i)))]


@rule('random_bits')
def _rbits(ctx, eqn, k):
    av = eqn.outvars[0].aval
    ctx.rand.append(dict(kind='bits', key=k, shape=eqn.params['shape'], level=tuple(ctx.hyp_stack)))
    nb = k.ndim
    nd = len(av.shape)
    fn = z3.Function(f'RandBits_{nd - nb}', Key, *([I] * (nd - nb)), I)
    lo, hi = DT_RANGE[np.dtype(av.dtype)]

    def f(*idx):
        t = fn(k(*idx[:nb]), *idx[nb:])
        ctx.fact(And(t >= lo, t <= hi))
        return t
    return [aval_arr(av, f)]


@rule('debug_callback', 'io_callback')
def _dbg(ctx, eqn, *a):
    ctx.calls.append(('debug_callback', eqn, a, tuple(ctx.hyp_stack)))
    return []


GammaInccInv = z3.Function('gammainccinv', R, R, R)


def host_function(cb):
    """the scipy function behind a host callback, through wrappers that only change the type"""
    f = getattr(cb, 'callback_func', cb)
    for _ in range(8):
        f = getattr(f, 'func', None) or getattr(f, '__wrapped__', None) or f
    return f


@rule('pure_callback')
def _pcb(ctx, eqn, *a):
    """host callback: only the inverse of the regularized upper incomplete gamma function, elementwise (assumed to be what scipy computes)"""
    from scipy import special as sps
    if host_function(eqn.params['callback']) is not sps.gammainccinv or len(a) != 2:
        raise Unsupported('pure_callback')

    def f(*idx):
        x = [to_real(v(*idx)) if kind(v.dtype) == 'i' else v(*idx) for v in a]
        t = GammaInccInv(*x)
        ctx.fact(Implies(And(x[0] > 0, x[1] > 0, x[1] < 1), t > 0))
        return t
    return [aval_arr(v.aval, f, 'host') for v in eqn.outvars]

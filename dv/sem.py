"""Meaning of a jaxpr as mathematical functions (index -> term), and the fact base of a proof.

Every array is a closure from index terms to a Z3 term: Int (with explicit wrap-around at the
machine width of the dtype), Bool, Real (floating point read as exact arithmetic) or Key (free
algebra of PRNG keys).  Nothing here looks at how the code is written; only at the jaxpr.
"""
import sys
import itertools
import numpy as np
from . import boot
boot.setup()
import z3
from .dims import DimEnv, is_sym
import jax
from jax import numpy as jnp
from jax._src import core

sys.setrecursionlimit(20000)
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_Key = z3.Datatype('Key')
_Key.declare('root', ('rid', I))
_Key.declare('spl', ('par', _Key), ('num', I), ('idx', I))
_Key.declare('fold', ('fpar', _Key), ('fdat', I))
Key = _Key.create()


class Unsupported(Exception):
    """The verifier cannot read this construct (a limit of the tool, not a violation)."""


def iv(x):
    return z3.IntVal(x) if isinstance(x, (int, np.integer)) else x


# ---------------------------------------------------------------- term constructors
T, F = z3.BoolVal(True), z3.BoolVal(False)


def And(*a):
    a = [x for x in (itertools.chain.from_iterable(y if isinstance(y, (list, tuple)) else [y] for y in a))]
    out = []
    for x in a:
        x = bv(x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return F
        out.append(x)
    return T if not out else out[0] if len(out) == 1 else z3.And(out)


def bv(x):
    return z3.BoolVal(x) if isinstance(x, (bool, np.bool_)) else x


def Or(*a):
    a = [x for x in (itertools.chain.from_iterable(y if isinstance(y, (list, tuple)) else [y] for y in a))]
    out = []
    for x in a:
        x = bv(x)
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return T
        out.append(x)
    return F if not out else out[0] if len(out) == 1 else z3.Or(out)


def Not(x):
    x = bv(x)
    if z3.is_true(x):
        return F
    if z3.is_false(x):
        return T
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return bv(a) == bv(b)


def num(x):
    """python number of an arithmetic literal, else None"""
    if isinstance(x, (int, float)):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return x.as_fraction()
    return None


def If(c, a, b):
    c = bv(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, (bool, np.bool_)) or z3.is_bool(a) if not isinstance(a, (int, float)) else False:
        a, b = bv(a), bv(b)
        if a.eq(b):
            return a
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return Not(c)
        return z3.If(c, a, b)
    if isinstance(a, int) and isinstance(b, int):
        a = z3.IntVal(a)
    if not isinstance(a, (int, float)) and not isinstance(b, (int, float)) and a.eq(b):
        return a
    return z3.If(c, a, b)


def Eq(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return bv(na == nb)
    if hasattr(a, 'eq') and hasattr(b, 'eq') and a.eq(b):
        return T
    return a == b


def _cmp(op, pyop):
    def f(a, b):
        na, nb = num(a), num(b)
        if na is not None and nb is not None:
            return bv(pyop(na, nb))
        return op(a, b)
    return f


Le = _cmp(lambda a, b: a <= b, lambda a, b: a <= b)
Lt = _cmp(lambda a, b: a < b, lambda a, b: a < b)
Ge = _cmp(lambda a, b: a >= b, lambda a, b: a >= b)
Gt = _cmp(lambda a, b: a > b, lambda a, b: a > b)


def Add(a, b):
    na, nb = num(a), num(b)
    if na == 0:
        return b
    if nb == 0:
        return a
    if na is not None and nb is not None:
        return mk(na + nb, a)
    return a + b


def Sub(a, b):
    na, nb = num(a), num(b)
    if nb == 0:
        return a
    if na is not None and nb is not None:
        return mk(na - nb, a)
    return a - b


def Mul(a, b):
    na, nb = num(a), num(b)
    if na == 1:
        return b
    if nb == 1:
        return a
    if na is not None and nb is not None:
        return mk(na * nb, a)
    if na == 0:
        return a
    if nb == 0:
        return b
    return a * b


def mk(v, like):
    return z3.IntVal(v) if z3.is_int(like) else z3.RealVal(str(v))


def Max(a, b):
    return If(Ge(a, b), a, b)


def Min(a, b):
    return If(Le(a, b), a, b)


def fdiv(a, b):
    """floor division by a positive integer term"""
    na, nb = num(a), num(b)
    if na is not None and nb is not None and nb > 0:
        return iv(na // nb)
    return a / b


def fmod(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None and nb > 0:
        return iv(na % nb)
    return a % b


P2 = z3.Function('pow2', I, I)
Log = z3.Function('log', R, R)
Exp = z3.Function('exp', R, R)
Sqrt = z3.Function('sqrt', R, R)
Pow = z3.Function('pow', R, R, R)
BitAnd = z3.Function('bitand', I, I, I)
BitOr = z3.Function('bitor', I, I, I)
BitXor = z3.Function('bitxor', I, I, I)

DT_RANGE = {}
for _n in ('uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64'):
    _ii = np.iinfo(_n)
    DT_RANGE[np.dtype(_n)] = (int(_ii.min), int(_ii.max))


def is_key(dt):
    return jnp.issubdtype(dt, jax.dtypes.prng_key)


def kind(dt):
    if is_key(dt):
        return 'k'
    dt = np.dtype(dt) if not hasattr(dt, 'kind') else dt
    if jnp.issubdtype(dt, jnp.bool_):
        return 'b'
    if jnp.issubdtype(dt, jnp.integer):
        return 'i'
    if jnp.issubdtype(dt, jnp.floating):
        return 'f'
    if dt == jax.dtypes.float0:
        return 'b'
    raise Unsupported(f'dtype {dt}')


def sort_of(dt):
    return {'k': Key, 'b': B, 'i': I, 'f': R}[kind(dt)]


class Arr:
    __slots__ = ('shape', 'dtype', 'f', 'memo', 'hooks', 'hooked', 'name', 'slices', 'meta', '__weakref__')

    def __init__(self, shape, dtype, f, name=None):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.f = f
        self.memo = {}
        self.hooks = None
        self.hooked = None
        self.name = name
        self.slices = {}
        self.meta = None

    def __call__(self, *idx):
        idx = tuple(iv(i) for i in idx)
        if len(idx) != len(self.shape):
            raise Unsupported(f'rank mismatch evaluating {self.name}: {len(idx)} vs {self.shape}')
        k = tuple(i.get_id() for i in idx)
        m = self.memo.get(k)
        if m is None:
            r = self.f(*idx)
            if isinstance(r, (bool, np.bool_)):
                r = z3.BoolVal(bool(r))
            elif isinstance(r, (int, np.integer)):
                r = z3.RealVal(int(r)) if kind(self.dtype) == 'f' else z3.IntVal(int(r))
            m = self.memo[k] = (idx, r)
        if self.hooks:
            c = Ctx.current
            for n, (h, maxd) in enumerate(self.hooks):
                if c.depth <= maxd and (n, k) not in self.hooked:
                    self.hooked.add((n, k))
                    c.depth += 1
                    try:
                        fs = h(*idx)
                    finally:
                        c.depth -= 1
                    if fs is not None:
                        for q in (fs if isinstance(fs, (list, tuple)) else [fs]):
                            c.fact(q)
        return m[1]

    def on_eval(self, h, maxdepth=0):
        """whenever the array is evaluated at an index tuple, add the facts h(*idx)"""
        if self.hooks is None:
            self.hooks, self.hooked = [], set()
        self.hooks.append((h, maxdepth))
        n = len(self.hooks) - 1
        c = Ctx.current
        for k, (idx, _) in list(self.memo.items()):
            self.hooked.add((n, k))
            c.depth += 1
            try:
                fs = h(*idx)
            finally:
                c.depth -= 1
            if fs is not None:
                for q in (fs if isinstance(fs, (list, tuple)) else [fs]):
                    c.fact(q)

    def at(self, *pre):
        """the sub-array at leading indices (cached, so that identity is meaningful)"""
        if not pre:
            return self
        pre = tuple(iv(i) for i in pre)
        k = tuple(i.get_id() for i in pre)
        r = self.slices.get(k)
        if r is None:
            a = Arr(self.shape[len(pre):], self.dtype, lambda *j: self(*pre, *j), name=f'{self.name}@')
            r = self.slices[k] = (pre, a)
        return r[1]

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f'Arr({self.name},{self.shape},{self.dtype})'


def const_arr(v, shape=(), dtype=np.dtype('int32')):
    return Arr(shape, dtype, lambda *i: v)


class SumRec:
    __slots__ = ('ps', 'f', 'body', 'ns', 'sort', 'id', 'label', 'bound')


class Ctx:
    """Fact base: universally valid formulas (under the function's requires) plus term bookkeeping."""
    current = None

    def __init__(self, env):
        self.env = env
        self.facts = []
        self.fact_ids = set()
        self.fresh_names = set()
        self.cnt = itertools.count()
        self.level = 0
        self.depth = 0
        self.sums = {}
        self.sum_order = []
        self.sum_names = {}
        self.ranges = {}        # func decl name -> (lo, hi)
        self.pool = []
        self.pool_ids = set()
        self.quants = []        # existential/universal reductions awaiting instantiation
        self.rand = []          # random draws: (kind, key, shape, info)
        self.splits = []
        self.oblig = []         # obligations raised while reading code (callee requires)
        self.loops = []
        self.calls = []
        self.ivl_memo = {}
        self.notes = set()
        self.extra_done = set()
        self.sum_expand = 12
        self.hyp_stack = []
        self.iter_stack = []
        self.loop_stack = []
        self.loop_handlers = []
        self.raise_obl = True
        self.sorts = []
        self.keep = []
        self.gathers = None     # log of (operand, indices), when a contract asks for it
        self.maybe_inf = set()  # symbols whose terms may be infinite, when a contract declares some
        for h in env.hyps():
            self.fact(h)
        for ex, pw in env.pow2:
            self.fact(P2(env.z(ex)) == env.z(pw))

    # -- basic
    def fact(self, f):
        if isinstance(f, (bool, np.bool_)):
            if f:
                return
            f = F
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self.fact_ids:
            return
        self.fact_ids.add(i)
        self.facts.append(f)

    def fresh(self, name, sort=I, n=None):
        '''a new constant; with n, an index below n (if n may be positive): 0 <= k < max(n), without loss of generality'''
        nm = f'{name}!{next(self.cnt)}'
        self.fresh_names.add(nm)
        k = z3.Const(nm, sort)
        if n is not None:
            hi = self.ivl(n if z3.is_expr(n) else self.z(n))[1]
            if 1 <= hi < float('inf'):
                self.ranges[nm] = (0, int(hi) - 1)
                self.fact(z3.And(k >= 0, k <= int(hi) - 1))
        return k

    def fresh_idx(self, name, n=None, lo=0):
        """an arbitrary index; the caller uses guard() in goals"""
        k = self.fresh(name)
        return k

    def func(self, name, *sorts):
        return z3.Function(f'{name}!{next(self.cnt)}', *sorts)

    def z(self, d):
        return self.env.z(d)

    def in_range(self, idx, shape):
        return And(*[And(Le(0, iv(i)), Lt(iv(i), self.z(d))) for i, d in zip(idx, shape)])

    def input(self, name, shape, dtype, lo=None, hi=None):
        """arbitrary array: one uninterpreted function"""
        s = sort_of(dtype)
        nm = f'{name}!{next(self.cnt)}'
        fn = z3.Function(nm, *([I] * len(shape)), s) if shape else z3.Const(nm, s)
        k = kind(dtype)
        if k == 'i':
            a, b = DT_RANGE[np.dtype(dtype)]
            if lo is not None:
                a = lo
            if hi is not None:
                b = hi
            self.ranges[nm] = (a, b)

            def f(*idx):
                t = fn(*idx) if shape else fn
                self.fact(And(t >= a, t <= b))
                return t
        else:
            def f(*idx):
                return fn(*idx) if shape else fn
        return Arr(shape, dtype, f, name=name)

    def add_pool(self, *ts):
        for t in ts:
            t = iv(t)
            if t.get_id() not in self.pool_ids:
                self.pool_ids.add(t.get_id())
                self.pool.append(t)

    # -- interval analysis, to leave out wrap-around that cannot happen
    def ivl(self, e):
        k = e.get_id()
        r = self.ivl_memo.get(k)
        if r is None:
            r = self._ivl(e)
            self.ivl_memo[k] = r
            self.keep.append(e)
        return r

    def _ivl(self, e):
        INF = float('inf')
        if z3.is_int_value(e):
            v = e.as_long()
            return v, v
        d = e.decl()
        kd = d.kind()
        if kd == z3.Z3_OP_UNINTERPRETED:
            nm = d.name()
            if nm in self.ranges:
                return self.ranges[nm]
            if nm in self.sum_names and e.num_args() == 1:
                # n terms, each within the bounds of the summand
                a, b = self.ivl(self.sum_names[nm].body)
                m = max(0, self.ivl(e.arg(0))[1])
                return (0 if a >= 0 or m == 0 else a * m), (0 if b <= 0 or m == 0 else b * m)
            if e.num_args() == 0 and nm in self.env.vars:
                return self.env.var_bounds(nm)
            return -INF, INF
        if kd == z3.Z3_OP_ITE:
            a, b = self.ivl(e.arg(1)), self.ivl(e.arg(2))
            return min(a[0], b[0]), max(a[1], b[1])
        if kd == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in e.children():
                x = self.ivl(c)
                lo += x[0]
                hi += x[1]
            return lo, hi
        if kd == z3.Z3_OP_SUB:
            cs = [self.ivl(c) for c in e.children()]
            lo, hi = cs[0]
            for x in cs[1:]:
                lo -= x[1]
                hi -= x[0]
            return lo, hi
        if kd == z3.Z3_OP_UMINUS:
            a = self.ivl(e.arg(0))
            return -a[1], -a[0]
        if kd == z3.Z3_OP_MUL:
            lo, hi = 1, 1
            for c in e.children():
                x = self.ivl(c)
                ps = [0 if (u == 0 or v == 0) else u * v for u in (lo, hi) for v in x]
                lo, hi = min(ps), max(ps)
            return lo, hi
        if kd == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
            a = self.ivl(e.arg(0))
            c = e.arg(1).as_long()
            return (a[0] // c if a[0] > -INF else -INF), (a[1] // c if a[1] < INF else INF)
        if kd == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
            return 0, e.arg(1).as_long() - 1
        return -INF, INF

    def wrap(self, e, dt):
        """value of a mathematical integer stored at the machine width of dt"""
        e = iv(e)
        lo, hi = DT_RANGE[np.dtype(dt)]
        a, b = self.ivl(e)
        if lo <= a and b <= hi:
            return e
        n = num(e)
        m = hi - lo + 1
        if n is not None:
            return iv((n - lo) % m + lo)
        w = e % m if lo == 0 else (e - lo) % m + lo
        return z3.If(z3.And(e >= lo, e <= hi), e, w)

    # -- sums
    def sum(self, n, f, sort, label=None, of=None):
        """sum_{0<=k<n} f(k); `of`: a bound on n when partial sums of a longer one are taken"""
        nz = n if z3.is_expr(n) else self.z(n)
        c = num(nz)
        zero = z3.IntVal(0) if sort == I else z3.RealVal(0)
        if c is not None and c <= self.sum_expand:
            r = zero
            for k in range(max(0, c)):
                r = Add(r, f(iv(k)))
            return r
        hi = self.ivl(nz if of is None else of)[1]
        hi = int(hi) if 1 <= hi < float('inf') else None
        k = z3.Int(f'K!{self.level}' + (f'!{hi}' if hi else ''))
        if hi:
            self.ranges[str(k)] = (0, hi - 1)
        self.level += 1
        try:
            body = f(k)
        finally:
            self.level -= 1
        if not z3.is_expr(body):
            body = z3.IntVal(body) if sort == I else z3.RealVal(body)
        body = z3.simplify(body)
        if num(body) == 0:
            return zero
        rec = self.sums.get((body.get_id(), sort, hi))
        if rec is None:
            rec = SumRec()
            rec.ps = z3.Function(f'Sum!{next(self.cnt)}', I, sort)
            rec.f, rec.body, rec.ns, rec.sort = f, body, {}, sort
            rec.id = len(self.sum_order)
            rec.label = label
            rec.bound = self.level > 0
            self.sums[body.get_id(), sort, hi] = rec
            self.sum_names[rec.ps.name()] = rec
            self.sum_order.append(rec)
            self.fact(rec.ps(0) == zero)
        if self.level == 0:
            rec.bound = False
        rec.ns[nz.get_id()] = nz
        return rec.ps(nz)

    def rec_of(self, term):
        """sum record of a term returned by sum()"""
        return self.sum_names[term.decl().name()]

    def rec_or_none(self, term):
        try:
            return self.rec_of(term)
        except (KeyError, AttributeError, z3.Z3Exception):
            return None

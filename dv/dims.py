"""Symbolic array dimensions: JAX dimension expressions decided by Z3, with path forking.

The project's Python code branches on array sizes (`if max_value < 2**8`).  When a size is
symbolic the branch is decided by Z3 from the dimension assumptions; if both outcomes are
possible, the extraction is forked and repeated for each outcome (every path is verified).
"""
import os, sys
from . import boot
boot.setup()
import z3
import jax
from jax._src import core
from jax._src.export import shape_poly as SP
from jax._src.export import shape_poly_decision  # noqa: F401

_DimExpr, _DimFactor, _DimTerm = SP._DimExpr, SP._DimFactor, SP._DimTerm
Inconclusive = SP.InconclusiveDimensionOperation


class PathLimit(Exception):
    pass


class DimEnv:
    """Dimension variables, their assumptions, and the decisions taken on the current path."""
    current = None

    def __init__(self):
        self.scope = SP.SymbolicScope()
        self.vars = {}
        self.bounds = {}
        self.assume = []          # z3 formulas over dimension variables
        self.pow2 = []            # (dimexpr exponent, dimexpr power)
        self.prefix = []
        self.taken = []           # [(formula, bool)]
        self.pending = []
        self._cache = {}
        self._solver = None
        self.log = []
        self.extra = []           # facts of the current path that are not decisions
        self.warned = []
        self.divisor = None       # (size, N): size = N * q for arbitrary N, q (see fw.s_range)

    def var(self, name, lo=0, hi=2 ** 24):
        v = _DimExpr._from_var(name, self.scope)
        self.vars[name] = v
        self.bounds[name] = (lo, hi)
        z = z3.Int(name)
        self.assume += [z >= lo, z <= hi]
        return v

    def var_bounds(self, name):
        return self.bounds[name]

    # -- translation
    def z(self, d):
        if not isinstance(d, _DimExpr):
            return z3.IntVal(int(d))
        r = None
        for t, k in d._sorted_terms:
            e = None
            for f, ex in t._factors:
                b = self._zf(f)
                for _ in range(ex):
                    e = b if e is None else e * b
            e = z3.IntVal(k) if e is None else (e if k == 1 else e * k)
            r = e if r is None else r + e
        return r

    def _zf(self, f):
        if f.var is not None:
            return z3.Int(f.var)
        ops = [self.z(o) for o in f.operands]
        if f.operation == _DimFactor.FLOORDIV:
            return ops[0] / ops[1]
        if f.operation == _DimFactor.MOD:
            return ops[0] % ops[1]
        if f.operation == _DimFactor.MAX:
            return z3.If(ops[0] >= ops[1], ops[0], ops[1])
        if f.operation == _DimFactor.MIN:
            return z3.If(ops[0] <= ops[1], ops[0], ops[1])
        raise NotImplementedError(f.operation)

    def hyps(self):
        return self.assume + self.extra + [c if v else z3.Not(c) for c, v in self.taken]

    def start(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.extra = []
        self.warned = []
        self._cache = {}
        self._solver = None

    def _entails(self, f):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set('timeout', 3000)
            self._solver.add(self.hyps())
            for ex, pw in self.pow2:
                if isinstance(ex, _DimExpr):
                    e, w = self.z(ex), self.z(pw)
                    self._solver.add(z3.Or([z3.And(e == k, w == 2 ** k) for k in range(32)]))
        self._solver.push()
        self._solver.add(z3.Not(f))
        r = self._solver.check()
        self._solver.pop()
        return r == z3.unsat

    def entail(self, f):
        """True / False / None."""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = f.sexpr()
        if k in self._cache:
            return self._cache[k]
        r = True if self._entails(f) else (False if self._entails(z3.Not(f)) else None)
        self._cache[k] = r
        return r

    def explore(self, fn):
        """fn() along every path of size decisions from here; the decisions are not kept.  None if the results differ."""
        st = (self.taken, self.prefix, self.pending, self.log, self._cache, self._solver)
        base = list(self.taken)
        todo, res, forked = [[]], [], False
        try:
            while todo:
                sub = todo.pop()
                self.taken, self.prefix, self.pending, self.log = list(base), [b for _, b in base] + sub, [], []
                self._cache, self._solver = {}, None
                if res:
                    jax.clear_caches()
                r = fn()
                if res and r[0] != res[0][0]:
                    return None
                res.append(r)
                todo += [q[len(base):] for q in self.pending]
                forked = forked or bool(self.pending)
                if len(res) > 40:
                    return None
        finally:
            self.taken, self.prefix, self.pending, self.log, self._cache, self._solver = st
            if forked:
                jax.clear_caches()
        return res[0]

    def know(self, f):
        self.extra.append(f)
        self._cache, self._solver = {}, None

    def decide(self, f, why=''):
        r = self.entail(f)
        if r is not None:
            return r
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.pending.append([b for _, b in self.taken] + [False])
            if len(self.pending) > 400:
                raise PathLimit()
        self.log.append((f, v, why))
        self.taken.append((f, v))
        self._cache = {}
        self._solver = None
        return v


def in_project():
    """Is the nearest non-dims frame in the project's source?"""
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == __file__:
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(boot.SRC)


def _geq(e1, e2, cmp_str):
    env = DimEnv.current
    if env is None:
        return _orig_geq(e1, e2, cmp_str)
    if not isinstance(e1, _DimExpr) and not isinstance(e2, _DimExpr):
        return int(e1) >= int(e2)
    d = e1 - e2
    if not isinstance(d, _DimExpr):
        return d >= 0
    return env.decide(env.z(d) >= 0, 'cmp')


def _bounds(e, prec):
    if not isinstance(e, _DimExpr):
        return (int(e), int(e))
    env = DimEnv.current
    if env is None:
        return _orig_bounds(e, prec)
    z = env.z(e)
    lb, ub = -float('inf'), float('inf')
    if env.entail(z >= 1):
        lb = 1
    elif env.entail(z >= 0):
        lb = 0
    if lb == -float('inf'):
        if env.entail(z <= -1):
            ub = -1
        elif env.entail(z <= 0):
            ub = 0
    elif lb == 0 and env.entail(z <= 0):
        ub = 0
    return lb, ub


def _eq(self, other):
    if isinstance(other, _DimExpr):
        if self.scope is not other.scope:
            return False
    elif not core.is_constant_dim(other):
        return False
    if self is other:
        return True
    diff = self - other
    if not isinstance(diff, _DimExpr):
        return diff == 0
    env = DimEnv.current
    if env is None:
        return False
    if in_project():
        return env.decide(env.z(diff) == 0, 'eq')
    # equality asked by JAX itself (shape checks, caches): only what is entailed
    if not env.has_nonlinear and _syntactic_distinct(diff):
        return False
    return env.entail(env.z(diff) == 0) is True


DimEnv.has_nonlinear = False


def _syntactic_distinct(diff):
    return True


def _bool(self):
    env = DimEnv.current
    if env is None:
        return True
    f = env.z(self) != 0
    if in_project():
        return env.decide(f, 'bool')
    r = env.entail(f)
    return True if r is None else r


def _rpow(self, other):
    env = DimEnv.current
    if other == 2:
        for ex, pw in env.pow2:
            d = self - ex
            if not isinstance(d, _DimExpr):
                if d >= 0:
                    return pw * (2 ** d)
                half = pw // (2 ** -d)
                return half
    raise Inconclusive(f'{other} ** {self}')


_rfloordiv = _DimExpr.__rfloordiv__
_orig_geq = SP._geq_decision
_orig_bounds = SP._bounds_decision
SP._geq_decision = _geq
SP._bounds_decision = _bounds
def _ordering(name, mirror):
    orig = getattr(_DimExpr, name)

    def f(self, other):
        if isinstance(other, (core.Tracer, jax.Array)):
            return getattr(other, mirror)(self)
        return orig(self, other)
    setattr(_DimExpr, name, f)


for _a, _b in (('__gt__', '__lt__'), ('__ge__', '__le__'), ('__lt__', '__gt__'), ('__le__', '__ge__')):
    _ordering(_a, _b)
_DimExpr.__eq__ = _eq
_DimExpr.__ne__ = lambda self, other: not _eq(self, other)
_DimExpr.__hash__ = _DimExpr.__hash__
_DimExpr.__bool__ = _bool
_DimExpr.__rpow__ = _rpow
_DimExpr.__round__ = lambda self, n=None: self
_DimExpr.__trunc__ = lambda self: self
_DimExpr.__deepcopy__ = lambda self, memo: self


def is_sym(d):
    return isinstance(d, _DimExpr)

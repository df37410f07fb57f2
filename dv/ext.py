"""Assumed contracts of dependencies (JAX / numpy / scipy functions the project calls)."""
from .fw import *
from .fw import Contract, Item, register
import jax.random as jr

_fid = itertools.count()


class External(Contract):
    external = True
    sites = ()

    def install(self):
        res = []
        for o, k in self.sites:
            orig = vars(o)[k]
            res.append((o, k, self.mk(orig)))
            self.orig = orig
        return res

    def mk(self, orig):
        ct = self

        @functools.wraps(orig)
        def stub(*a, **kw):
            if not fw_in_project():
                return orig(*a, **kw)
            return ct.call(orig, a, kw)
        return stub

    def call(self, orig, a, kw):
        return bind_call(self, orig, a, kw)


def fw_in_project():
    f = sys._getframe(2)
    for _ in range(3):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(boot.SRC):
            return True
        if '/dv/' in fn:
            f = f.f_back
            continue
        return False
    return False


def _draw(c, inst, kind, key, shape, **info):
    c.rand.append(dict(kind=kind, key=key, shape=shape, inst=inst, level=tuple(c.hyp_stack), **info))


@register
class Randint(External):
    """jax.random.randint(key, shape, lo, hi): integers in [lo, hi) (lo if hi <= lo)"""
    name = 'jax.random.randint'
    sites = ((jr, 'randint'),)

    def apply(self, c, inst, a, kw, specs):
        A = inst.A = self.bindargs(self.orig, a, kw)
        o = inst.fresh(specs.shape, specs.dtype, 'randint')
        lo, hi = A.minval, A.maxval
        _draw(c, inst, 'randint', A.key, specs.shape, out=o, lo=lo, hi=hi)

        def post(*idx):
            l, h = scalar(c, lo, idx), scalar(c, hi, idx)
            r = o(*idx)
            return [z3.Implies(h > l, And(r >= l, r < h)), z3.Implies(h <= l, r == l)]
        inst.outarr = o
        o.on_eval(post, 3)
        return o

    def post(self, c, inst, a, kw, out):
        pass

    def check_requires(self, c, inst):
        pass


def scalar(c, x, idx):
    if isinstance(x, Arr):
        return x(*idx[len(idx) - x.ndim:]) if x.ndim else x()
    if is_sym(x):
        return c.z(x)
    if isinstance(x, (bool, int, np.integer)):
        return iv(int(x))
    return z3.RealVal(str(x))


def rscalar(c, x, idx):
    t = scalar(c, x, idx)
    return prims.to_real(t) if z3.is_int(t) else t


@register
class Uniform(External):
    """jax.random.uniform: reals in [lo, hi) (lo if hi <= lo)"""
    name = 'jax.random.uniform'
    sites = ((jr, 'uniform'),)

    def apply(self, c, inst, a, kw, specs):
        A = inst.A = self.bindargs(self.orig, a, kw)
        o = inst.fresh(specs.shape, specs.dtype, 'uniform')
        _draw(c, inst, 'uniform', A.key, specs.shape, out=o, lo=A.minval, hi=A.maxval)

        def post(*idx):
            l, h = rscalar(c, A.minval, idx), rscalar(c, A.maxval, idx)
            r = o(*idx)
            return [z3.Implies(h > l, And(r >= l, r < h)), z3.Implies(h <= l, r == l)]
        inst.outarr = o
        o.on_eval(post, 3)
        return o

    def post(self, *a):
        pass

    def check_requires(self, c, inst):
        pass


@register
class Normal(External):
    name = 'jax.random.normal'
    sites = ((jr, 'normal'),)

    def apply(self, c, inst, a, kw, specs):
        A = inst.A = self.bindargs(self.orig, a, kw)
        o = inst.fresh(specs.shape, specs.dtype, 'normal')
        _draw(c, inst, 'normal', A.key, specs.shape, out=o)
        inst.outarr = o
        return o

    def post(self, *a):
        pass

    def check_requires(self, c, inst):
        pass


@register
class Gamma(External):
    """jax.random.gamma(key, a): positive"""
    name = 'jax.random.gamma'
    sites = ((jr, 'gamma'),)

    def apply(self, c, inst, a, kw, specs):
        A = inst.A = self.bindargs(self.orig, a, kw)
        o = inst.fresh(specs.shape, specs.dtype, 'gamma')
        _draw(c, inst, 'gamma', A.key, specs.shape, out=o, a=A.a)
        inst.outarr = o
        o.on_eval(lambda *i: o(*i) > 0, 3)
        return o

    def post(self, *a):
        pass

    def check_requires(self, c, inst):
        pass


DRAWS = ['jax.random.randint', 'jax.random.uniform', 'jax.random.normal', 'jax.random.gamma']


def lt(a, b):
    return a < b


@register
class Searchsorted(External):
    """jnp.searchsorted(a, v, side): the insertion point, for a non-decreasing a"""
    name = 'jnp.searchsorted'
    sites = ((jnp, 'searchsorted'),)

    def call(self, orig, a, kw):
        b = inspect.signature(orig).bind(*a, **kw)
        b.apply_defaults()
        A = b.arguments
        if A.get('sorter') is not None or getattr(A['a'], 'ndim', 0) != 1:
            return orig(*a, **kw)

        def core_fn(a_, v_, side):
            return jnp.zeros(jnp.shape(v_), jnp.int32)
        v = jnp.asarray(A['v'])
        arr = A['a']
        if arr.dtype != v.dtype:
            dt = jnp.promote_types(arr.dtype, v.dtype)
            arr, v = arr.astype(dt), v.astype(dt)
        return bind_call(self, core_fn, (arr, v, A['side']), {})

    def apply(self, c, inst, a, kw, specs):
        arr, v, side = a
        inst.A = NS(a=arr, v=v, side=side)
        o = inst.fresh(specs.shape, specs.dtype, 'ss')
        n = c.z(arr.shape[0])

        def post(*idx):
            r = o(*idx)
            x = v(*idx) if v.ndim else v()

            def q(j):
                y = arr(j)
                below = And(j < r, j >= 0)
                above = And(j >= r, j < n)
                below, above = And(inst.guard, below), And(inst.guard, above)
                if side == 'left':
                    return [z3.Implies(below, y < x), z3.Implies(above, y >= x)]
                return [z3.Implies(below, y <= x), z3.Implies(above, y > x)]
            fs = [And(r >= 0, r <= n)] + q(r) + q(Sub(r, iv(1)))
            c.quants.append((1, q, 'searchsorted'))
            c.add_pool(r, Sub(r, iv(1)))
            return fs
        if side not in ('left', 'right'):
            raise Unsupported('searchsorted side')
        o.on_eval(post, 3)
        return o

    def post(self, *a):
        pass

    def requires(self, c, A):
        return [Item('searchsorted needs a non-decreasing array', lambda i, j: z3.Implies(i <= j, A.a(i) <= A.a(j)), dims=(A.a.shape[0], A.a.shape[0]))]


@register
class Unique(External):
    """jnp.unique(x, size=x.size, fill_value=v): the distinct values in increasing order, then the fill value"""
    name = 'jnp.unique'
    sites = ((jnp, 'unique'),)

    def call(self, orig, a, kw):
        b = inspect.signature(orig).bind(*a, **kw)
        b.apply_defaults()
        A = b.arguments
        x = A['ar']
        if A['return_index'] or A['return_inverse'] or A['return_counts'] or A['axis'] is not None or getattr(x, 'ndim', 0) != 1:
            return orig(*a, **kw)
        d = A['size'] - x.shape[0] if A['size'] is not None else None
        if d is None or is_sym(d) or d != 0 or A['fill_value'] is None:
            return orig(*a, **kw)

        def core_fn(x, fill):
            return jnp.zeros(x.shape, x.dtype)
        return bind_call(self, core_fn, (x, A['fill_value']), {})

    def apply(self, c, inst, a, kw, specs):
        x, fill = a
        o = inst.fresh(specs.shape, specs.dtype, 'uniq')
        n = c.z(x.shape[0])
        m = inst.fresh((), np.dtype('int64'), 'nuniq')()
        src = inst.fresh(x.shape, np.dtype('int64'), 'src')
        pos = inst.fresh(x.shape, np.dtype('int64'), 'pos')
        fv = scalar(c, fill, ())
        if kind(specs.dtype) == 'i':
            fv = c.wrap(fv, specs.dtype)
        c.fact(And(m >= 0, m <= n, Implies(n > 0, m >= 1)))

        def one(j):
            return [Implies(And(j >= 0, j < m), And(src(j) >= 0, src(j) < n, o(j) == x(src(j)), pos(src(j)) == j)),
                    Implies(And(j >= m, j < n), o(j) == fv)]

        def two(i, j):
            return Implies(And(i >= 0, i < j, j < m), o(i) < o(j))
        o.on_eval(one, 3)
        c.quants.append((2, two, 'unique sorted'))
        c.quants.append((1, lambda i: Implies(And(i >= 0, i < n), And(pos(i) >= 0, pos(i) < m, o(pos(i)) == x(i))), 'unique complete'))
        c.quants.append((1, one, 'unique'))
        inst.meta = NS(m=m, len=m, b=inst.b, src=src, pos=pos, x=x, out=o, fill=fv, two=two, one=one, n=n,
                       complete=lambda i: Implies(And(i >= 0, i < n), And(pos(i) >= 0, pos(i) < m, o(pos(i)) == x(i))))
        c.__dict__.setdefault('uniques', []).append(inst.meta)
        return o

    def post(self, *a):
        pass

    def check_requires(self, c, inst):
        pass


DRAWS.append('jnp.unique')


@register
class Linspace(External):
    """jnp.linspace: the evenly spaced grid start + i * (stop - start) / (num - 1) (num with endpoint=False), exact; start alone if num == 1"""
    name = 'jnp.linspace'
    sites = ((jnp, 'linspace'),)

    def call(self, orig, a, kw):
        b = inspect.signature(orig).bind(*a, **kw)
        b.apply_defaults()
        A = b.arguments
        num_, ax = A['num'], A['axis']
        if A['retstep'] or A['dtype'] is not None and not jnp.issubdtype(A['dtype'], jnp.floating):
            raise Unsupported('this form of linspace')
        start, stop = jnp.asarray(A['start']), jnp.asarray(A['stop'])
        dt = A['dtype'] or jax._src.dtypes.to_inexact_dtype(jnp.result_type(start, stop))
        start, stop = jnp.broadcast_arrays(start.astype(dt), stop.astype(dt))
        div = num_ - 1 if A['endpoint'] else num_
        i = jnp.arange(num_).astype(dt)
        step = jnp.where(i > 0, i / jnp.asarray(div + jnp.zeros((), jnp.int32)).astype(dt), 0)
        step = step.reshape(step.shape + (1,) * start.ndim)
        return jnp.moveaxis(start + step * (stop - start), 0, ax)


@register
class Lstsq(External):
    """jnp.linalg.lstsq: sum of squared residuals >= 0 and rank of the matrix; multiplying the right-hand side by a constant multiplies the first
    by its square (and leaves the rank)"""
    name = 'jnp.linalg.lstsq'
    sites = ((jnp.linalg, 'lstsq'),)

    def out_specs(self, a, b):
        if len(b.shape) != 1:
            raise Unsupported('lstsq with several right-hand sides')
        return Spec((a.shape[1],), a.dtype), Spec((1,), a.dtype), Spec((), 'int32'), Spec((a.shape[1],), a.dtype)

    def apply(self, c, inst, a, kw, specs):
        A, b = a
        out = tuple(inst.fresh(s.shape, s.dtype, nm) for s, nm in zip(specs, ('coef', 'chisq', 'rank', 'sv')))
        q, r = out[1](iv(0)), out[2]()
        c.fact(And(q >= 0, r >= 0, r <= c.z(A.shape[1]), r <= c.z(A.shape[0])))
        c.__dict__.setdefault('lstsq', []).append(NS(A=A, b=b, chisq=q, rank=r))
        return out

    def post(self, *a):
        pass

    def check_requires(self, c, inst):
        pass

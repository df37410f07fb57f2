"""Contract of bartz.jaxext.autobatch.

The function to be batched is an unknown lane-wise function: element e of lane j of an output is an uninterpreted function of e, of element s(e) of lane j of each
batched input and of element t(e) of each unbatched one, with s and t uninterpreted.  The size of the batched axis is N * q with N and q arbitrary (every size, as
each pair of a size and a divisor of it is of this form), or 0; the byte bound is a symbolic number."""
from dv.fw import *
from dv.fw import Contract, Item, register
from dv.theory import *
from dv.interp import bind_call
from dv.dims import DimEnv


class Lanes(Contract):
    """func(*args): args and outputs are pytrees of arrays with the given batch axes (None: unbatched)"""
    name = 'lane-wise function'

    def __init__(self, axes, outs):
        self.axes, self.outs = axes, outs

    def out_specs(self, *args):
        ls = tree_util.tree_leaves(args, is_leaf=lambda x: hasattr(x, 'shape'))
        n = [x.shape[a] for x, a in zip(ls, self.axes) if a is not None][0]
        return tree_util.tree_map(lambda o: Spec(tuple(n if k == 'n' else k for k in o.shape), o.dtype), self.outs, is_leaf=lambda x: isinstance(x, Out))

    @staticmethod
    def value(ls, axes, o, n, j, rest):
        """element `rest` of lane j of output number n"""
        xs = []
        for m, (x, a) in enumerate(zip(ls, axes)):
            nd = len(x.shape)
            pick = [z3.Function(f'pick!{n}_{m}_{d}', *([I] * len(rest)), I)(*rest) if rest else z3.Int(f'pick!{n}_{m}_{d}') for d in range(nd)]
            if a is not None:
                pick[a % nd] = j
            xs.append(x(*pick))
        srt = sort_of(np.dtype(o.dtype))
        xs = [z3.If(x, iv(1), iv(0)) if z3.is_bool(x) else x for x in xs]
        return z3.Function(f'lane!{n}', *([I] * len(rest)), *[x.sort() for x in xs], srt)(*rest, *xs)

    def apply(self, c, inst, a, kw, specs):
        ls = tree_util.tree_leaves(a, is_leaf=lambda x: isinstance(x, Arr))
        outs = tree_util.tree_leaves(self.outs, is_leaf=lambda x: isinstance(x, Out))
        sp, tree = tree_util.tree_flatten(specs, is_leaf=lambda x: isinstance(x, Spec))
        res = []
        for n, (o, s) in enumerate(zip(outs, sp)):
            def f(*idx, n=n, o=o):
                ax = o.shape.index('n')
                t = self.value(ls, self.axes, o, n, idx[ax], idx[:ax] + idx[ax + 1:])
                if kind(np.dtype(o.dtype)) == 'i':
                    lo, hi = DT_RANGE[np.dtype(o.dtype)]
                    c.fact(And(t >= lo, t <= hi))
                return t
            res.append(Arr(s.shape, s.dtype, f, f'lanes{n}'))
        inst.A = NS()
        return tree_util.tree_unflatten(tree, res)

    def post(self, *a):
        pass

    def check_requires(self, c, inst):
        pass


class Out:
    """an output: its shape, with 'n' on the batched axis"""
    def __init__(self, shape, dtype):
        self.shape, self.dtype = shape, dtype


@register
class Autobatch(Contract):
    name = 'jaxext.autobatch'

    def variants(self):
        return [(kind_, empty) for empty in (False, True) for kind_ in range(4)]

    def dims(self, E, v):
        d = NS(N=E.var('N', 1), q=E.var('q', 1), d=E.var('d', 1), e=E.var('e', 1), M=E.var('M', 1, 2 ** 40))
        d.n = 0 if v[1] else d.N * d.q
        E.divisor = (d.n, d.N)
        if not v[1]:
            E.assume.append(E.z(d.n) <= 2 ** 24)
        return d

    def setting(self, d, v):
        """inputs, input axes (as given), axes by leaf, outputs, output axes (as given), axes by leaf"""
        n = d.n
        return [
            ((Spec((n, d.d), 'float32'), Spec((n,), 'uint8'), Spec((d.e,), 'float32')), (0, 0, None), [0, 0, None], Out(('n',), 'float32'), 0, [0]),
            ((Spec((d.d, n), 'uint16'),), 1, [1], (Out(('n', d.e), 'float32'), Out((d.d, 'n'), 'int8')), (0, 1), [0, 1]),
            ((dict(a=Spec((n,), 'float32'), b=Spec((d.d, n, d.e), 'uint8')), Spec((d.d,), 'int32')), (dict(a=0, b=-2), None), [0, -2, None], Out((d.e, 'n', d.d), 'uint8'), -2, [-2]),
            ((Spec((d.d, d.e, n), 'float32'),), -1, [-1], Out((d.e, d.d, 'n'), 'float32'), 2, [2]),
        ][v[0]]

    def args(self, d, v):
        s = self.setting(d, v)
        self.now = s
        return dict(args=s[0], M=d.M)

    def harness(self, orig):
        _, in_axes, axes, outs, out_axes, _ = self.now
        ct = Lanes(axes, outs)

        def func(*a):
            return bind_call(ct, None, a, {})

        def run(args, M):
            try:
                return orig(func, M, in_axes, out_axes, True)(*args)
            except AssertionError as e:
                self.failed = e
                return ()
        self.failed = None
        return run

    def ensures(self, c, A, out):
        env = c.env
        _, _, axes, outs, _, oaxes = self.now
        outs = tree_util.tree_leaves(outs, is_leaf=lambda x: isinstance(x, Out))
        ls = tree_util.tree_leaves(A.args, is_leaf=lambda x: isinstance(x, Arr))
        if self.failed is not None:
            return [Item('assertions of the code hold', lambda: F)]
        res, nb = out
        res = tree_util.tree_leaves(res, is_leaf=lambda x: isinstance(x, Arr))
        n = [x.shape[a] for x, a in zip(ls, axes) if a is not None][0]
        zn, nb, M = c.z(n), nb() if isinstance(nb, Arr) else c.z(nb), c.z(A.M)
        per = 0                                            # bytes of one lane
        for x, a in zip(ls + [Spec(tuple(n if k == 'n' else k for k in o.shape), o.dtype) for o in outs], axes + oaxes):
            if a is not None:
                b = np.dtype(x.dtype).itemsize
                for m, k in enumerate(x.shape):
                    if m != a % len(x.shape):
                        b = b * k
                per = per + b
        per = c.z(per)
        its = [Item('number of batches divides the size', lambda: And(nb >= 1, nb <= If(zn >= 1, zn, iv(1)), zn % nb == 0)),
               Item('a batch stays within the bound, or is a single lane and a warning is given', lambda: Implies(zn >= 1, Or((zn / nb) * per <= M, And(nb == zn, bv(len(env.warned) >= 1))))),
               Item('no warning if the batches stay within the bound', lambda: Implies((zn / nb) * per <= M, bv(not env.warned)))]
        for m, (o, r, s) in enumerate(zip(outs, res, oaxes)):
            ax = s % len(o.shape)

            def same(*idx, m=m, o=o, r=r, ax=ax):
                return r(*idx) == Lanes.value(ls, axes, o, m, idx[ax], idx[:ax] + idx[ax + 1:])
            its.append(Item(f'output {m} equals that of the function on all lanes', same, dims=tuple(r.shape)))
            its.append(Item(f'output {m}: shape', lambda o=o, r=r: And(*[c.z(a) == c.z(n if b == 'n' else b) for a, b in zip(r.shape, o.shape)], bv(len(r.shape) == len(o.shape)))))
            its.append(Item(f'output {m}: type', lambda o=o, r=r: bv(np.dtype(r.dtype) == np.dtype(o.dtype))))
        its.append(Item('one result per output', lambda: bv(len(res) == len(outs))))
        return its

"""Contracts of bartz.debug: the tree checker and the depth diagnostics."""
from dv.fw import *
from dv.fw import Contract, Item, register
from dv.theory import *
from .grove_c import tree_dims
import bartz.debug as _dbg

NAMES = ['check_types', 'check_sizes', 'check_unused_node', 'check_leaf_values', 'check_stray_nodes']
Finite = z3.Function('finite', R, B)


def order():
    """bit positions as describe_error reports them"""
    names = [getattr(f, '__name__', '?') for f in getattr(_dbg, 'check_functions', [])]
    return {k: names.index(k) for k in NAMES} if sorted(names) == sorted(NAMES) else {k: i for i, k in enumerate(NAMES)}


def some(c, n, P, name):
    """a new truth value, true iff P holds of an index in [0, n); returns it and the index"""
    b, w = c.fresh(name, B), c.fresh('w', n=n)
    c.fact(Implies(b, And(w >= 0, w < n, P(w))))
    c.quants.append((1, lambda k: Implies(And(Not(b), k >= 0, k < n), Not(P(k))), name))
    c.add_pool(w)
    return b, w


class TreeCheck(Contract):
    """error bits of the tree(s) with the leading index b"""
    lead = ()

    def variants(self):
        return [('uint8', 'uint8', 'uint8'), ('uint16', 'uint16', 'uint16'), ('uint16', 'uint8', 'uint16'), ('uint8', 'uint16', 'uint8'), ('int8', 'uint8', 'uint8'), ('uint32', 'int32', 'uint32')]

    def dims(self, E, v):
        return NS(L=E.var('L', 1), V=E.var('V', 1), S=E.var('S', 1), p=E.var('p', 1), T=E.var('T', 1), K=E.var('K', 1))

    def trees(self, d, v):
        le = tuple(getattr(d, k) for k in self.lead)
        return dict(leaf_trees=Spec(le + (d.L,), 'float32'), var_trees=Spec(le + (d.V,), v[0]), split_trees=Spec(le + (d.S,), v[1])), Spec((d.p,), v[2])

    def parts(self, A):
        raise NotImplementedError

    def requires(self, c, A):
        leaf = self.parts(A)[0]
        t = leaf(*[c.fresh('probe', n=s) for s in leaf.shape])
        c.maybe_nonfinite = {t.decl().name()}
        c.fin_pred = Finite
        return []

    def ensures(self, c, A, out):
        leaf, var, split, ms = self.parts(A)
        nb = len(self.lead)
        L, V, S, p = [c.z(x) for x in (leaf.shape[nb], var.shape[nb], split.shape[nb], ms.shape[0])]
        o = order()
        vr = DT_RANGE[np.dtype(var.dtype)]
        # smallest unsigned type that holds p - 1
        small = And(bv(np.dtype(var.dtype).kind == 'u'), p - 1 <= vr[1], bv(np.dtype(var.dtype).itemsize == 1) if np.dtype(var.dtype).itemsize == 1 else p - 1 > (1 << (4 * np.dtype(var.dtype).itemsize)) - 1)
        memo = {}

        def bad(*b):
            k = tuple(i.get_id() for i in b)
            if k not in memo:
                stray, ws = some(c, S, lambda i: And(i >= 2, split(*b, i) != 0, split(*b, fdiv(i, iv(2))) == 0), 'stray')
                inf, wi = some(c, L, lambda i: Not(Finite(leaf(*b, i))), 'nonfinite')
                memo[k] = b, dict(check_types=Not(And(small, bv(np.dtype(split.dtype) == np.dtype(ms.dtype)))),
                                  check_sizes=Not(And(L == 2 * V, L == 2 * S)),
                                  check_unused_node=Not(And(var(*b, iv(0)) == 0, split(*b, iv(0)) == 0)),
                                  check_leaf_values=inf, check_stray_nodes=stray), [ws, wi, fdiv(ws, iv(2))]
            return memo[k][1:]

        def bits(*b):
            v, pool = bad(*b)
            c.add_pool(*pool)
            z = iv(0)
            for k in NAMES:
                z = z + If(v[k], iv(1 << o[k]), iv(0))
            return out(*b) == z

        def ok(*b):
            v, pool = bad(*b)
            c.add_pool(*pool)
            return Iff(out(*b) == 0, Not(Or(*v.values())))
        lead = tuple(leaf.shape[:nb])
        return [Item('exactly the bits of the violated conditions are set', bits, dims=lead), Item('no error iff no condition is violated', ok, dims=lead),
                Item('shape', lambda: bv(tuple(map(str, out.shape)) == tuple(map(str, lead))))]


@register
class CheckTree(TreeCheck):
    name = 'debug.check_tree'

    def args(self, d, v):
        t, ms = self.trees(d, v)
        return dict(leaf_tree=t['leaf_trees'], var_tree=t['var_trees'], split_tree=t['split_trees'], max_split=ms)

    def parts(self, A):
        return A.leaf_tree, A.var_tree, A.split_tree, A.max_split


@register
class CheckForest(TreeCheck):
    name = 'debug.check_forest'
    lead = ('T',)

    def args(self, d, v):
        t, ms = self.trees(d, v)
        return dict(leaf_tree=t['leaf_trees'], var_tree=t['var_trees'], split_tree=t['split_trees'], max_split=ms)

    parts = CheckTree.parts


@register
class CheckTrace(TreeCheck):
    name = 'debug.check_trace'
    lead = ('K', 'T')

    def args(self, d, v):
        t, ms = self.trees(d, v)
        return dict(trace=dict(t, sigma2=Spec((d.K,), 'float32')), state=dict(max_split=ms))

    def parts(self, A):
        return A.trace['leaf_trees'], A.trace['var_trees'], A.trace['split_trees'], A.state['max_split']


def actual(split, H):
    """leaf mask of a tree of H slots, bottom level included"""
    return lambda m: And(m >= 1, m < 2 * H, Or(m >= H, split(m) == 0), Or(m == 1, split(fdiv(m, iv(2))) != 0))


@register
class ActualDepth(Contract):
    name = 'debug.tree_actual_depth'

    def variants(self):
        return ['uint8', 'uint16', 'uint32']

    def out_specs(self, split_tree):
        return Spec((), jnp.uint8)

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H)

    def args(self, d, v):
        return dict(split_tree=Spec((d.H,), v))

    def requires(self, c, A):
        return [Item('unused slot is empty', lambda: A.split_tree(iv(0)) == 0)]

    def ensures(self, c, A, out):
        H = c.z(A.split_tree.shape[0])
        D = c.z(c.env.pow2[0][0])
        leaf = actual(A.split_tree, H)
        d = out()
        return depth_items(c, A.split_tree, leaf, lambda: out(), H, D, hasattr(A, 'assuming')) + [Item('type', lambda: bv(str(out.dtype) == 'uint8' and len(out.shape) == 0))]

    def post(self, c, inst, a, kw, out):
        Contract.post(self, c, inst, a, kw, out)


def depth_items(c, split, leaf, out, H, D, assuming):
    if assuming:
        w = c.fresh('w', n=2 * H)
        c.add_pool(w)
        d = out()
        return [Item('some leaf is at that depth', lambda: And(leaf(w), P2(d) <= w, w < 2 * P2(d), d >= 0, d <= D)),
                Item('no leaf is deeper', lambda m: Implies(leaf(m), m < 2 * P2(d)), dims=(2 * H,))]
    d = out()
    if num(D) is not None:
        for k in range(num(D) + 2):
            c.fact(P2(iv(k)) == 2 ** k)
    R_ = Routes(c, 0, lambda: (lambda v: iv(0), lambda m: iv(0), split, H))

    def none_deeper(m):
        for cr in c.calls:
            if cr['contract'].name == 'grove.tree_depths':
                g = cr['inst'](()).out(m)
                p2(c, g, d), p2(c, d, g), p2(c, d, D), p2(c, g, D)
        return Implies(leaf(m), And(m < 2 * P2(d)))

    def attained():
        t = R_()
        R_.R().up(t)
        c.add_pool(t, fdiv(t, iv(2)))
        if num(H) is not None:
            c.add_pool(*[iv(k) for k in range(2 * num(H))])
        b = c.fresh('deepest', B)
        c.quants.append((1, lambda m: Implies(And(Not(b), leaf(m)), Not(And(P2(d) <= m, m < 2 * P2(d)))), 'deepest'))
        return b

    def bounds():
        for cr in c.calls:
            if cr['contract'].name == 'grove.tree_depths':
                for i in list(c.pool) if hasattr(c, 'pool') else []:
                    g = cr['inst'](()).out(i)
                    p2(c, g, D), p2(c, D, g)
        return And(d >= 0, d <= D)
    return [Item('no leaf is deeper', none_deeper, dims=(2 * H,)), Item('some leaf is at that depth', attained), Item('bounds', bounds)]


@register
class DepthDistr(Contract):
    """out[d] = number of trees whose deepest leaf is at depth d.  The depth of tree t is a function DT(t), defined by: no leaf of t
    is deeper, and some leaf is at that depth."""
    name = 'debug.forest_depth_distr'

    def variants(self):
        return ['uint8', 'uint16']

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H, T=E.var('T', 1, 2 ** 20))

    def args(self, d, v):
        return dict(split_trees=Spec((d.T, d.H), v))

    def requires(self, c, A):
        return [Item('unused slots are empty', lambda t, i: Implies(i == 0, A.split_trees(t, i) == 0), trig=A.split_trees)]

    def ensures(self, c, A, out):
        S = A.split_trees
        T_, H, D = c.z(S.shape[0]), c.z(S.shape[1]), c.z(c.env.pow2[0][0])
        DT, W = c.func('DT', I, I), c.func('WT', I, I)
        leaf = lambda t: actual(lambda m: S(t, m), H)

        def define(t):
            d, w = DT(t), W(t)
            p2(c, d, D)
            return z3.Implies(And(t >= 0, t < T_), And(leaf(t)(w), P2(d) <= w, w < 2 * P2(d), d >= 0, d <= D, w >= 1, w < 2 * H))

        def f(d):
            want = c.sum(T_, lambda t: If(DT(t) == d, iv(1), iv(0)), I)
            got = out(d)
            r = c.rec_or_none(want)
            insts = [cr['inst'] for cr in c.calls if cr['contract'].name == 'debug.tree_actual_depth']
            for q in list(c.sum_order):
                if not q.bound and q is not r and r is not None and q.sort == I:
                    for w in PV.congr(c, q, r, T_):
                        c.add_pool(w, W(w))
                        c.fact(define(w))
                        c.quants.append((1, lambda m, w=w: Implies(leaf(w)(m), m < 2 * P2(DT(w))), 'no leaf is deeper'))
                        for inst in insts:
                            g = inst((w,)).outs[0]()
                            p2(c, g, DT(w)), p2(c, DT(w), g), p2(c, g, D)
            return got == want
        return [Item('number of trees at each depth', f, dims=(D + 1,)), Item('shape', lambda: c.z(out.shape[0]) == D + 1)]

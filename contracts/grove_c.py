"""Contracts of bartz.grove."""
from dv.fw import *
from dv.fw import Contract, Item, register, houdini, install_invariants
from dv.theory import *

DTS = [('uint8', 'uint8', 'uint8'), ('uint16', 'uint8', 'uint16'), ('uint32', 'uint16', 'uint32')]
TREE = ['grove.traverse_tree']


def tree_dims(E, minD=0, maxD=23):
    import os
    d = os.environ.get('DV_DEPTH')
    if d is not None:
        D, H = int(d), 2 ** int(d)
        E.pow2.append((D, H))
        return D, H
    D = E.var('D', minD, maxD)
    H = E.var('H', 2 ** minD, 2 ** maxD)
    E.pow2.append((D, H))
    return D, H


def scalars(L, k):
    """carry slots of a loop that are scalars of a kind"""
    return [s for s, av in enumerate(L.avals) if len(av.shape) == 0 and kind(av.dtype) == k]


def vectors(L, k):
    return [s for s, av in enumerate(L.avals) if len(av.shape) == 1 and kind(av.dtype) == k]


def unfold_up(c, R, m, H):
    """concrete depth: unfold the definition along a node's ancestors"""
    if num(H) is not None:
        for _ in range(num(H).bit_length() + 1):
            R.up(m)
            m = fdiv(m, iv(2))


@register
class TraverseTree(Contract):
    name = 'grove.traverse_tree'

    def variants(self):
        return DTS

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H, p=E.var('p', 1))

    def args(self, d, v):
        return dict(x=Spec((d.p,), v[0]), var_tree=Spec((d.H,), v[1]), split_tree=Spec((d.H,), v[2]))

    def requires(self, c, A):
        p = c.z(A.x.shape[0])
        return [Item('axes of decision nodes are valid', lambda i: Implies(A.split_tree(i) != 0, A.var_tree(i) < p), trig=A.var_tree)]

    def rt(self, c, A):
        if not hasattr(A, '_rt'):
            A._rt = Routes(c, 0, lambda: (A.x, A.var_tree, A.split_tree, c.z(A.split_tree.shape[0])))
        return A._rt

    def loop(self, c, L, A):
        R = self.rt(c, A).R()
        D = c.z(c.env.pow2[0][0])
        H = c.z(A.split_tree.shape[0])
        k0 = L.k0
        n = L.nz()
        for k in (k0, Add(k0, iv(1)), n):
            p2(c, k, D)
        ints, bools = scalars(L, 'i'), scalars(L, 'b')
        cands = []
        for s in ints:
            v = lambda cr, s=s: cr[s]()
            R.down(v(L.carry(k0)))
            cands += [lambda cr, k, v=v: Item('lo', lambda: v(cr) >= 1),
                      lambda cr, k, v=v: Item('hi', lambda: v(cr) < 2 * P2(k)),
                      lambda cr, k, v=v: Item('reach', lambda: R(v(cr))),
                      lambda cr, k, v=v: Item('size', lambda: v(cr) < 2 * H)]
            R.down(iv(1))
            for b in bools:
                cands += [lambda cr, k, v=v, b=b: Item('leaf', lambda: Implies(cr[b](), And(v(cr) < H, A.split_tree(v(cr)) == 0))),
                          lambda cr, k, v=v, b=b: Item('deep', lambda: Or(cr[b](), v(cr) >= P2(k))),
                          lambda cr, k, v=v, b=b: Item('leaf', lambda: Or(cr[b](), And(v(cr) < H, A.split_tree(v(cr)) == 0))),
                          lambda cr, k, v=v, b=b: Item('deep', lambda: Implies(cr[b](), v(cr) >= P2(k)))]
            cands += [lambda cr, k, v=v: Item('leafordeep', lambda: Or(And(v(cr) < H, A.split_tree(v(cr)) == 0), v(cr) >= P2(k)))]
        install_invariants(c, L, houdini(c, L, cands))

    def ensures(self, c, A, out):
        R = self.rt(c, A).R()
        H = c.z(A.split_tree.shape[0])
        R.down(iv(1))

        def leaf():
            r = out()
            return And(r >= 1, r < 2 * H, Or(r >= H, A.split_tree(r) == 0))

        def follows():
            unfold_up(c, R, out(), H)
            return R(out())
        return [Item('returned node is an actual leaf', leaf), Item('returned node is where the rules lead', follows)]

    def post(self, c, inst, a, kw, out):
        super().post(c, inst, a, kw, out)
        note_route(c, self.rt(c, inst.A).R(), out())


@register
class TraverseForest(Contract):
    name = 'grove.traverse_forest'

    def variants(self):
        return DTS

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H, p=E.var('p', 1), n=E.var('n', 1), T=E.var('T', 1, 2 ** 20))

    def args(self, d, v):
        return dict(X=Spec((d.p, d.n), v[0]), var_trees=Spec((d.T, d.H), v[1]), split_trees=Spec((d.T, d.H), v[2]))

    def requires(self, c, A):
        p = c.z(A.X.shape[0])
        return [Item('axes of decision nodes are valid', lambda t, i: Implies(A.split_trees(t, i) != 0, A.var_trees(t, i) < p), trig=A.var_trees)]

    def rt(self, c, A):
        if not hasattr(A, '_rt'):
            H = c.z(A.split_trees.shape[1])
            A._rt = Routes(c, 2, lambda t, i: (lambda v: A.X(v, i), lambda m: A.var_trees(t, m), lambda m: A.split_trees(t, m), H))
        return A._rt

    def ensures(self, c, A, out):
        rt = self.rt(c, A)
        T_, n = A.var_trees.shape[0], A.X.shape[1]
        return [Item('every tree and point are routed as by traverse_tree', lambda t, i: [out(t, i) == rt(t, i)], trig=out),
                Item('shape', lambda: bv(tuple(map(str, out.shape)) == (str(T_), str(n))))]

    def post(self, c, inst, a, kw, out):
        rt = self.rt(c, inst.A)
        out.on_eval(lambda t, i: Implies(And(inst.guard, c.in_range((t, i), out.shape)), out(t, i) == rt(t, i)), 3)


@register
class EvaluateForest(Contract):
    name = 'grove.evaluate_forest'

    def variants(self):
        return [d + (s,) for d in DTS[:2] for s in (True, False)]

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H, p=E.var('p', 1), n=E.var('n', 1), T=E.var('T', 1, 2 ** 20))

    def args(self, d, v):
        return dict(X=Spec((d.p, d.n), v[0]), leaf_trees=Spec((d.T, 2 * d.H), 'float32'), var_trees=Spec((d.T, d.H), v[1]),
                    split_trees=Spec((d.T, d.H), v[2]), sum_trees=v[3])

    requires = TraverseForest.requires
    rt = TraverseForest.rt

    def ensures(self, c, A, out):
        rt = self.rt(c, A)
        T_, n = A.var_trees.shape[0], A.X.shape[1]
        if getattr(A, 'sum_trees', True):
            return [Item('prediction is the sum of the reached leaf values',
                         lambda i: out(i) == c.sum(T_, lambda t: A.leaf_trees(t, rt(t, i)), R), trig=out),
                    Item('shape', lambda: bv(tuple(map(str, out.shape)) == (str(n),)))]
        return [Item('tree-wise values are the reached leaf values', lambda t, i: out(t, i) == A.leaf_trees(t, rt(t, i)), trig=out, maxdepth=3),
                Item('shape', lambda: bv(tuple(map(str, out.shape)) == (str(T_), str(n))))]


@register
class IsActualLeaf(Contract):
    name = 'grove.is_actual_leaf'

    def variants(self):
        return [(s, b) for s in ('uint8', 'uint16', 'uint32') for b in (False, True)]

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H)

    def args(self, d, v):
        return dict(split_tree=Spec((d.H,), v[0]), add_bottom_level=v[1])

    def requires(self, c, A):
        return [Item('unused slot is empty', lambda: A.split_tree(iv(0)) == 0)]

    def ensures(self, c, A, out):
        H = c.z(A.split_tree.shape[0])
        bottom = getattr(A, 'add_bottom_level', False)
        sp = lambda m: If(m < H, A.split_tree(m), iv(0))
        n = A.split_tree.shape[0] * (2 if bottom else 1)
        return [Item('leaf mask', lambda m: Iff(out(m), And(m >= 1, sp(m) == 0, Or(m == 1, And(m / 2 < H, A.split_tree(m / 2) != 0)))), trig=out, maxdepth=3),
                Item('shape', lambda: bv(str(out.shape[0]) == str(n)))]


@register
class IsLeavesParent(Contract):
    name = 'grove.is_leaves_parent'

    def variants(self):
        return ['uint8', 'uint16', 'uint32']

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H)

    def args(self, d, v):
        return dict(split_tree=Spec((d.H,), v))

    def ensures(self, c, A, out):
        H = c.z(A.split_tree.shape[0])

        def sp(m):
            s = A.split_tree(m)
            return If(m < H, s, iv(0))
        return [Item('leaf-parent mask', lambda m: Implies(m >= 1, Iff(out(m), And(A.split_tree(m) != 0, sp(2 * m) == 0, sp(2 * m + 1) == 0))), trig=out, maxdepth=3),
                Item('nothing at the unused slot', lambda: Implies(A.split_tree(iv(0)) == 0, Not(out(iv(0))))),
                Item('shape', lambda: bv(str(out.shape[0]) == str(A.split_tree.shape[0])))]


@register
class TreeDepths(Contract):
    """pure Python table: for lengths 2**d, entry i is the position of the most significant bit of i"""
    name = 'grove.tree_depths'
    bounded = 'all lengths 2**0 .. 2**14, by execution'

    def stub(self, orig):
        def out_specs(L):
            return Spec((L,), jnp.uint8)
        self.out_specs = out_specs

        @functools.wraps(orig)
        def f(tree_length):
            if not is_sym(tree_length):
                return orig(tree_length)
            return bind_call(self, orig, (tree_length,), {})
        return f

    def apply(self, c, inst, a, kw, specs):
        inst.A = NS(L=a[0])
        return inst.fresh(specs.shape, specs.dtype, 'depths')

    def ensures(self, c, A, out):
        L = c.z(A.L)

        def f(i):
            d = out(i)
            p2(c, d)
            return [z3.Implies(i == 0, d == 0), z3.Implies(i >= 1, And(d >= 0, P2(d) <= i, i < 2 * P2(d)))]
        return [Item('depth is the most significant bit', f, trig=out, maxdepth=4)]


@register
class MakeTree(Contract):
    name = 'grove.make_tree'

    def variants(self):
        return ['float32', 'uint8', 'uint16']

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H)

    def args(self, d, v):
        return dict(depth=d.D, dtype=jnp.dtype(v))

    def ensures(self, c, A, out):
        D, H = c.env.pow2[0]
        return [Item('a new tree of depth d has 2**d entries', lambda: bv(str(out.shape) == str((H,)))),
                Item('a new tree is all zero', lambda i: out(i) == mk(0, out(i)), trig=out),
                Item('dtype', lambda: bv(out.dtype == A.dtype))]


@register
class TreeDepth(Contract):
    """integer logarithm of the array length; math.log2 is exact on powers of two (assumed)"""
    name = 'grove.tree_depth'

    def variants(self):
        return [1, 2]

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H, T=E.var('T', 1))

    def args(self, d, v):
        return dict(tree=Spec((d.H,) if v == 1 else (d.T, d.H), 'uint8'))

    def ensures(self, c, A, out):
        D, H = c.env.pow2[0]
        return [Item('depth of a tree with 2**d entries is d', lambda: c.z(out) == c.z(D))]

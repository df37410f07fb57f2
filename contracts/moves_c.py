"""Contracts of the grow and prune proposals of bartz.mcmcstep."""
from dv.fw import *
from dv.fw import Contract, Item, register, houdini, install_invariants
from dv.theory import *
from dv import ext, prove as PV
from .grove_c import tree_dims, unfold_up
from .sampler_c import (TreeArgs, SV, PDT, ranges, use_range, val, Shr, shr_facts, AncS, anc_dist, the_draw, kspec, inst1, BIG)


def depthD(c):
    return c.z(c.env.pow2[0][0])


def wf_tree(c, var, split, ms, p, H):
    """the tree is well formed: list of (label, fn(i)) over node indices"""
    def adm(i):
        u = var(i)
        Lo, Hi = ranges(c, var, split, ms, p, u)
        c.fact(Lo(iv(1)) == 0)
        return Implies(And(i >= 1, split(i) != 0), And(u >= 0, u < p, Lo(i) < split(i), split(i) < Hi(i)))
    return [('nothing stored in the unused slot', lambda i: Implies(i == 0, split(i) == 0)),
            ('rules are admissible at their node', adm),
            ('no rule below a node without a rule', lambda i: Implies(And(i >= 2, split(i) != 0), split(i / 2) != 0))]


def range_open(c, var, split, ms, p, H, u, m):
    """lemma (heap induction): at a node whose parent has a rule, the open interval of predictor u is not inverted"""
    Lo, Hi = ranges(c, var, split, ms, p, u)
    ok = And(u >= 0, u < p)

    def P(w):
        return Implies(And(ok, w >= 1, Or(w == 1, And(w / 2 >= 1, w / 2 < H, split(w / 2) != 0))), And(Lo(w) < Hi(w), Lo(w) >= 0, Hi(w) <= Hi(iv(1))))

    def extra(w):
        for x in (w, iv(1)):
            use_range(c, Lo, Hi, x)
        split(w), var(w), split(w / 2)
        ranges(c, var, split, ms, p, var(w))
        # the rule at w is admissible for its own predictor; when that is u the two intervals are the same function
        LoV, HiV = ranges(c, var, split, ms, p, var(w))
        c.fact(Implies(var(w) == u, And(LoV(w) == Lo(w), HiV(w) == Hi(w))))
        ms(u)
    key = ('range_open', id(var), id(split), id(ms), u.get_id())
    heap_direct(c, key, 'the open range at a node below rules is not inverted', P, H, extra)(m)


def closed(c, split, H, m):
    """lemma: a tree without a rule at the root has no rule at all"""
    def extra(w):
        for x in (w, w / 2, 2 * w, 2 * w + 1):
            split(x)
    heap_direct(c, ('closed', id(split)), 'a tree without a rule at the root has no rules', lambda w: Implies(And(w < H, split(w) != 0), split(iv(1)) != 0), H, extra)(m)


class UsedUp:
    """Used(u): predictor u is the axis of an ancestor of the node and its open range there is empty"""

    def __init__(self, c, var, split, ms, p, node):
        self.c, self.a, self.p, self.node = c, (var, split, ms), p, node
        fam = c.__dict__.setdefault('_used', {})
        key = (id(var), id(split), id(ms))
        if key not in fam:
            fam[key] = (c.func('UsedUp', I, I, B), c.func('usedby', I, I, I), self.a)
        self.U, self.W, _ = fam[key]
        self.seen = set()

    def empty(self, u):
        Lo, Hi = ranges(self.c, *self.a, self.p, u)
        return Lo(self.node) + 1 == Hi(self.node)

    def intro(self, w, u):
        self.c.fact(Implies(And(Anc(w, self.node), self.a[0](w) == u, self.empty(u)), self.U(u, self.node)))
        return self.U(u, self.node)

    def __call__(self, u):
        u = iv(u)
        t = self.U(u, self.node)
        if u.get_id() not in self.seen and self.c.level == 0:
            self.seen.add(u.get_id())
            self.c.keep.append(u)
            w = self.W(u, self.node)
            self.c.fact(Implies(t, And(Anc(w, self.node), self.a[0](w) == u, self.empty(u), w >= 1, 2 * w <= self.node)))
        return t

    def witness(self, u):
        self(u)
        return self.W(u, self.node)


class NodeArgs(TreeArgs):
    NODE = 'leaf_index'

    def args(self, d, v):
        return dict(**self.tree(d, v), **{self.NODE: Spec((), 'int32')})

    def requires(self, c, A):
        return self.small(A)

    def setup(self, c, A):
        if not hasattr(A, '_s'):
            p = c.z(A.max_split.shape[0])
            self.base(c)
            node = val(c, getattr(A, self.NODE))
            H = c.z(A.split_tree.shape[0])
            A._s = NS(p=p, node=node, H=H, ok=And(node >= 1, node < H), D=depthD(c))
            A._s.used = UsedUp(c, A.var_tree, A.split_tree, A.max_split, p, node)
        return A._s


@register
class FullyUsed(NodeArgs):
    name = 'mcmcstep.fully_used_variables'

    def ensures(self, c, A, out):
        s = self.setup(c, A)
        n = c.z(out.shape[0])
        if hasattr(A, 'assuming'):
            slot = c.func('slot', I, I)

            def complete(u):
                return Implies(And(s.used(u), s.ok), And(slot(u) >= 0, slot(u) < n, out(slot(u)) == u))
            A.on_used = complete
            return [Item('values', lambda j: out(j) >= 0, trig=out, maxdepth=3),
                    Item('listed predictors are used up', lambda j: Implies(And(s.ok, out(j) < s.p), s.used(out(j))), trig=out, maxdepth=3),
                    Item('used up predictors are listed', complete, dims=(s.p,))]

        def listed(j):
            u = out(j)
            for k in (Sub(Sub(s.D, iv(1)), j), Add(j, iv(1))):
                w = shr_facts(c, s.node, k, s.D)
                shr_facts(c, s.node, Sub(k, iv(1)), s.D)
                A.var_tree(w)
                s.used.intro(w, u)
            return Implies(And(s.ok, u < s.p), s.used.U(u, s.node))

        def complete(u):
            w = s.used.witness(u)
            k = anc_dist(c, w, s.node, s.D)
            cs = []
            for j in (Sub(Sub(s.D, iv(1)), k), Sub(k, iv(1))):
                cs.append(And(j >= 0, j < n, out(j) == u))
            shr_facts(c, s.node, s.D, s.D)
            return Implies(And(s.ok, s.used(u)), Or(*cs))
        return [Item('values', lambda j: out(j) >= 0, trig=out, maxdepth=3),
                Item('listed predictors are used up', listed, dims=(out.shape[0],)),
                Item('used up predictors are listed', complete, dims=(s.p,))]


@register
class ChooseVariable(NodeArgs):
    name = 'mcmcstep.choose_variable'

    def args(self, d, v):
        return dict(**super().args(d, v), key=kspec())

    def ensures(self, c, A, out):
        s = self.setup(c, A)
        r = out()
        return [Item('a predictor or the sentinel', lambda: And(r >= 0, r <= s.p)),
                Item('a predictor with nothing left to split is never chosen', lambda: Implies(And(s.ok, r < s.p), Not(s.used(r))), pool=[r]),
                Item('the sentinel is returned only if every predictor is used up', lambda u: Implies(And(s.ok, r == s.p), s.used(u)), dims=(s.p,))]


@register
class ChooseSplit(NodeArgs):
    name = 'mcmcstep.choose_split'

    def args(self, d, v):
        return dict(**super().args(d, v), key=kspec())

    def ensures(self, c, A, out):
        s = self.setup(c, A)
        u = A.var_tree(s.node)
        Lo, Hi = ranges(c, A.var_tree, A.split_tree, A.max_split, s.p, u)
        r = out()
        l, h = Lo(s.node) + 1, Hi(s.node)
        items = [Item('the boundary lies in the open range of the predictor', lambda: Implies(And(s.ok, l < h), And(r >= l, r < h))),
                 Item('with an empty range the boundary is its lower end', lambda: Implies(And(s.ok, l >= h), r == l))]
        if not hasattr(A, 'assuming'):
            _, lo, hi = the_draw(c, 'randint')
            items.append(Item('the boundary is drawn uniformly over the open range', lambda: Implies(And(s.ok, l < h), And(lo == l, hi == h)), export=False))
        return items


class Eligible(Contract):
    """masks over the nodes above the bottom level"""

    def growable(self, c, split, aff, H):
        leaf = lambda m: And(m >= 1, split(m) == 0, Or(m == 1, split(m / 2) != 0))
        return (lambda m: And(leaf(m), aff(m))) if aff is not None else leaf

    def prunable(self, c, split, H):
        sp = lambda m: If(m < H, split(m), iv(0))
        return lambda m: And(m >= 1, split(m) != 0, sp(2 * m) == 0, sp(2 * m + 1) == 0)

    def variants(self):
        return [(s, a) for s in ('uint8', 'uint16', 'uint32') for a in (True, False)]

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H)

    def args(self, d, v):
        return dict(split_tree=Spec((d.H,), v[0]), affluence_tree=Spec((d.H,), 'bool') if v[1] else None)

    def requires(self, c, A):
        return [Item('unused slot is empty', lambda: A.split_tree(iv(0)) == 0)]


@register
class GrowableLeaves(Eligible):
    name = 'mcmcstep.growable_leaves'

    def ensures(self, c, A, out):
        H = c.z(A.split_tree.shape[0])
        g = self.growable(c, A.split_tree, A.affluence_tree, H)
        return [Item('a node is growable iff it is an actual leaf flagged as having enough points', lambda m: Iff(out(m), g(m)), trig=out, maxdepth=3)]


def some_positive(c, sums, n, H):
    """if the first sum is positive some summand is; relate the other sums to that element"""
    recs = [c.rec_or_none(x) for x in sums]
    if recs[0] is None:
        return None
    v = c.fresh('sw')
    r = recs[0]
    c.fact(Or(r.ps(n) <= 0, And(v >= 0, v < n, Gt(r.f(v), mk(0, r.ps(n))))))
    for q in recs[1:]:
        if q is not None:
            w = PV.elem(c, q, n, v)
            if w is not None:
                q.f(w)
    return v


def upd(split, node, v):
    return lambda m: If(m == node, iv(v), split(m))


@register
class ChooseLeaf(Eligible):
    name = 'mcmcstep.choose_leaf'

    def args(self, d, v):
        return dict(**super().args(d, v), p_propose_grow=Spec((d.H,), 'float32'), key=kspec())

    def requires(self, c, A):
        return Eligible.requires(self, c, A) + [Item('weights of nodes are positive', lambda m: And(A.p_propose_grow(m) >= 0, Implies(m >= 1, A.p_propose_grow(m) > 0)), trig=A.p_propose_grow)]

    def spec(self, c, A):
        if not hasattr(A, '_s'):
            H = c.z(A.split_tree.shape[0])
            g = self.growable(c, A.split_tree, A.affluence_tree, H)
            ng = c.sum(H, lambda m: If(g(m), iv(1), iv(0)), I)
            w = c.sum(H, lambda m: If(g(m), A.p_propose_grow(m), mk(0, A.p_propose_grow(m))), R)
            A._s = NS(H=H, g=g, ng=ng, w=w)
        return A._s

    def ensures(self, c, A, out):
        s = self.spec(c, A)
        H = s.H
        node, ng, prob, npr = [o() for o in out]
        s_new = upd(A.split_tree, node, 1)
        pr = self.prunable(c, s_new, H)
        np_ = c.sum(H, lambda m: If(pr(m), iv(1), iv(0)), I)
        some_positive(c, [s.ng, s.w], H, H)
        return [Item('number of growable leaves', lambda: And(ng == s.ng, ng >= 0)),
                Item('a growable leaf is chosen if there is one', lambda: Implies(ng > 0, And(node >= 1, node < H, s.g(node))), pool=[node]),
                Item('otherwise the sentinel is returned', lambda: Implies(ng == 0, node == 2 * H)),
                Item('probability of the choice', lambda: Implies(ng > 0, And(s.w > 0, prob == A.p_propose_grow(node) / s.w)), pool=[node]),
                Item('number of prunable nodes after the growth', lambda: Implies(ng > 0, npr == np_)),
                ]


@register
class ChooseLeafParent(Eligible):
    name = 'mcmcstep.choose_leaf_parent'

    def args(self, d, v):
        return dict(**super().args(d, v), p_propose_grow=Spec((d.H,), 'float32'), key=kspec())

    requires = ChooseLeaf.requires

    def spec(self, c, A, node):
        H = c.z(A.split_tree.shape[0])
        pr = self.prunable(c, A.split_tree, H)
        npr = c.sum(H, lambda m: If(pr(m), iv(1), iv(0)), I)
        s_old = upd(A.split_tree, node, 0)
        aff = A.affluence_tree
        g = self.growable(c, s_old, None if aff is None else (lambda m: If(m == node, T, aff(m))), H)
        w = c.sum(H, lambda m: If(g(m), A.p_propose_grow(m), mk(0, A.p_propose_grow(m))), R)
        return NS(H=H, pr=pr, npr=npr, w=w, g=g)

    def ensures(self, c, A, out):
        node, npr, prob = [o() for o in out]
        s = self.spec(c, A, node)
        H = s.H
        items = [Item('number of prunable nodes', lambda: And(npr == s.npr, npr >= 0)),
                 Item('a prunable node is chosen if there is one', lambda: Implies(npr > 0, And(node >= 1, node < H, s.pr(node))), pool=[node]),
                 Item('otherwise the sentinel is returned', lambda: Implies(npr == 0, node == 2 * H)),
                 Item('probability of growing the node in the pruned tree', lambda: Implies(npr > 0, prob == A.p_propose_grow(node) / s.w), pool=[node])]
        if not hasattr(A, 'assuming'):
            pass
        return items


Dep = z3.Function('depth', I, I)


def dep(c, i):
    """depth of heap node i >= 1: the position of its most significant bit"""
    i = iv(i)
    d = Dep(i)
    D = depthD(c)
    k = ('dep', i.get_id())
    if k not in c.extra_done:
        c.extra_done.add(k)
        c.keep.append(i)
        p2(c, d, D)
        c.fact(Implies(i >= 1, And(d >= 0, P2(d) <= i, i < 2 * P2(d))))
        p2(c, iv(0), D)
    return d


def to_real(t):
    from dv.prims import to_real as tr
    return tr(t) if z3.is_int(t) else t


def half():
    return z3.RealVal('1/2')


def one():
    return z3.RealVal(1)


def prior_ratio(c, pn, node):
    """P(tree with node split) / P(tree with node a leaf), up to the decision rule's probability"""
    d = dep(c, node)
    a, b = pn(d), one() - pn(d + 1)
    return b * b * a / (one() - a)


def partial(c, pn, node, prob, npr, define=False):
    """prior ratio / (probability of proposing to grow `node`) * (1 / number of nodes the reverse move could prune)"""
    fam = c.__dict__.setdefault('_ratiofn', {})
    if id(pn) not in fam:
        fam[id(pn)] = (c.func('MoveRatio', I, R, I, R), pn)
    t = fam[id(pn)][0](node, prob, npr)
    if define:
        pg = If(node != 1, half(), one())
        c.fact(t == prior_ratio(c, pn, node) / (pg * prob * to_real(npr)))
    return t


def pn_ok(c, A, D):
    return [Item('depth probabilities', lambda d: And(A.p_nonterminal(d) >= 0, A.p_nonterminal(d) < 1), trig=A.p_nonterminal)]


@register
class PartialRatio(Contract):
    name = 'mcmcstep.compute_partial_ratio'

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H)

    def args(self, d, v):
        return dict(prob_choose=Spec((), 'float32'), num_prunable=Spec((), 'int32'), p_nonterminal=Spec((d.D + 1,), 'float32'), leaf_to_grow=Spec((), 'int32'))

    def ensures(self, c, A, out):
        H = P2(depthD(c))
        node, prob, npr = A.leaf_to_grow(), A.prob_choose(), A.num_prunable()
        ok = And(node >= 1, node < H)
        spec = partial(c, A.p_nonterminal, node, prob, npr, define=not hasattr(A, 'assuming'))
        d = dep(c, node)
        D = depthD(c)

        def goal():
            r = out()
            for cr in c.calls:
                if cr['contract'].name == 'grove.tree_depths' and not hasattr(A, 'assuming'):
                    g = cr['inst'](()).outs[0](node)
                    p2(c, g, D), p2(c, d, D), p2(c, g, d), p2(c, d, g)
            return Implies(ok, r == spec)
        return [Item('ratio of the tree priors times the ratio of the proposal probabilities', goal)]


@register
class GrowMove(TreeArgs):
    name = 'mcmcstep.grow_move'

    def variants(self):
        return [(s, v, a) for s, v in SV for a in (True, False)]

    def targs(self, d, v):
        return dict(var_tree=Spec((d.H,), v[1]), split_tree=Spec((d.H,), v[0]), affluence_tree=Spec((d.H,), 'bool') if v[2] else None,
                    max_split=Spec((d.p,), v[0]), p_nonterminal=Spec((d.D + 1,), 'float32'), p_propose_grow=Spec((d.H,), 'float32'))

    def args(self, d, v):
        return dict(**self.targs(d, v), key=kspec())

    def requires(self, c, A):
        p, H = c.z(A.max_split.shape[0]), c.z(A.split_tree.shape[0])
        return ([Item(l, f, trig=A.split_tree, maxdepth=3) for l, f in wf_tree(c, A.var_tree, A.split_tree, A.max_split, p, H)] + self.small(A)
                + [Item('weights of nodes are positive', lambda m: And(A.p_propose_grow(m) >= 0, Implies(m >= 1, A.p_propose_grow(m) > 0)), trig=A.p_propose_grow)]
                + pn_ok(c, A, depthD(c)))

    EL = Eligible()

    def setup(self, c, A):
        if not hasattr(A, '_s'):
            p, H = c.z(A.max_split.shape[0]), c.z(A.split_tree.shape[0])
            self.base(c)
            g = self.EL.growable(c, A.split_tree, A.affluence_tree, H)
            w = c.sum(H, lambda m: If(g(m), A.p_propose_grow(m), mk(0, A.p_propose_grow(m))), R)
            ng = c.sum(H, lambda m: If(g(m), iv(1), iv(0)), I)
            pr = self.EL.prunable(c, A.split_tree, H)
            npr = c.sum(H, lambda m: If(pr(m), iv(1), iv(0)), I)
            A._s = NS(p=p, H=H, D=depthD(c), g=g, w=w, ng=ng, pr=pr, npr=npr)
        return A._s

    def ensures(self, c, A, out):
        s = self.setup(c, A)
        H, p = s.H, s.p
        node, ng, var, split = out['node'](), out['num_growable'](), out['var'](), out['split']()
        allowed, vt = out['allowed'](), out['var_tree']
        s_new = upd(A.split_tree, node, 1)
        pr = self.EL.prunable(c, s_new, H)
        npr_new = c.sum(H, lambda m: If(pr(m), iv(1), iv(0)), I)
        Lo, Hi = ranges(c, A.var_tree, A.split_tree, A.max_split, p, var)
        c.fact(Lo(iv(1)) == 0)
        some = ng > 0
        A.split_tree(node), A.split_tree(node / 2)
        adm = And(var >= 0, var < p, Lo(node) < split, split < Hi(node))
        if not hasattr(A, 'assuming'):
            self.help(c, A, s, node, var, vt)
        return [Item('number of growable leaves', lambda: And(ng == s.ng, ng >= 0)),
                Item('the node to grow is an eligible leaf', lambda: Implies(some, And(node >= 1, node < H, s.g(node)))),
                Item('without eligible leaves the sentinel is returned', lambda: Implies(Not(some), node == 2 * H)),
                Item('an allowed rule is admissible at the node', lambda: Implies(And(some, allowed), adm), auto=False),
                Item('a move with an admissible rule is allowed', lambda: Implies(And(some, adm), allowed)),
                Item('the predictor is one with open splits, if the move can be allowed at all', lambda: Implies(And(some, var < p), And(var >= 0, A.max_split(var) >= 0))),
                Item('ratio of the move', lambda: Implies(some, And(s.w > 0, out['partial_ratio']() == partial(c, A.p_nonterminal, node, A.p_propose_grow(node) / s.w, npr_new)))),
                Item('only the axis of the node to grow changes', lambda m: Implies(m != node, vt(m) == A.var_tree(m)), trig=vt, maxdepth=3),
                Item('the axis of the node to grow is the proposed one', lambda: Implies(And(some, var < p), vt(node) == var))]

    def help(self, c, A, s, node, var, vt):
        """lemmas for the admissibility of the proposed rule"""
        p, H, sp, ms = s.p, s.H, A.split_tree, A.max_split
        Lo, Hi = ranges(c, A.var_tree, sp, ms, p, var)
        # (a) the axis array only changes at the node itself, which is not among its own ancestors
        Lo1, Hi1 = ranges(c, vt, sp, ms, p, vt(node))
        for F_, G in ((Lo, Lo1), (Hi, Hi1)):
            w = heap_congr(c, F_, G, node)
            if w is not None:
                vt(w), A.var_tree(w)
        c.fact(Implies(And(node >= 1, node < H), vt(node) >= 0))
        # (b) if the predictor is the axis of no ancestor its range is the whole range
        LoC = HeapFn(c, 'LoC', I, iv(0), lambda w, b, v: v)
        HiC = HeapFn(c, 'HiC', I, Hi.base, lambda w, b, v: v)
        used = UsedUp(c, A.var_tree, sp, ms, p, node)
        for F_, G in ((Lo, LoC), (Hi, HiC)):
            w = heap_congr(c, F_, G, node)
            if w is not None:
                used.intro(w, var)
                A.var_tree(w)
            # constant functions
            heap_congr(c, G, Const(c, G.base), node)
        # (c) ranges are not inverted
        range_open(c, A.var_tree, sp, ms, p, H, var, node)
        use_range(c, Lo, Hi, node)
        use_range(c, Lo1, Hi1, node)
        ms(var)


class Const:
    """the constant heap function"""

    def __init__(self, c, v):
        self.base, self.v = v, v

    def __call__(self, m):
        return self.v

    def step(self, w, b, v):
        return v


@register
class PruneMove(GrowMove):
    name = 'mcmcstep.prune_move'

    def ensures(self, c, A, out):
        s = self.setup(c, A)
        H = s.H
        node, allowed = out['node'](), out['allowed']()
        s_old = upd(A.split_tree, node, 0)
        aff = A.affluence_tree
        g = self.EL.growable(c, s_old, None if aff is None else (lambda m: If(m == node, T, aff(m))), H)
        w_old = c.sum(H, lambda m: If(g(m), A.p_propose_grow(m), mk(0, A.p_propose_grow(m))), R)
        if not hasattr(A, 'assuming'):
            # the last decision node has no decision node below: some node is prunable in any tree with a rule
            g_ = c.fresh('last')
            sp = A.split_tree
            last = lambda m: And(m >= 1, m < H, sp(m) != 0)
            c.fact(Or(Not(last(iv(1))), last(g_)))
            for m in (2 * g_, 2 * g_ + 1):
                c.fact(Implies(And(last(m), last(iv(1))), m <= g_))
            v = some_positive(c, [s.npr], H, H)
            if v is not None:
                closed(c, sp, H, v)
            rec = c.rec_or_none(s.npr)
            if rec is not None:
                w = PV.elem(c, rec, H, g_)
                if w is not None:
                    rec.f(w)
        return [Item('a prune is allowed iff the tree has a rule', lambda: Iff(allowed, And(H > 1, A.split_tree(iv(1)) != 0))),
                Item('the node to prune is a decision node whose children are leaves', lambda: Implies(allowed, And(node >= 1, node < H, s.pr(node)))),
                Item('without a rule the sentinel is returned', lambda: Implies(Not(allowed), node == 2 * H)),
                Item('ratio of the move', lambda: Implies(allowed, out['partial_ratio']() == partial(c, A.p_nonterminal, node, A.p_propose_grow(node) / w_old, s.npr)))]

"""Contracts of the acceptance stage of bartz.mcmcstep: aggregation over data points, ratios, state update."""
from dv.fw import *
from dv.fw import Contract, Item, register, houdini, install_invariants, forget
from dv.theory import *
from dv import ext, prove as PV
from .grove_c import tree_dims
from .sampler_c import SV, kspec, BIG, ranges, use_range
from .moves_c import wf_tree, partial, depthD, pn_ok, upd, prior_ratio
from .step_c import State, prior_req, wf_req, moves_items, tree_spec, EL

LI = [('uint8', 7), ('uint16', 15), ('uint32', 23)]     # leaf index type, largest depth of a split tree


def concentrate(c, total, n1, n2, at, target):
    """total = sum over n1 batches of sums over n2 points, each point in one batch only: exchange the sums and compare
    with the plain sum target over the points; `at(j)` are candidate batches of point j"""
    o = c.rec_or_none(total)
    g = c.rec_or_none(target)
    if o is None or g is None:
        return
    s = PV.swap(c, o, n1, n2)
    if s is None:
        return
    for w in PV.congr(c, s, g, n2):
        r = c.rec_or_none(s.f(w))
        if r is None:
            continue
        for j in at(w):
            u = PV.single(c, r, n1, j)
            r.f(u), r.f(j)
        g.f(w)


class Aggregate(Contract):
    """common part of the two aggregations"""

    def variants(self):
        return [(li, mx, b) for li, mx in LI for b in (None, 'sym')]

    def batch(self, d, v):
        return None if v[2] is None else d.B

    def nbatch(self, c, n, B):
        return n / B + If(n % B == 0, iv(0), iv(1))

    def facts_nb(self, c, n, B):
        """0 <= n % B < B and n = B (n/B) + n % B"""
        q, r = n / B, n % B
        c.fact(And(r >= 0, r < B, q >= 0, Implies(n < B, And(q == 0, r == n)), Implies(n >= B, q >= 1)))


@register
class CountLeaves(Aggregate):
    name = 'mcmcstep.count_datapoints_per_leaf'

    def dims(self, E, v):
        D, H = tree_dims(E, 0, v[1])
        return NS(D=D, H=H, T=E.var('T', 1, 2 ** 16), n=E.var('n', 0, 2 ** 24), B=E.var('B', 1, 2 ** 24))

    def args(self, d, v):
        return dict(leaf_indices=Spec((d.T, d.n), v[0]), tree_size=2 * d.H, batch_size=self.batch(d, v))

    def cnt(self, c, A, t, m):
        return c.sum(c.z(A.leaf_indices.shape[1]), lambda k: If(A.leaf_indices(t, k) == m, iv(1), iv(0)), I)

    def ensures(self, c, A, out):
        n, B = c.z(A.leaf_indices.shape[1]), A.batch_size
        zB = None if B is None else c.z(B)

        def f(t, m):
            want, got = self.cnt(c, A, t, m), out(t, m)
            if not hasattr(A, 'assuming'):
                r = c.rec_or_none(want)
                if r is not None:
                    for x in (0, 1):
                        PV.bounds01(c, r, n)
                    PV.sum_lemmas(c, [], pair=False)
                if zB is not None:
                    self.facts_nb(c, n, zB)
                    nb = self.nbatch(c, n, zB)
                    for q in list(c.sum_order):
                        inner = c.rec_or_none(q.f(iv(0))) if not q.bound else None
                        if inner is not None:
                            for x in list(q.ns.values()):
                                concentrate(c, q.ps(x), x, n, lambda j, x=x: [j % x, j / zB], want)
                    for w in [n]:
                        c.fact(nb >= 0)
                else:
                    for q in list(c.sum_order):
                        if not q.bound and q is not r and r is not None and q.sort == I:
                            PV.congr(c, q, r, n)
            return [got == want, want >= 0, want <= n]
        return [Item('the count of a node is the number of points assigned to it', f, trig=out, maxdepth=3, auto=False),
                Item('shape', lambda: bv(tuple(map(str, out.shape)) == (str(A.leaf_indices.shape[0]), str(A.tree_size)))), Item('type', lambda: bv(str(out.dtype) == 'uint32'))]


@register
class SumResid(Aggregate):
    name = 'mcmcstep.sum_resid'

    def dims(self, E, v):
        D, H = tree_dims(E, 0, v[1])
        return NS(D=D, H=H, n=E.var('n', 0, 2 ** 24), B=E.var('B', 1, 2 ** 24))

    def args(self, d, v):
        return dict(resid=Spec((d.n,), 'float32'), leaf_indices=Spec((d.n,), v[0]), tree_size=2 * d.H, batch_size=self.batch(d, v))

    def tot(self, c, A, m):
        return c.sum(c.z(A.leaf_indices.shape[0]), lambda k: If(A.leaf_indices(k) == m, A.resid(k), z3.RealVal(0)), R)

    def ensures(self, c, A, out):
        n, B = c.z(A.leaf_indices.shape[0]), A.batch_size
        zB = None if B is None else c.z(B)

        def f(m):
            want, got = self.tot(c, A, m), out(m)
            if not hasattr(A, 'assuming'):
                r = c.rec_or_none(want)
                if zB is not None:
                    self.facts_nb(c, n, zB)
                for q in list(c.sum_order):
                    if q.bound or q is r or r is None:
                        continue
                    inner = c.rec_or_none(q.f(iv(0)))
                    for x in list(q.ns.values()):
                        if inner is not None and zB is not None:
                            concentrate(c, q.ps(x), x, n, lambda j, x=x: [j % x, j / zB], want)
                        elif inner is None:
                            PV.congr(c, q, r, n)
            return [got == want]
        return [Item('the sum of a node is the sum of the residuals of its points', f, trig=out, maxdepth=3, auto=False),
                Item('shape', lambda: bv(tuple(map(str, out.shape)) == (str(A.tree_size),)))]


@register
class OneTree(Contract):
    """one tree: accept or reject its move and draw its leaves, given the residual of the whole forest"""
    name = 'mcmcstep.accept_move_and_sample_leaves'

    def variants(self):
        return [(SV[0], a, LI[0], s) for a in (True, False) for s in (True, False)] + [(SV[-1], True, LI[1], True), (SV[-1], True, LI[2], True)]

    def dims(self, E, v):
        D, H = tree_dims(E, 0, v[2][1])
        return NS(D=D, H=H, p=E.var('p', 1, 2 ** 24), n=E.var('n', 0, 2 ** 24), T=E.var('T', 1, 2 ** 16))

    def args(self, d, v):
        (st, vt), aff, (li, _), save = v
        i, f, u = (lambda: Spec((), 'int32')), (lambda *s: Spec(s, 'float32')), (lambda *s: Spec(s, 'uint32'))
        move = dict(allowed=Spec((), 'bool'), grow=Spec((), 'bool'), num_growable=i(), node=i(), left=i(), right=i(), log_trans_prior_ratio=f(),
                    grow_var=i(), grow_split=i(), var_trees=Spec((d.H,), vt), logu=f())
        return dict(X=Spec((d.p, d.n), st), ntree=d.T, resid_batch_size=None, resid=f(d.n), min_points_per_leaf=i() if aff else None, save_ratios=save,
                    prelk=dict(exp_factor=f()), leaf_tree=f(2 * d.H), count_tree=u(2 * d.H), move=move, move_counts=dict(left=u(), right=u(), total=u()),
                    leaf_indices=Spec((d.n,), li), prelkv=dict(sigma2_left=f(), sigma2_right=f(), sigma2_total=f(), sqrt_term=f()),
                    prelf=dict(mean_factor=f(2 * d.H), centered_leaves=f(2 * d.H)))

    def requires(self, c, A):
        H2, mv = c.z(A.leaf_tree.shape[0]), A.move
        node = mv['node']()
        return [Item('a move that could be applied names a node above the bottom', lambda: And(Implies(Or(mv['grow'](), mv['allowed']()), And(node >= 1, 2 * node < H2)), Or(And(node >= 1, 2 * node < H2), node == H2))),
                Item('children', lambda: And(mv['left']() == 2 * node, mv['right']() == 2 * node + 1)),
                Item('leaf indices are inside the tree', lambda k: A.leaf_indices(k) < H2, trig=A.leaf_indices, maxdepth=4)]\
            + ([Item('minimum leaf size', lambda: And(A.min_points_per_leaf() >= 0, A.min_points_per_leaf() < 2 ** 30)),
                Item('counts', lambda: And(A.move_counts['left']() < 2 ** 25, A.move_counts['right']() < 2 ** 25))] if A.min_points_per_leaf is not None else [])

    def spec(self, c, A):
        n = c.z(A.leaf_indices.shape[0])
        g = NS(n=n)

        def S(m):
            for cr in c.calls:           # the callee's result at the very same term
                if cr['contract'].name == 'mcmcstep.sum_resid' and cr['nb'] == 0:
                    o = cr['inst'](()).out
                    if o.ndim == 1:
                        o(m)
            return c.sum(n, lambda k: If(A.leaf_indices(k) == m, A.resid(k), z3.RealVal(0)), R)
        g.S = S
        g.R0 = lambda m: g.S(m) + z3.ToReal(A.count_tree(m)) * A.leaf_tree(m)
        mv = A.move
        g.node, g.left, g.right, g.grow, g.allowed = mv['node'](), mv['left'](), mv['right'](), mv['grow'](), mv['allowed']()
        g.RL, g.RR = g.R0(g.left), g.R0(g.right)
        g.Rm = lambda m: If(m == g.node, g.RL + g.RR, g.R0(m))
        g.base = lambda m: g.Rm(m) * A.prelf['mean_factor'](m) + A.prelf['centered_leaves'](m)
        v = A.prelkv
        g.lk = v['sqrt_term']() + A.prelk['exp_factor']() * (g.RL * g.RL / v['sigma2_left']() + g.RR * g.RR / v['sigma2_right']() - (g.RL + g.RR) * (g.RL + g.RR) / v['sigma2_total']())
        return g

    def ensures(self, c, A, out):
        resid, leaf, acc, to_prune, ratios = out
        g = self.spec(c, A)
        H2 = c.z(A.leaf_tree.shape[0])
        here = And(g.node >= 1, 2 * g.node < H2)
        ltp = A.move['log_trans_prior_ratio']()
        logu = A.move['logu']()
        mp = T
        if A.min_points_per_leaf is not None:
            mp = And(A.move_counts['left']() >= A.min_points_per_leaf(), A.move_counts['right']() >= A.min_points_per_leaf())
        pos = [x() != 0 for x in A.prelkv.values()][:3]
        hide = hasattr(A, 'assuming')
        lk = ratios['log_likelihood']() if A.save_ratios else c.fresh('loglk', R) if hide else g.lk
        r = ltp + lk
        it = []
        if A.save_ratios:
            it += [Item('the transition and prior ratio is reported', lambda: ratios['log_trans_prior']() == ltp, auto=False),
                   Item('the likelihood ratio is that of the sums in the two children', lambda: Implies(And(here, *pos), lk == g.lk), auto=False)]
        else:
            it += [Item('no ratios are reported', lambda: bv(len(ratios) == 0))]
        it += [Item('a move is accepted iff allowed, below the ratio, and its children are large enough',
                    lambda: acc() == And(g.allowed, logu <= If(g.grow, r, -r), mp), auto=False) if A.save_ratios or hide else
               Item('a move is accepted iff allowed, below the ratio, and its children are large enough',
                    lambda: Implies(And(*pos), acc() == And(g.allowed, logu <= If(g.grow, r, -r), mp)), auto=False,
                    cases=lambda: [And(g.allowed, g.grow), And(g.allowed, Not(g.grow)), Not(g.allowed)]),
               Item('leaves are pruned iff the move was to grow and rejected, or to prune and accepted', lambda: to_prune() == z3.Xor(acc(), g.grow), auto=False),
               Item('new leaf values', lambda m: leaf(m) == If(And(to_prune(), Or(m == g.left, m == g.right)), g.base(g.node), g.base(m)), trig=leaf, maxdepth=3, auto=False,
                    cases=lambda m: [m == g.node, And(m != g.node, And(to_prune(), m == g.left)), And(m != g.node, to_prune(), m == g.right), And(m != g.node, Not(And(to_prune(), Or(m == g.left, m == g.right))))]),
               Item('the residual exchanges the old and the new tree', lambda k: resid(k) == A.resid(k) + A.leaf_tree(A.leaf_indices(k)) - leaf(A.leaf_indices(k)), trig=resid, maxdepth=3, auto=False)]
        return it


# ---------------------------------------------------------------- the whole acceptance stage

def moves_spec(d, v):
    i32 = lambda *s: Spec(s, 'int32')
    f = lambda *s: Spec(s, 'float32')
    return dict(allowed=Spec((d.T,), 'bool'), grow=Spec((d.T,), 'bool'), num_growable=i32(d.T), node=i32(d.T), left=i32(d.T), right=i32(d.T), partial_ratio=f(d.T),
                grow_var=i32(d.T), grow_split=i32(d.T), var_trees=Spec((d.T, d.H), v[1]), logu=f(d.T))


def root_above(c, split, T, H, t, m):
    """lemma: in tree t, a node whose parent has a rule is in a tree with a rule at the root"""
    def extra(w):
        for x in (w, w / 2, 2 * w, 2 * w + 1, iv(1)):
            split(t, x)
    c.keep.append((split, t))
    heap_direct(c, ('root_above', id(split), t.get_id()), 'a tree without a rule at the root has no rules',
                lambda w: Implies(And(t >= 0, t < T, w < H, split(t, w) != 0), split(t, iv(1)) != 0), H, extra)(m / 2)


def anc_rule(c, split, T, H, t, a, m):
    """lemma: in tree t, an ancestor a of a node m with a rule has a rule, and so has one of its children (or is the parent of m)"""
    def mkP(t, a):
        def P(w):
            below = Or(w == 2 * a, w == 2 * a + 1, split(t, 2 * a) != 0, split(t, 2 * a + 1) != 0)
            return Implies(And(t >= 0, t < T, w < H, split(t, w) != 0, Anc(a, w)), And(split(t, a) != 0, below))

        def extra(w):
            anc_facts(c, a, w), anc_facts(c, a, 2 * w), anc_facts(c, a, 2 * w + 1)
            for x in (w, w / 2, 2 * w, 2 * w + 1, a, 2 * a, 2 * a + 1):
                split(t, x)
        return P, extra
    key = ('anc_rule', id(split))
    if key not in c.__dict__.get('_hd', {}):
        P, extra = mkP(c.fresh('t'), c.fresh('a'))
        c.keep.append(split)
        heap_direct(c, key, 'rules are closed under ancestors', P, H, extra, local=True)
    if c._hd[key]:
        P, extra = mkP(t, a)
        extra(m)
        c.fact(Implies(And(m >= 1, m < 2 * H), P(m)))


def reach_down(c, R, a, m):
    """schema: a point that reaches m passes through every proper ancestor a of m and is sent further down there"""
    c.fact(Implies(And(R(m), Anc(a, m)), And(R(a), Or(bv(R.cond(a, 0)), bv(R.cond(a, 1))))))


def reach_transfer(c, R1, R2, m):
    """schema: a point that reaches m under R1 also reaches it under R2, unless some proper ancestor w reached under both
    sends it towards m under R1 and not under R2"""
    k = ('rt', id(R1), id(R2), m.get_id())
    if k in c.extra_done:
        return None
    c.extra_done.add(k)
    c.keep.append((R1, R2, m))
    w, b = c.fresh('rw'), c.fresh('rb')
    at = lambda Rr: If(b == 1, bv(Rr.cond(w, 1)), bv(Rr.cond(w, 0)))
    ch = 2 * w + b
    c.fact(Or(m < 1, Not(R1(m)), R2(m), And(w >= 1, 2 * w <= m, Anc(w, m), b >= 0, b <= 1, R1(w), R2(w), at(R1), Not(at(R2)), Or(ch == m, Anc(ch, m)))))
    return w, b


def ghost(c, b):
    """array evaluated to ask for facts about a node; one per array of trees"""
    memo = c.__dict__.setdefault('_ghost', {})
    k = id(b['split_trees'])
    if k not in memo:
        c.keep.append(b['split_trees'])
        memo[k] = Arr((b['split_trees'].shape[0], 2 * b['split_trees'].shape[1]), 'bool', lambda t, m: T, name='ghost')
    return memo[k]


class Stage(State):
    """accept_moves_and_sample_leaves, verified in several views; the views share requires and specification"""
    name = None
    VIEW = ()
    NEEDS = ()
    VARS = None
    auto_items = False

    def variants(self):
        # (types of splits and axes, minimum leaf size set, leaf index type, ratios stored, batched sums)
        return self.VARS or [(SV[0], True, LI[0], True, None), (SV[0], False, LI[1], True, 'sym'), (SV[-1], True, LI[2], False, 'sym'), (SV[1], False, LI[2], False, None)]

    def dims(self, E, v):
        D, H = tree_dims(E, 0, v[2][1])
        (st, vt) = v[0]
        from .sampler_c import PDT
        return NS(D=D, H=H, p=E.var('p', *PDT[vt]), T=E.var('T', 1, 2 ** 16), n=E.var('n', 1, 2 ** 24), B=E.var('B', 1, 2 ** 24))

    def li_dtype(self, v):
        return v[3][0]

    def args(self, d, v):
        b = None if v[4] is None else d.B
        w = (v[0][0], v[0][1], v[1], v[2])
        self_state = State.state(self, d, w, ratios=v[3], rb=b, cb=b)
        return dict(bart=self_state, moves=moves_spec(d, w), key=kspec())

    # -- specification
    def S(self, c, A):
        if hasattr(A, '_st'):
            return A._st
        b, mv = A.bart, A.moves
        s = A._st = NS(b=b, mv=mv)
        s.T, s.H, s.n, s.p = c.z(b['split_trees'].shape[0]), c.z(b['split_trees'].shape[1]), c.z(b['X'].shape[1]), c.z(b['X'].shape[0])
        s.li, s.X, s.split, s.var, s.leaf = b['leaf_indices'], b['X'], b['split_trees'], b['var_trees'], b['leaf_trees']
        s.node, s.grow, s.allowed = mv['node'], mv['grow'], mv['allowed']
        s.mp = None if b['min_points_per_leaf'] is None else b['min_points_per_leaf']()
        s.acc = {}
        s.ghost = ghost(c, b)    # evaluated to ask for facts about a node

        def goes(t, k):
            """side of the proposed rule (of some rule, if the proposal has none)"""
            u = mv['grow_var'](t)
            return s.X(Min(Max(If(u < 0, u + s.p, u), iv(0)), s.p - 1), k) >= mv['grow_split'](t)
        s.goes = goes
        s.gl = lambda t, k: If(And(s.grow(t), s.li(t, k) == s.node(t)), 2 * s.node(t) + If(goes(t, k), iv(1), iv(0)), s.li(t, k))
        return s

    def requires(self, c, A):
        s = self.S(c, A)
        b = A.bart
        it = []
        if 'wf' in self.NEEDS:
            it += wf_req(c, b)
        if 'ratio' in self.NEEDS:
            it += prior_req(c, b)
        it += moves_items(c, b, A.moves, ratio='ratio' in self.NEEDS)
        it += [Item('leaf indices are leaves', lambda t, k: self.isleaf(s, s.split, t, s.li(t, k)), trig=s.li, maxdepth=4)]
        it += [Item('cutpoint indices fit in 31 bits', lambda i: b['max_split'](i) < BIG, trig=b['max_split']),
               Item('noise variance is positive', lambda: b['sigma2']() > 0)]
        if 'reach' in self.NEEDS:
            it += self.leafidx_req(c, A, s)
        if 'resid' in self.NEEDS:
            it += self.resid_req(c, A, s)
        if 'min' in self.NEEDS:
            it += self.minleaf_req(c, A, s)
        if 'flags' in self.NEEDS:
            it += self.flags_req(c, A, s)
        if s.mp is not None:
            it.append(Item('minimum leaf size', lambda: And(s.mp >= 0, s.mp < 2 ** 30)))
        return it

    def isleaf(self, s, split, t, m):
        return And(m >= 1, m < 2 * s.H, Or(m >= s.H, split(t, m) == 0), Or(m == 1, split(t, m / 2) != 0))

    def accepted(self, c, A, out, t):
        """observable: an allowed move was applied"""
        s = self.S(c, A)
        return And(s.allowed(t), Iff(s.grow(t), out['split_trees'](t, s.node(t)) != 0))

    def ensures(self, c, A, out):
        its = []
        for w in self.VIEW:
            its += getattr(self, w)(c, A, out, self.S(c, A))
        return its

    def rule_range(self, c, s, t):
        """an admissible boundary is between 1 and the number of cutpoints"""
        u = s.mv['grow_var'](t)
        Lo, Hi = ranges(c, s.var.at(t), s.split.at(t), s.b['max_split'], s.p, u)
        use_range(c, Lo, Hi, s.node(t))
        s.b['max_split'](u), s.mv['grow_split'](t)
        return Lo, Hi

    # -- C16 / C27
    def rules(self, c, A, out, s):
        def f(t, m):
            new, acc = out['split_trees'](t, m), self.accepted(c, A, out, t)
            self.rule_range(c, s, t)
            val = If(And(acc, m == s.node(t)), If(s.grow(t), s.mv['grow_split'](t), iv(0)), s.split(t, m))
            return new == val
        return [Item('exactly the accepted rules are added or removed', f, trig=out['split_trees'], maxdepth=3, auto=False),
                Item('axes are those of the proposal', lambda t, m: out['var_trees'](t, m) == s.mv['var_trees'](t, m), trig=out['var_trees'], maxdepth=3, auto=False)]


@register
class StageRules(Stage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#C16'
    VIEW = ('rules',)
    NEEDS = ('wf',)


def _sum_is(c, code, spec, n, ev=None):
    """relate a sum computed by the code to a specified sum (extensionality, with the summands at the witness)"""
    a, b = c.rec_or_none(code), c.rec_or_none(spec)
    if a is None or b is None or a is b:
        return
    for w in PV.congr(c, a, b, n):
        a.f(w), b.f(w)
        if ev:
            ev(w)


def _plain(t):
    """the sum inside a wrap-around conditional"""
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        t = t.arg(1)
    return t


class _StageViews:
    def grown(self, c, A, s):
        """lemma: the leaf indices given to the counting function are those of the larger of the two trees"""
        use = []
        for cr in c.calls:
            if cr['contract'].name == 'mcmcstep.count_datapoints_per_leaf' and cr['nb'] == 0:
                li = cr['inst'](()).A.leaf_indices

                def ev(t, k):
                    s.gl(t, k), s.goes(t, k), s.li(t, k)
                    self.rule_range(c, s, t)
                use.append(universal(c, ('grown', id(li)), 'the leaf indices used for counting are those of the larger tree',
                                     [A.bart['split_trees'].shape[0], A.bart['X'].shape[1]], lambda t, k: li(t, k) == s.gl(t, k), ev))
        return lambda t, k: [u(t, k) for u in use]

    def count(self, c, A, s, t, x):
        """number of points of tree t at node x in the larger of the two trees, linked to the counts of the code"""
        L = c.sum(s.n, lambda k: If(s.gl(t, k) == x, iv(1), iv(0)), I)
        g = self.grown(c, A, s)
        for cr in c.calls:
            if cr['contract'].name == 'mcmcstep.count_datapoints_per_leaf' and cr['nb'] == 0:
                o = cr['inst'](()).out
                o(t, x)
                names = PV.syms(t) | PV.syms(s.mv['left'](t)) | PV.syms(s.mv['right'](t))
                for idx, _ in list(o.memo.values()):       # the code may read the count at another term for the same node
                    if idx[1].eq(x) or num(idx[1]) is None and PV.syms(idx[0]) & PV.syms(t) and PV.syms(idx[1]) & names:
                        code = cr['contract'].cnt(c, cr['inst'](()).A, *idx)
                        _sum_is(c, code, L, s.n, lambda w: (g(t, w), g(idx[0], w), s.gl(t, w)))
        return L

    def counts(self, c, A, s, t):
        """numbers of points in the two children of the node of the move of tree t (in the larger of the two trees)"""
        return self.count(c, A, s, t, 2 * s.node(t)), self.count(c, A, s, t, 2 * s.node(t) + 1)

    def accept(self, c, A, out, s):
        lt, ll = out['ratios']['log_trans_prior'], out['ratios']['log_likelihood']

        def f(t):
            r = lt(t) + ll(t)
            self.rule_range(c, s, t)
            big = T
            if s.mp is not None:
                nl, nr = self.counts(c, A, s, t)
                big = And(nl >= s.mp, nr >= s.mp)
            return Iff(self.accepted(c, A, out, t), And(s.allowed(t), s.mv['logu'](t) <= If(s.grow(t), r, -r), big))
        return [Item('a move is accepted exactly when allowed, below the acceptance ratio, and leaving enough points', f, dims=(A.bart['split_trees'].shape[0],), auto=False)]

    def counters(self, c, A, out, s):
        acc = lambda t: self.accepted(c, A, out, t)
        ind = lambda b: If(b, iv(1), iv(0))
        defs = dict(grow_prop_count=lambda t: s.grow(t), prune_prop_count=lambda t: And(Not(s.grow(t)), s.allowed(t)),
                    grow_acc_count=lambda t: And(s.grow(t), acc(t)), prune_acc_count=lambda t: And(Not(s.grow(t)), acc(t)))
        it = []

        def ev(w):
            self.rule_range(c, s, w)
            out['split_trees'](w, s.node(w))
        sums = {}

        def total(k):
            if k not in sums:
                sums[k] = c.sum(s.T, lambda t, f=defs[k]: ind(f(t)), I)
            return sums[k]
        for k in defs:
            def f(k=k):
                want, got = total(k), out[k]()
                r = c.rec_or_none(want)
                PV.bounds01(c, r, s.T)
                for q in list(c.sum_order):
                    for n in list(q.ns.values()):
                        if not q.bound and q.sort == I and n.eq(s.T) and q is not r and q.ps(n).eq(_plain(got)):
                            _sum_is(c, q.ps(n), want, s.T, ev)
                return [got == want]
            it.append(Item(f'{k} is the number of such trees', f, auto=False))

        def order():
            fs = []
            for a, b in (('grow_acc_count', 'grow_prop_count'), ('prune_acc_count', 'prune_prop_count')):
                x, y = c.rec_or_none(total(a)), c.rec_or_none(total(b))
                w = PV.congr_le(c, x, y, s.T)
                x.f(w), y.f(w)
                PV.seg(c, x, iv(0), s.T)
                fs.append(And(out[a]() <= out[b]()))
            both = c.sum(s.T, lambda t: ind(Or(s.grow(t), s.allowed(t))), I)
            r, g, p = c.rec_or_none(both), c.rec_or_none(total('grow_prop_count')), c.rec_or_none(total('prune_prop_count'))
            PV.bounds01(c, r, s.T)
            w = PV.linear(c, s.T, r, [(iv(1), g), (iv(1), p)])
            r.f(w), g.f(w), p.f(w)
            return fs + [out['grow_prop_count']() + out['prune_prop_count']() <= s.T]
        it.append(Item('acceptances do not exceed proposals, and proposals the number of trees', order, auto=False))
        return it


for _k, _v in vars(_StageViews).items():
    if not _k.startswith('__'):
        setattr(Stage, _k, _v)


@register
class StageAccept(Stage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#C16b'
    VIEW = ('accept',)
    NEEDS = ('wf',)
    VARS = [(SV[0], True, LI[0], True, None), (SV[0], False, LI[1], True, 'sym'), (SV[-1], True, LI[2], True, 'sym')]


@register
class StageCounters(Stage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#C27'
    VIEW = ('counters',)
    NEEDS = ('wf',)


class _Views2:
    def wellformed(self, c, A, out, s):
        """the new trees are well formed (same statement as assumed of the old ones)"""
        b = A.bart
        ns, nv, ms = out['split_trees'], out['var_trees'], b['max_split']
        olds = wf_req(c, b)

        def ev(t, m):
            node = s.node(t)
            self.rule_range(c, s, t)
            anc_facts(c, node, m)
            for x in (m, m / 2, node, 2 * node, 2 * node + 1, node / 2):
                s.split(t, x), ns(t, x), s.var(t, x), nv(t, x), s.mv['var_trees'](t, x)
            S = tree_spec(c, b, t)
            S.g(node), S.pr(node)
            u = nv(t, m)
            Lo, Hi = ranges(c, s.var.at(t), s.split.at(t), ms, s.p, u)
            Lo2, Hi2 = ranges(c, nv.at(t), ns.at(t), ms, s.p, u)
            gu = s.mv['grow_var'](t)
            Lg, Hg = ranges(c, s.var.at(t), s.split.at(t), ms, s.p, gu)
            c.fact(Implies(u == gu, And(Lg(m) == Lo(m), Hg(m) == Hi(m))))
            ou = s.var(t, m)
            Lw, Hw = ranges(c, s.var.at(t), s.split.at(t), ms, s.p, ou)
            c.fact(Implies(u == ou, And(Lw(m) == Lo(m), Hw(m) == Hi(m))))
            for x in (m, node):
                use_range(c, Lo, Hi, x), use_range(c, Lo2, Hi2, x)
            anc_rule(c, s.split, s.T, s.H, t, node, m)
            anc_facts(c, node, node)
            for F1, F2 in ((Lo, Lo2), (Hi, Hi2)):
                w = heap_congr(c, F1, F2, m)
                if w is not None:
                    for a in (s.split, ns, s.var, nv):
                        a(t, w)
                    s.mv['var_trees'](t, w)
                    anc_facts(c, node, w), anc_facts(c, w, node), anc_facts(c, w, m)
                    anc_rule(c, s.split, s.T, s.H, t, w, m)
        items = []
        for q, it in enumerate(olds[:-1]):
            def f(t, m, q=q):
                if q == 1:
                    ev(t, m)
                else:
                    self.rule_range(c, s, t)
                    anc_rule(c, s.split, s.T, s.H, t, s.node(t), m)
                    for x in (m, m / 2, s.node(t), 2 * s.node(t), s.node(t) / 2):
                        s.split(t, x), ns(t, x)
                    tree_spec(c, b, t).g(s.node(t)), tree_spec(c, b, t).pr(s.node(t))
                return wf_tree(c, nv.at(t), ns.at(t), ms, s.p, s.H)[q][1](m)
            items.append(Item('after the step: ' + it.label, f, trig=ns, maxdepth=3, auto=False))

        def small(t, m):
            self.rule_range(c, s, t)
            return ns(t, m) < BIG
        items.append(Item('after the step: ' + olds[-1].label, small, trig=ns, maxdepth=3, auto=False))
        keep = [k for k in b if k not in ('opt', 'ratios')]
        sh = lambda x: None if x is None else (tuple(map(str, x.shape)), str(x.dtype))
        items.append(Item('shapes and types are unchanged', lambda: And(*[bv(k in out and sh(out[k]) == sh(b[k])) for k in keep], bv(set(out) == set(b)))))
        return items

    def reach(self, c, A, s, new=None):
        """who reaches which node: Routes of the old or the new forest"""
        var, split = (s.var, s.split) if new is None else (new['var_trees'], new['split_trees'])
        memo, key = c.__dict__.setdefault('_reach', {}), (id(s.X), id(var), id(split))
        if key not in memo:
            c.keep.append((s.X, var, split))
            memo[key] = Routes(c, 2, lambda t, k: ((lambda v: s.X(v, k)), (lambda m: var(t, m)), (lambda m: split(t, m)), s.H), name='rt')
        return memo[key]

    def leafidx(self, c, A, out, s):
        """the stored leaf indices are where the data points are routed in the new trees"""
        nl, ns, nv = out['leaf_indices'], out['split_trees'], out['var_trees']

        def ev(t, k):
            node, l = s.node(t), s.li(t, k)
            self.rule_range(c, s, t)
            S = tree_spec(c, s.b, t)
            S.g(node), S.pr(node)
            for x in (l, l / 2, node, 2 * node, 2 * node + 1, node / 2):
                s.split(t, x), ns(t, x), s.var(t, x), nv(t, x), s.mv['var_trees'](t, x)
            R1, R2 = self.reach(c, A, s).R(t, k), self.reach(c, A, s, out).R(t, k)
            r = nl(t, k)
            for x in (node, l, iv(1)):
                for Rr in (R1, R2):
                    Rr.down(x), Rr.up(x)
            R2.up(r)
            for m in (l, node):
                w = reach_transfer(c, R1, R2, m)
                if m is l and w is not None:
                    wit[l.get_id()] = w
                anc_facts(c, node, m)
                anc_facts(c, 2 * node, m), anc_facts(c, 2 * node + 1, m)
                for a in (node, 2 * node, 2 * node + 1):
                    reach_down(c, R1, a, m)
                if w is not None:
                    for a in (s.split, ns, s.var, nv):
                        a(t, w[0])
                    s.mv['var_trees'](t, w[0])
                    anc_facts(c, w[0], m)
                    reach_down(c, R1, 2 * w[0] + w[1], m)
            ns(t, r), ns(t, r / 2)
            return r, R2

        wit = {}

        def leaf(t, k):
            r, _ = ev(t, k)
            return self.isleaf(s, ns, t, r)

        def cases(t, k):
            acc, node, l = self.accepted(c, A, out, t), s.node(t), s.li(t, k)
            w, _ = wit.get(l.get_id(), (node, 0))
            a = And(acc, s.grow(t), l == node)
            b = And(acc, Not(s.grow(t)), Or(l == 2 * node, l == 2 * node + 1))
            return [a, b, And(Not(a), Not(b), s.grow(t)), And(Not(a), Not(b), Not(s.grow(t)), acc, w != node), And(Not(a), Not(b), Not(s.grow(t)), acc, w == node), And(Not(a), Not(b), Not(s.grow(t)), Not(acc))]

        def route(t, k):
            r, R2 = ev(t, k)
            return R2(r)
        return [Item('after the step: leaf indices are leaves', leaf, trig=nl, maxdepth=4, auto=False),
                Item('after the step: every point is assigned to the leaf the rules lead it to', route, trig=nl, maxdepth=4, auto=False, cases=cases)]

    def oldcount(self, c, s, t, m):
        return c.sum(s.n, lambda k: If(s.li(t, k) == m, iv(1), iv(0)), I)

    def minleaf_req(self, c, A, s):
        if s.mp is None:
            return []
        aff = A.bart['affluence_trees']
        return [Item('every leaf of a tree with a rule has at least the minimum number of points',
                     lambda t, m: Implies(And(s.ghost(t, m), m >= 2, m < 2 * s.H, s.split(t, m / 2) != 0, Or(m >= s.H, s.split(t, m) == 0)), self.oldcount(c, s, t, m) >= s.mp),
                     dims=(A.bart['split_trees'].shape[0], 2 * A.bart['split_trees'].shape[1]), trig=s.ghost, maxdepth=2)]

    def flags_req(self, c, A, s):
        if s.mp is None:
            return []
        aff = A.bart['affluence_trees']
        return [Item('a leaf is flagged as growable iff it has at least twice the minimum number of points',
                     lambda t, m: Implies(And(s.ghost(t, m), m >= 1, m < s.H, s.split(t, m) == 0, Or(m == 1, s.split(t, m / 2) != 0)), Iff(aff(t, m), self.oldcount(c, s, t, m) >= 2 * s.mp)),
                     dims=(A.bart['split_trees'].shape[0], A.bart['split_trees'].shape[1]), trig=s.ghost, maxdepth=2)]

    def minparts(self, c, A, out, s):
        """the sums that count the points of a leaf in the old, the larger and the new tree, linked; and a case distinction"""
        nl, ns = out['leaf_indices'], out['split_trees']

        def ev(t, m):
            node = s.node(t)
            self.rule_range(c, s, t)
            S = tree_spec(c, s.b, t)
            S.g(node), S.pr(node)
            for x in (m, m / 2, node, 2 * node, 2 * node + 1, node / 2):
                s.split(t, x), ns(t, x)
            for x in (m, 2 * node, 2 * node + 1, node):
                s.ghost(t, x)
            new = c.sum(s.n, lambda k: If(nl(t, k) == m, iv(1), iv(0)), I)
            nr = c.rec_or_none(new)
            gm, gL, gR = (self.count(c, A, s, t, x) for x in (m, 2 * node, 2 * node + 1))
            at = lambda w: (nl(t, w), s.gl(t, w), s.goes(t, w), s.li(t, w))
            for x in (gm, gL, gR, self.oldcount(c, s, t, m), new):
                PV.bounds01(c, c.rec_or_none(x), s.n)
            _sum_is(c, new, gm, s.n, at)
            pairs = [(new, [gL, gR])]
            old = self.oldcount(c, s, t, m)
            _sum_is(c, old, gm, s.n, at)
            pairs.append((old, [gL, gR]))
            for x, g in ((2 * node, gL), (2 * node + 1, gR)):
                _sum_is(c, self.oldcount(c, s, t, x), g, s.n, at)
            for x, ys in pairs:
                rs = [c.rec_or_none(y) for y in ys]
                w = PV.linear(c, s.n, c.rec_or_none(x), [(iv(1), r) for r in rs])
                for r in rs + [c.rec_or_none(x)]:
                    r.f(w)
                at(w)
            return new

        def cases(t, m):
            acc, node = self.accepted(c, A, out, t), s.node(t)
            ch = Or(m == 2 * node, m == 2 * node + 1)
            return [And(g, x, y) for g in (s.grow(t), Not(s.grow(t))) for x in (acc, Not(acc)) for y in (m == node, ch, And(m != node, Not(ch)))]
        return ev, cases

    def minleaf(self, c, A, out, s):
        """leaves hold enough points, and the flags say which leaves can be split"""
        if s.mp is None:
            return []
        nl, ns, aff = out['leaf_indices'], out['split_trees'], out['affluence_trees']
        dims = (A.bart['split_trees'].shape[0], 2 * A.bart['split_trees'].shape[1])
        ev, cases = self.minparts(c, A, out, s)

        def enough(t, m):
            new = ev(t, m)
            return Implies(And(m >= 2, ns(t, m / 2) != 0, Or(m >= s.H, ns(t, m) == 0)), new >= s.mp)

        def flag(t, m):
            aff(t, m)
            new = ev(t, m)
            return Implies(And(m >= 1, m < s.H, ns(t, m) == 0, Or(m == 1, ns(t, m / 2) != 0)), Iff(aff(t, m), new >= 2 * s.mp))

        return [Item('after the step: every leaf of a tree with a rule has at least the minimum number of points', enough, dims=dims, auto=False, cases=cases),
                Item('after the step: a leaf is flagged as growable iff it has at least twice the minimum number of points', flag, dims=dims, auto=False, cases=cases)]

    def fitted(self, c, s, k, leaf=None, li=None):
        leaf, li = leaf or s.leaf, li or s.li
        return c.sum(s.T, lambda t: leaf(t, li(t, k)), R)

    def resid_req(self, c, A, s):
        y, r = A.bart['y'], A.bart['resid']
        return [Item('residuals are the response minus the forest', lambda k: r(k) == y(k) - self.fitted(c, s, k), trig=r, maxdepth=2)]

    def treeloop(self, c, s):
        """the loop over the trees and the position of the residuals in its state"""
        r = [(L, q) for L in c.loops if L.kind == 'scan' and L.nz().eq(s.T) for q, av in enumerate(L.avals)
             if len(av.shape) == 1 and kind(av.dtype) == 'f' and c.z(av.shape[0]).eq(s.n)]
        if len(r) != 1:
            raise Unsupported('expected one loop over the trees carrying the residuals')
        return r[0]

    def exchange(self, c, A, out, s):
        """lemma: the residuals before tree t are the initial ones with the trees before t exchanged for their new version"""
        nl, lf = out['leaf_indices'], out['leaf_trees']
        L, q = self.treeloop(c, s)

        def delta(t, k):
            return L.C[q](t + 1, k) - L.C[q](t, k) == s.leaf(t, s.li(t, k)) - lf(t, nl(t, k))

        def ev(t, k):
            node = s.node(t)
            self.rule_range(c, s, t)
            L.unfold(t, q, k)
            S = tree_spec(c, s.b, t)
            S.g(node), S.pr(node)
            for x in (s.li(t, k), nl(t, k), s.gl(t, k), node, 2 * node, 2 * node + 1):
                lf(t, x), s.leaf(t, x), s.split(t, x), out['split_trees'](t, x)
            for x in (node, 2 * node, 2 * node + 1):
                s.split(t, x / 2)

        def cases(t, k):
            acc, node, g = self.accepted(c, A, out, t), s.node(t), s.grow(t)
            l = s.li(t, k)
            ch = Or(l == 2 * node, l == 2 * node + 1)
            return [And(gg, aa, x) for gg in (g, Not(g)) for aa in (acc, Not(acc)) for x in (l == node, ch, And(l != node, Not(ch)))]
        d = universal(c, ('delta', L.id), 'each tree is exchanged for its new version in the residuals', [A.bart['split_trees'].shape[0], A.bart['X'].shape[1]], delta, ev, cases=cases)

        def sums(k):
            return c.rec_or_none(self.fitted(c, s, k)), c.rec_or_none(self.fitted(c, s, k, lf, nl))

        def P(t, k):
            old, new = sums(k)
            return L.C[q](t, k) == A.bart['resid'](k) + old.ps(t) - new.ps(t)
        key = ('after', L.id)
        st = c.__dict__.setdefault('_uni', {})
        if key not in st:
            k0, n0 = c.fresh('k', n=s.n), len(c.facts)

            def step(t):
                d(t, k0)
                for r in sums(k0):
                    PV.unfold_sum(c, r, t)
            use = direct_induct(c, 'residuals before tree t', lambda t: P(t, k0), s.T + 1, extra=step, hyps=[k0 >= 0, k0 < s.n])
            st[key] = c.lemmas[-1][1].ok
            forget(c, [k0], n0)

        def inst(t, k):
            if st[key]:
                c.fact(Implies(And(t >= 0, t <= s.T, k >= 0, k < s.n), P(t, k)))
        return inst

    def residual(self, c, A, out, s):
        """the stored residuals are the response minus the values of the new leaves"""
        nl, lf, y = out['leaf_indices'], out['leaf_trees'], A.bart['y']

        def f(k):
            self.exchange(c, A, out, s)(s.T, k)
            return out['resid'](k) == out['y'](k) - self.fitted(c, s, k, lf, nl)
        return [Item('after the step: residuals are the response minus the forest', f, trig=out['resid'], maxdepth=2, auto=False),
                Item('the response is unchanged', lambda k: out['y'](k) == y(k), trig=y, maxdepth=2, auto=False)]

    def partial(self, c, A, out, s, t, k):
        """residual of a point without tree t, given the trees already updated"""
        nl, lf = out['leaf_indices'], out['leaf_trees']
        old, new = c.rec_or_none(self.fitted(c, s, k)), c.rec_or_none(self.fitted(c, s, k, lf, nl))
        return A.bart['resid'](k) + old.ps(t) - new.ps(t) + s.leaf(t, s.li(t, k))

    def psum(self, c, A, out, s, t, sel):
        """sum of the residuals without tree t over the points in sel"""
        return c.sum(s.n, lambda k: If(sel(k), self.partial(c, A, out, s, t, k), z3.RealVal(0)), R)

    def onetree(self, c, s, t):
        """the call that handles tree t"""
        L, q = self.treeloop(c, s)
        L.body(t)
        crs = [cr for cr in L.calls[t.get_id()] if cr['contract'].name == 'mcmcstep.accept_move_and_sample_leaves']
        if len(crs) != 1:
            raise Unsupported('expected one call per tree')
        return crs[0]['contract'], crs[0]['inst'](())

    def sums(self, c, A, out, s, t, ms):
        """link the residual sums of the code at the nodes ms (sum of residuals plus count times old value) to sums of residuals without tree t"""
        ct, m = self.onetree(c, s, t)
        spec = ct.spec(c, m.A)
        ex = self.exchange(c, A, out, s)
        g = self.grown(c, A, s)
        res = []
        for x in ms:
            tgt = self.psum(c, A, out, s, t, lambda k, x=x: s.gl(t, k) == x)
            S, cnt = spec.S(x), self.count(c, A, s, t, x)
            rt, rs, rc = c.rec_or_none(tgt), c.rec_or_none(S), c.rec_or_none(cnt)
            real = c.sum(s.n, lambda k, x=x: If(s.gl(t, k) == x, z3.RealVal(1), z3.RealVal(0)), R)
            rr = c.rec_or_none(real)
            c.fact(z3.ToReal(cnt) == real)       # the same sum over the reals
            v = m.A.leaf_tree(x)
            vs = c.sum(s.n, lambda k, x=x, v=v: If(s.gl(t, k) == x, v, z3.RealVal(0)), R)
            rv = c.rec_or_none(vs)
            PV.scaled(c, rr, rv, v, s.n)
            w = PV.linear(c, s.n, rt, [(z3.RealVal(1), rs), (z3.RealVal(1), rv)])
            for r in (rt, rs, rr, rv):
                r.f(w)
            ex(t, w), g(t, w), s.gl(t, w), m.A.leaf_indices(w)
            node = s.node(t)
            for y in (s.li(t, w), node):
                s.leaf(t, y)
            use = universal(c, ('code li', s.T.get_id()), 'leaf indices passed to the acceptance of a tree are those of the larger tree',
                            [A.bart['split_trees'].shape[0], A.bart['X'].shape[1]], lambda t_, k_: self.onetree(c, s, t_)[1].A.leaf_indices(k_) == s.gl(t_, k_),
                            lambda t_, k_: (s.gl(t_, k_), s.goes(t_, k_), s.li(t_, k_), self.rule_range(c, s, t_)))
            use(t, w)
            ok = And(t >= 0, t < s.T, x >= 1, x < 2 * s.H, x != node)
            inw = And(ok, w >= 0, w < s.n)
            new = c.rec_or_none(self.fitted(c, s, w, out['leaf_trees'], out['leaf_indices']))
            prs = [Implies(inw, m.A.leaf_indices(w) == s.gl(t, w)),
                   Implies(inw, m.A.resid(w) == A.bart['resid'](w) + c.rec_or_none(self.fitted(c, s, w)).ps(t) - new.ps(t)),
                   Implies(And(inw, s.gl(t, w) == x), s.leaf(t, s.li(t, w)) == v)]
            ch = And(s.grow(t), Or(x == 2 * node, x == 2 * node + 1))
            val = Implies(ok, v == If(ch, s.leaf(t, node), s.leaf(t, x)))
            have(c, 'value at a node before the new leaves are drawn', val, auto=False)
            was = Implies(And(inw, s.gl(t, w) == x), s.li(t, w) == If(ch, node, x))
            def nochild(t_, k_):
                l, nd = s.li(t_, k_), s.node(t_)
                return Implies(s.grow(t_), And(l != 2 * nd, l != 2 * nd + 1, nd >= 1))

            def nochild_ev(t_, k_):
                nd, l = s.node(t_), s.li(t_, k_)
                tree_spec(c, s.b, t_).g(nd)
                s.split(t_, nd), s.split(t_, l / 2), s.split(t_, l), s.split(t_, (2 * nd) / 2), s.split(t_, (2 * nd + 1) / 2)
                rng = And(t_ >= 0, t_ < s.T, k_ >= 0, k_ < s.n)
                have(c, 'the node of a proposal to grow is a leaf', Implies(And(rng, s.grow(t_)), And(nd >= 1, nd < s.H, s.split(t_, nd) == 0)), auto=False)
                have(c, 'points are at leaves', Implies(rng, self.isleaf(s, s.split, t_, l)), auto=False)
                have(c, 'same entry', Implies(l / 2 == nd, s.split(t_, l / 2) == s.split(t_, nd)), auto=False)
            dm = [A.bart['split_trees'].shape[0], A.bart['X'].shape[1]]
            universal(c, ('nochild', s.T.get_id()), 'no point is below the node of a proposal to grow', dm, nochild, nochild_ev)(t, w)
            derive(c, 'node of a point in the old tree', [Implies(And(t >= 0, t < s.T, w >= 0, w < s.n), nochild(t, w))], was, ints=True)
            for p in prs[:2]:
                have(c, 'sum of the residuals of a node (point)', p, auto=False)
            eqs = [Implies(s.li(t, w) == y, s.leaf(t, s.li(t, w)) == s.leaf(t, y)) for y in (node, x)]
            derive(c, 'old value of a point', [val, was], prs[2], valid=eqs, ints=True)
            same = Implies(inw, rt.f(w) == rs.f(w) + rv.f(w))
            derive(c, 'sum of the residuals of a node without its tree (each point)', prs, same, ints=True)
            have(c, 'sum of the residuals of a node without its tree', Implies(ok, tgt == S + vs), auto=False)
            have(c, 'count', Implies(ok, m.A.count_tree(x) == cnt), auto=False)
            have(c, 'count of a node', Implies(ok, z3.ToReal(m.A.count_tree(x)) == real), auto=False)
            derive(c, 'residual of a node', [Implies(ok, tgt == S + vs), Implies(ok, z3.ToReal(m.A.count_tree(x)) == real), vs == v * real], Implies(ok, spec.R0(x) == tgt))
            res.append((tgt, real))
        return res

    def likelihood(self, c, A, out, s):
        """the reported log likelihood ratio is that of the Gaussian model with the leaf values integrated out"""
        sig = A.bart['sigma2']()
        tau = 1 / z3.ToReal(s.T)

        def mll(n, S):
            return Log(sig / (sig + n * tau)) / 2 + tau * S * S / (2 * sig * (sig + n * tau))

        def f(t):
            self.rule_range(c, s, t)
            node = s.node(t)
            S = tree_spec(c, s.b, t)
            S.g(node), S.pr(node)
            (SL, nL), (SR, nR) = self.sums(c, A, out, s, t, [2 * node, 2 * node + 1])
            lk = out['ratios']['log_likelihood'](t)
            want = mll(nL, SL) + mll(nR, SR) - mll(nL + nR, SL + SR)
            ct, m = self.onetree(c, s, t)
            spec, v, ok = ct.spec(c, m.A), m.A.prelkv, And(t >= 0, t < s.T, Or(s.grow(t), s.allowed(t)))
            fac, sq = m.A.prelk['exp_factor'](), v['sqrt_term']()
            pos = [sig > 0, z3.ToReal(s.T) >= 1]
            for k, x, src in (('left', nL, [nL]), ('right', nR, [nR]), ('total', nL + nR, [nL, nR])):
                C = z3.ToReal(m.A.move_counts[k]())
                have(c, f'points in the {k} part', Implies(ok, And(C == x, *[y >= 0 for y in src])), auto=False)
                w = v['sigma2_' + k]()
                derive(c, f'variance in the {k} part', pos + [Implies(ok, And(C == x, *[y >= 0 for y in src]))], Implies(ok, And(w == sig + x * tau, w > 0)))
            sl, sr, st = (v['sigma2_' + k]() for k in ('left', 'right', 'total'))
            derive(c, 'factor', pos, fac == tau / (2 * sig))
            p3 = Implies(ok, And(sl > 0, sr > 0, st > 0))
            n0 = len(c.facts)
            log_facts(c, sq)
            logs = Implies(ok, sq == (Log(sig) + Log(st) - Log(sl) - Log(sr)) / 2)
            derive(c, 'logarithm of the quotient of variances', pos + [p3] + c.facts[n0:], logs)
            eqs = Implies(ok, And(sl == sig + nL * tau, sr == sig + nR * tau, st == sig + (nL + nR) * tau))
            n0 = len(c.facts)
            log_facts(c, want)
            args = [(sig + nL * tau, sl), (sig + nR * tau, sr), (sig + (nL + nR) * tau, st)]
            lg = [Implies(a == b, Log(a) == Log(b)) for a, b in args]
            wl = (Log(sig) + Log(st) - Log(sl) - Log(sr)) / 2
            quad = lambda n, S: tau * S * S / (2 * sig * (sig + n * tau))
            wq = quad(nL, SL) + quad(nR, SR) - quad(nL + nR, SL + SR)
            derive(c, 'specification, logarithms separated', pos + [eqs, p3] + c.facts[n0:], Implies(ok, want == wl + wq), valid=lg)
            for x, S_ in ((2 * node, SL), (2 * node + 1, SR)):
                have(c, 'the children of the node', Implies(ok, And(x >= 1, x < 2 * s.H, node >= 1)), auto=False)
            have(c, 'the move names the children', Implies(ok, And(spec.left == 2 * node, spec.right == 2 * node + 1)), auto=False)
            for a, x in ((spec.left, 2 * node), (spec.right, 2 * node + 1)):
                c.fact(Implies(a == x, spec.R0(a) == spec.R0(x)))
            have(c, 'residuals of the parts', Implies(ok, And(spec.RL == SL, spec.RR == SR)), auto=False)
            ex = fac * (SL * SL / sl + SR * SR / sr - (SL + SR) * (SL + SR) / st)
            derive(c, 'quadratic terms', pos + [eqs, p3, fac == tau / (2 * sig), Implies(ok, And(nL >= 0, nR >= 0))], Implies(ok, ex == wq))
            have(c, 'reported ratio', Implies(ok, lk == sq + fac * (spec.RL * spec.RL / sl + spec.RR * spec.RR / sr - (spec.RL + spec.RR) * (spec.RL + spec.RR) / st)), auto=False)
            goal = Implies(ok, lk == want)
            derive(c, 'all terms together', [Implies(ok, lk == sq + fac * (spec.RL * spec.RL / sl + spec.RR * spec.RR / sr - (spec.RL + spec.RR) * (spec.RL + spec.RR) / st)),
                                             Implies(ok, And(spec.RL == SL, spec.RR == SR)), logs, Implies(ok, ex == wq), Implies(ok, want == wl + wq)], goal)
            return goal
        return [Item('the likelihood ratio is the ratio of the marginal likelihoods of the split and the unsplit leaf', f, dims=(A.bart['split_trees'].shape[0],), auto=False)]

    def posterior(self, c, A, out, s):
        """new leaf values are normal draws with the conditional posterior mean and variance given the new tree"""
        sig, nl, ns = A.bart['sigma2'](), out['leaf_indices'], out['split_trees']

        def f(t, m):
            self.rule_range(c, s, t)
            node = s.node(t)
            tree_spec(c, s.b, t).g(node), tree_spec(c, s.b, t).pr(node)
            zs = [r for r in c.rand if r['kind'] == 'normal']
            if len(zs) != 1 or len(zs[0]['shape']) != 2:
                raise Unsupported('expected one array of normal draws')
            z = zs[0]['out'](t, m)
            (Sm, nm), (SL, nL), (SR, nR) = self.sums(c, A, out, s, t, [m, 2 * node, 2 * node + 1])
            ct, M = self.onetree(c, s, t)
            spec = ct.spec(c, M.A)
            kept = And(t >= 0, t < s.T, self.isleaf(s, ns, t, m))      # a leaf of the tree that is kept
            for x in (m, m / 2, node, 2 * node, 2 * node + 1, node / 2):
                s.split(t, x), ns(t, x), s.ghost(t, x)
            def points(t, m, w):
                nd, g = s.node(t), s.gl(t, w)
                return Implies(And(t >= 0, t < s.T, self.isleaf(s, ns, t, m)), (nl(t, w) == m) == If(m == nd, Or(g == 2 * nd, g == 2 * nd + 1), g == m))

            def ev(t, m, w):
                nl(t, w), s.gl(t, w), s.goes(t, w), s.li(t, w), self.rule_range(c, s, t)
                nd = s.node(t)
                tree_spec(c, s.b, t).g(nd), tree_spec(c, s.b, t).pr(nd)
                for x in (m, m / 2, nd, 2 * nd, 2 * nd + 1, nd / 2):
                    s.split(t, x), ns(t, x), s.ghost(t, x)

            def cases(t, m, w):
                lw, nd, acc = s.li(t, w), s.node(t), self.accepted(c, A, out, t)
                ch = lambda x: Or(x == 2 * nd, x == 2 * nd + 1)
                return [And(gg, aa, mm, ll) for gg in (s.grow(t), Not(s.grow(t))) for aa in (acc, Not(acc))
                        for mm in (m == nd, ch(m), And(m != nd, Not(ch(m)))) for ll in (lw == nd, ch(lw), And(lw != nd, Not(ch(lw))))]
            members = universal(c, ('members', s.T.get_id()), 'points of a leaf of the new tree', [A.bart['split_trees'].shape[0], 2 * A.bart['split_trees'].shape[1], A.bart['X'].shape[1]],
                                points, ev, cases=cases)
            # sums over the points of the leaf in the new tree
            SN = self.psum(c, A, out, s, t, lambda k: nl(t, k) == m)
            nN = c.sum(s.n, lambda k: If(nl(t, k) == m, z3.RealVal(1), z3.RealVal(0)), R)
            rec = lambda *xs: [c.rec_or_none(x) for x in xs]
            one = z3.RealVal(1)
            for new, same, l, r in ((*rec(SN, Sm, SL, SR),), (*rec(nN, nm, nL, nR),)):
                w1 = PV.linear(c, s.n, new, [(one, l), (one, r)])
                w2 = PV.linear(c, s.n, new, [(one, same)])
                for w in (w1, w2):
                    for x in (new, same, l, r):
                        x.f(w)
                    ev(t, m, w), members(t, m, w)
                    rel = Implies(And(w >= 0, w < s.n), points(t, m, w))
                    inr = And(kept, w >= 0, w < s.n)
                    derive(c, 'points of a leaf of the new tree: summands', [rel, Implies(kept, node >= 1)],
                           And(Implies(And(inr, m == node), new.f(w) == l.f(w) + r.f(w)), Implies(And(inr, m != node), new.f(w) == same.f(w))), ints=True)
            have(c, 'sums over the points of the leaf', Implies(kept, And(SN == If(m == node, SL + SR, Sm), nN == If(m == node, nL + nR, nm))), auto=False)
            var = 1 / (nN / sig + z3.ToReal(s.T))
            want = var / sig * SN + z * Sqrt(var)
            C = z3.ToReal(M.A.count_tree(m))
            have(c, 'number of points in the leaf', Implies(kept, And(C == nN, nN >= 0)), auto=False)
            names = Implies(And(kept, m == node), And(spec.left == 2 * node, spec.right == 2 * node + 1, 2 * node + 1 < 2 * s.H, node >= 1))
            have(c, 'the move names the children', names, auto=False)
            sums = Implies(kept, And(SN == If(m == node, SL + SR, Sm), nN == If(m == node, nL + nR, nm)))
            inr = lambda x: And(t >= 0, t < s.T, x >= 1, x < 2 * s.H, x != node)
            r0 = [Implies(inr(x), spec.R0(x) == S_) for x, S_ in ((m, Sm), (2 * node, SL), (2 * node + 1, SR))]
            cg = [Implies(a == x, spec.R0(a) == spec.R0(x)) for a, x in ((spec.left, 2 * node), (spec.right, 2 * node + 1))]
            for x in cg:
                c.fact(x)
            derive(c, 'residuals in the leaf', [names, sums, *r0, *cg], Implies(kept, spec.Rm(m) == SN), ints=True)
            mf, cl, val = M.A.prelf['mean_factor'](m), M.A.prelf['centered_leaves'](m), out['leaf_trees'](t, m)
            vc = 1 / (C / sig + z3.ToReal(s.T))
            q = [sig > 0, z3.ToReal(s.T) >= 1]
            have(c, 'mean factor', Implies(kept, mf == vc / sig), auto=False)
            have(c, 'deviation', Implies(kept, cl == z * Sqrt(vc)), auto=False)
            have(c, 'new value', Implies(kept, val == spec.Rm(m) * mf + cl), auto=False)
            goal = Implies(kept, val == want)
            derive(c, 'conditional posterior', q + [Implies(kept, And(C == nN, nN >= 0)), Implies(kept, spec.Rm(m) == SN), Implies(kept, mf == vc / sig), Implies(kept, cl == z * Sqrt(vc)),
                                                    Implies(kept, val == spec.Rm(m) * mf + cl)], goal, valid=[Implies(C == nN, Sqrt(vc) == Sqrt(var))])
            return goal
        return [Item('new leaf values are normal draws from the conditional posterior', f, dims=(A.bart['split_trees'].shape[0], 2 * A.bart['split_trees'].shape[1]), auto=False)]

    def mhratio(self, c, A, out, s):
        """transition-times-prior ratio of a move, and the same number for its reversal"""
        ns, b = out['split_trees'], A.bart
        aff, na = b['affluence_trees'], out['affluence_trees']
        pn, ppg, H = b['p_nonterminal'], b['p_propose_grow'], s.H
        lt = out['ratios']['log_trans_prior']
        half, one = z3.RealVal('1/2'), z3.RealVal(1)
        ind = lambda p: (lambda m: If(p(m), iv(1), iv(0)))

        def spec(small, affS, large, affL, node):
            gS, gL, pL = EL.growable(c, small, affS, H), EL.growable(c, large, affL, H), EL.prunable(c, large, H)
            w = c.sum(H, lambda m: If(gS(m), ppg(m), z3.RealVal(0)), R)
            npr, ng = c.sum(H, ind(pL), I), c.sum(H, ind(gL), I)
            for x in (w, npr, ng):
                c.rec_or_none(x)
            to_prune = If(ng > 0, half, one) / z3.ToReal(npr)
            to_grow = If(And(H > 1, small(iv(1)) != 0), half, one) * (ppg(node) / w)
            return NS(val=prior_ratio(c, pn, node) * to_prune / to_grow, w=w, npr=npr, ng=ng, gS=gS, gL=gL, pL=pL, small=small, large=large, affL=affL, affS=affS)

        def rel(a, t):
            return None if a is None else (lambda m: a(t, m))

        def sides(t, split, a, tag):
            """the ratio for growing the node of tree t in (split, a), and for pruning it"""
            memo = c.__dict__.setdefault('_mh', {})
            if (tag, t.get_id()) not in memo:
                node = s.node(t)
                sp, fl = (lambda m: split(t, m)), rel(a, t)
                cnt = None if s.mp is None else [self.count(c, A, s, t, x) for x in (2 * node, 2 * node + 1)]
                up = None if fl is None else (lambda m: If(m == 2 * node, cnt[0] >= 2 * s.mp, If(m == 2 * node + 1, cnt[1] >= 2 * s.mp, fl(m))))
                down = None if fl is None else (lambda m: If(m == node, T, fl(m)))
                memo[tag, t.get_id()] = (spec(sp, fl, upd(sp, node, 1), up, node), spec(upd(sp, node, 0), down, sp, fl, node), t)
            return memo[tag, t.get_id()][:2]

        def ev(t):
            node = s.node(t)
            self.rule_range(c, s, t)
            S = tree_spec(c, b, t)
            S.g(node), S.pr(node)
            for x in (node, 2 * node, 2 * node + 1, node / 2, iv(1)):
                s.split(t, x), ns(t, x), s.ghost(t, x)
                if aff is not None:
                    aff(t, x), na(t, x)
            return S

        def look(q, x):
            q.gS(x), q.gL(x), q.pL(x)

        def f(t):
            S, node = ev(t), s.node(t)
            grow, prune = sides(t, s.split, aff, 'pre')
            move = Or(s.grow(t), s.allowed(t))
            inT = And(t >= 0, t < s.T)
            rec = c.rec_or_none
            # the code's sums
            for mine, code in ((grow.w, S.w), (grow.npr, S.npr_after(node)), (prune.w, S.w_before(node)), (prune.npr, S.npr), (prune.ng, S.ng)):
                _sum_is(c, mine, code, H, lambda w: (look(grow, w), look(prune, w), s.split(t, w), s.split(t, w / 2)))
            # number of growable leaves after growing
            js = [node, 2 * node, 2 * node + 1]
            w = PV.updatem(c, rec(S.ng), rec(grow.ng), H, js)
            for x in [w] + js:
                look(grow, x), S.g(x), s.split(t, x), s.split(t, x / 2), rec(S.ng).f(x), rec(grow.ng).f(x)
            for q in (grow, prune):
                r = rec(q.npr)
                v = PV.elem(c, r, H, node)
                r.f(node)
                if v is not None:
                    r.f(v)
            par = s.mv['partial_ratio'](t)
            ppos = ppg(node) > 0
            rootful = Implies(And(inT, s.grow(t)), Iff(node != 1, And(H > 1, s.split(t, iv(1)) != 0)))
            self.rootrule(c, s, t, node)
            d = {}
            for q, on, kind in ((grow, s.grow(t), 'grow'), (prune, And(Not(s.grow(t)), s.allowed(t)), 'prune')):
                on = And(inT, on)
                wc, nc, prob = (S.w, S.npr_after(node), ppg(node) / S.w) if kind == 'grow' else (S.w_before(node), S.npr, ppg(node) / S.w_before(node))
                P = partial(c, pn, node, prob, nc)
                dfn = P == prior_ratio(c, pn, node) / (If(node != 1, half, one) * prob * z3.ToReal(nc))
                c.fact(dfn)                              # definition of the symbol
                pp = If(q.ng > 0, half, one)
                steps = [Implies(on, And(par == P)), Implies(on, q.w == wc), Implies(on, z3.ToReal(q.npr) == z3.ToReal(nc)), Implies(on, z3.ToReal(q.npr) >= 1), Implies(on, And(node >= 1, ppos)),
                         Implies(on, Iff(node != 1, And(H > 1, q.small(iv(1)) != 0)))]
                for g in steps:
                    have(c, f'{kind}: parts of the ratio', g, auto=False)
                self.positive_weight(c, q, on, node, kind)
                steps += [Implies(on, q.w > 0), dfn]
                code = s.mv['partial_ratio'](t) * pp
                derive(c, f'{kind}: ratio of the priors and of the probabilities of the two moves', steps, Implies(on, code == q.val))
                rep = Implies(on, lt(t) == Log(code))
                have(c, f'{kind}: reported value', rep, auto=False)
                derive(c, f'{kind}: reported ratio', [Implies(on, code == q.val), rep], Implies(on, lt(t) == Log(q.val)), valid=[Implies(code == q.val, Log(code) == Log(q.val))])
                d[kind] = Implies(on, lt(t) == Log(q.val))
            return list(d.values())

        def newflags(t, m):
            node = s.node(t)
            acc = self.accepted(c, A, out, t)
            leaf = And(m >= 1, m < H, ns(t, m) == 0, Or(m == 1, ns(t, m / 2) != 0))
            ch = Or(m == 2 * node, m == 2 * node + 1)
            cnt = [self.count(c, A, s, t, x) for x in (2 * node, 2 * node + 1)]
            return Implies(And(acc, leaf), na(t, m) == If(m == node, T, If(And(s.grow(t), ch), If(m == 2 * node, cnt[0], cnt[1]) >= 2 * s.mp, aff(t, m))))

        def back(t):
            ev(t)
            node = s.node(t)
            pre, post = sides(t, s.split, aff, 'pre'), sides(t, ns, na, 'post')
            acc = self.accepted(c, A, out, t)
            if s.mp is not None:
                ev0, cs = self.minparts(c, A, out, s)
                use = universal(c, ('newflags', s.T.get_id()), 'flags after an accepted move', [b['split_trees'].shape[0], b['split_trees'].shape[1]], newflags,
                                lambda t, m: (ev(t), ev0(t, m), na(t, m), aff(t, m), s.ghost(t, m)), cases=cs)
                def kids(t):
                    node = s.node(t)
                    cnt = [self.count(c, A, s, t, x) for x in (2 * node, 2 * node + 1)]
                    return Implies(And(s.allowed(t), Not(s.grow(t))), And(*[Implies(x < H, Iff(aff(t, x), n_ >= 2 * s.mp)) for x, n_ in zip((2 * node, 2 * node + 1), cnt)]))

                def kids_ev(t):
                    ev(t)
                    node = s.node(t)
                    for x in (2 * node, 2 * node + 1):
                        new, old = self.count(c, A, s, t, x), self.oldcount(c, s, t, x)
                        _sum_is(c, old, new, s.n, lambda w: (s.gl(t, w), s.li(t, w)))
                        rng = And(t >= 0, t < s.T, s.allowed(t), Not(s.grow(t)))
                        have(c, 'points of the children of a node to prune', Implies(rng, old == new), auto=False)
                        have(c, 'children of a node to prune are leaves', Implies(And(rng, x < H), And(s.split(t, x) == 0, s.split(t, x / 2) != 0, x >= 2)), auto=False)
                        have(c, 'flag of a child', Implies(And(rng, x < H), Iff(aff(t, x), old >= 2 * s.mp)), auto=False)
                par_ = universal(c, ('childflags', s.T.get_id()), 'flags of the children of a node that can be pruned', [b['split_trees'].shape[0]], kids, kids_ev)
                par = lambda t, w: par_(t)
            else:
                use = par = lambda *a: None
            res = []
            for on, x, y, what in ((And(s.grow(t), acc), pre[0], post[1], 'growth'), (And(Not(s.grow(t)), acc), pre[1], post[0], 'prune')):
                on = And(t >= 0, t < s.T, on)

                def at(w):
                    use(t, w), par(t, w), ev(t), look(x, w), look(y, w)
                    for i in (w, w / 2, 2 * w, 2 * w + 1):
                        s.split(t, i), ns(t, i)
                for k, fm in (('w', 'gS'), ('npr', 'pL'), ('ng', 'gL')):
                    a_, b_ = c.rec_or_none(getattr(x, k)), c.rec_or_none(getattr(y, k))
                    for w in PV.congr(c, a_, b_, H):
                        at(w)
                        same = Implies(And(on, w >= 0, w < H), Iff(getattr(x, fm)(w), getattr(y, fm)(w)))
                        have(c, f'the same nodes before and after the {what} ({k})', same, auto=False)
                        a_.f(w), b_.f(w)
                    have(c, f'the same sum before and after the {what} ({k})', Implies(on, getattr(x, k) == getattr(y, k)), auto=False)
                root = Implies(on, (x.small(iv(1)) != 0) == (y.small(iv(1)) != 0))
                have(c, 'the smaller trees have a rule at the root or not', root, auto=False)
                derive(c, f'the ratio of the reversal of an accepted {what} is the same number', [root] + [Implies(on, getattr(x, k) == getattr(y, k)) for k in ('w', 'npr', 'ng')], Implies(on, x.val == y.val), ints=True)
                res.append(Implies(on, x.val == y.val))
            return res
        dims = (b['split_trees'].shape[0],)
        return [Item('the transition and prior ratio is the tree prior ratio times reverse over forward proposal probability', f, dims=dims, auto=False),
                Item('the reversal of an accepted move has the same ratio', back, dims=dims, auto=False)]

    def rootrule(self, c, s, t, node):
        """an actual leaf other than the root has a rule at the root of its tree"""
        root_above(c, s.split, s.T, s.H, t, node)

    def positive_weight(self, c, q, on, node, kind):
        """the leaf to grow is among those that can be grown, so their total weight is positive"""
        r = c.rec_or_none(q.w)
        q.gS(node), r.f(node)
        v = PV.elem(c, r, list(r.ns.values())[0], node)
        if v is not None:
            r.f(v)
        have(c, f'{kind}: the node is growable in the smaller tree', Implies(on, q.gS(node)), auto=False)
        have(c, f'{kind}: the total weight is positive', Implies(on, q.w > 0), auto=False)

    def leafidx_req(self, c, A, s):
        return [Item('every point is assigned to the leaf the rules lead it to', lambda t, k: self.reach(c, A, s).R(t, k)(s.li(t, k)), trig=s.li, maxdepth=4)]


for _k, _v in vars(_Views2).items():
    if not _k.startswith('__'):
        setattr(Stage, _k, _v)


@register
class StageWF(Stage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#C12'
    VIEW = ('wellformed',)
    NEEDS = ('wf',)


@register
class StageLeaves(Stage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#C13'
    VIEW = ('leafidx',)
    NEEDS = ('wf', 'reach')


@register
class StageMin(Stage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#C14'
    VIEW = ('minleaf',)
    NEEDS = ('wf', 'min')
    VARS = [(SV[0], True, LI[0], True, None), (SV[-1], True, LI[2], False, 'sym'), (SV[1], True, LI[1], False, 'sym')]


@register
class StageResid(Stage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#C15'
    VIEW = ('residual',)
    NEEDS = ('wf', 'resid')


@register
class StageLik(Stage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#C18'
    VIEW = ('likelihood',)
    NEEDS = ('wf',)
    VARS = [(SV[0], True, LI[0], True, None), (SV[-1], False, LI[2], True, 'sym')]


@register
class StagePost(Stage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#C19'
    VIEW = ('posterior',)
    NEEDS = ('wf',)
    VARS = [(SV[0], True, LI[0], True, None), (SV[-1], False, LI[2], False, 'sym')]


@register
class StageRatio(Stage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#C17'
    VIEW = ('mhratio',)
    NEEDS = ('wf', 'ratio', 'min', 'flags')
    VARS = [(SV[0], True, LI[0], True, None), (SV[-1], False, LI[2], True, 'sym')]

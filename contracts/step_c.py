"""Contracts of the MCMC step of bartz.mcmcstep: proposals for the whole forest, acceptance, state update."""
from dv.fw import *
from dv.fw import Contract, Item, register, houdini, install_invariants
from dv.theory import *
from dv import ext, prove as PV
import bartz.jaxext as _jx
from .grove_c import tree_dims
from .sampler_c import SV, PDT, ranges, use_range, kspec, BIG
from .moves_c import wf_tree, partial, depthD, pn_ok, upd, Eligible, dep

EL = Eligible()


class State(Contract):
    """a sampler state as documented by mcmcstep.init"""
    KEYS = None

    def variants(self):
        return [(s, v, a) for s, v in SV for a in (True, False)]

    def dims(self, E, v):
        D, H = tree_dims(E, 0, 23)
        return NS(D=D, H=H, p=E.var('p', *PDT[v[1]]), T=E.var('T', 1, 2 ** 16), n=E.var('n', 0 if self.N0 else 1, 2 ** 24))
    N0 = True

    def li_dtype(self, v):
        return 'uint32'

    def state(self, d, v, ratios=False, rb=None, cb=None):
        s = dict(leaf_trees=Spec((d.T, 2 * d.H), 'float32'), var_trees=Spec((d.T, d.H), v[1]), split_trees=Spec((d.T, d.H), v[0]),
                 resid=Spec((d.n,), 'float32'), sigma2=Spec((), 'float32'),
                 grow_prop_count=Spec((), 'int32'), grow_acc_count=Spec((), 'int32'), prune_prop_count=Spec((), 'int32'), prune_acc_count=Spec((), 'int32'),
                 p_nonterminal=Spec((d.D + 1,), 'float32'), p_propose_grow=Spec((d.H,), 'float32'),
                 sigma2_alpha=Spec((), 'float32'), sigma2_beta=Spec((), 'float32'), max_split=Spec((d.p,), v[0]),
                 y=Spec((d.n,), 'float32'), X=Spec((d.p, d.n), v[0]), leaf_indices=Spec((d.T, d.n), self.li_dtype(v)),
                 min_points_per_leaf=Spec((), 'int32') if v[2] else None,
                 affluence_trees=Spec((d.T, d.H), 'bool') if v[2] else None,
                 opt=_jx.LeafDict(small_float=np.dtype('float32'), large_float=np.dtype('float32'), require_min_points=v[2], resid_batch_size=rb, count_batch_size=cb))
        if ratios:
            s['ratios'] = dict(log_trans_prior=Spec((d.T,), 'float32'), log_likelihood=Spec((d.T,), 'float32'))
        return s


def tree_args(bart, t):
    aff = bart['affluence_trees']
    return NS(var_tree=bart['var_trees'].at(t), split_tree=bart['split_trees'].at(t), affluence_tree=None if aff is None else aff.at(t),
              max_split=bart['max_split'], p_nonterminal=bart['p_nonterminal'], p_propose_grow=bart['p_propose_grow'])


def prior_req(c, bart):
    """preconditions on the fixed hyperparameters"""
    ppg, pn, ms = bart['p_propose_grow'], bart['p_nonterminal'], bart['max_split']
    return [Item('weights of nodes are positive', lambda m: And(ppg(m) >= 0, Implies(m >= 1, ppg(m) > 0)), trig=ppg),
            Item('depth probabilities', lambda d: And(pn(d) >= 0, pn(d) < 1), trig=pn),
            Item('cutpoint indices fit in 31 bits', lambda i: ms(i) < BIG, trig=ms)]


def wf_req(c, bart, var='var_trees', split='split_trees', maxdepth=3):
    """every tree of the state is well formed"""
    vt, st, ms = bart[var], bart[split], bart['max_split']
    p, H = c.z(ms.shape[0]), c.z(st.shape[1])
    items = []
    n = len(wf_tree(c, vt.at(iv(0)), st.at(iv(0)), ms, p, H))
    labels = [l for l, _ in wf_tree(c, vt.at(iv(0)), st.at(iv(0)), ms, p, H)]
    for q in range(n):
        items.append(Item(labels[q], lambda t, m, q=q: wf_tree(c, vt.at(t), st.at(t), ms, p, H)[q][1](m), trig=st, maxdepth=maxdepth))
    items.append(Item('boundaries fit in 31 bits', lambda t, m: st(t, m) < BIG, trig=st, maxdepth=maxdepth))
    return items


class TreeSpec:
    """specification quantities of one tree"""

    def __init__(self, c, A):
        self.c, self.A = c, A
        self.p, self.H, self.D = c.z(A.max_split.shape[0]), c.z(A.split_tree.shape[0]), depthD(c)
        H = self.H
        self.g = EL.growable(c, A.split_tree, A.affluence_tree, H)
        self.pr = EL.prunable(c, A.split_tree, H)
        self.ng = c.sum(H, lambda m: If(self.g(m), iv(1), iv(0)), I)
        self.w = c.sum(H, lambda m: If(self.g(m), A.p_propose_grow(m), mk(0, A.p_propose_grow(m))), R)
        self.npr = c.sum(H, lambda m: If(self.pr(m), iv(1), iv(0)), I)
        self.hasrule = And(H > 1, A.split_tree(iv(1)) != 0)

    def npr_after(self, node):
        s_new = upd(self.A.split_tree, node, 1)
        pr = EL.prunable(self.c, s_new, self.H)
        return self.c.sum(self.H, lambda m: If(pr(m), iv(1), iv(0)), I)

    def w_before(self, node):
        s_old = upd(self.A.split_tree, node, 0)
        aff = self.A.affluence_tree
        g = EL.growable(self.c, s_old, None if aff is None else (lambda m: If(m == node, T, aff(m))), self.H)
        return self.c.sum(self.H, lambda m: If(g(m), self.A.p_propose_grow(m), mk(0, self.A.p_propose_grow(m))), R)

    def admissible(self, node, var, split):
        Lo, Hi = ranges(self.c, self.A.var_tree, self.A.split_tree, self.A.max_split, self.p, var)
        self.c.fact(Lo(iv(1)) == 0)
        return And(var >= 0, var < self.p, Lo(node) < split, split < Hi(node))


def tree_spec(c, bart, t):
    memo = c.__dict__.setdefault('_treespec', {})
    k = (id(bart['split_trees']), id(bart['var_trees']), t.get_id())
    if k not in memo:
        memo[k] = (TreeSpec(c, tree_args(bart, t)), bart, t)
    return memo[k][0]


def moves_items(c, bart, mv, ratio=True):
    """what a proposal for every tree satisfies (ensures of sample_moves, assumed by the acceptance stage)"""
    node, grow, allowed = mv['node'], mv['grow'], mv['allowed']
    tr = dict(trig=node, maxdepth=3, auto=False)

    def S(t):
        node(t)
        return tree_spec(c, bart, t)
    H = c.z(bart['split_trees'].shape[1])
    it = [Item('number of growable leaves', lambda t: And(mv['num_growable'](t) == S(t).ng, S(t).ng >= 0), **tr),
          Item('a grow move names an eligible leaf', lambda t: Implies(grow(t), And(S(t).ng > 0, node(t) >= 1, node(t) < H, S(t).g(node(t)))), **tr),
          Item('a prune move is allowed iff the tree has a rule', lambda t: Implies(Not(grow(t)), Iff(allowed(t), S(t).hasrule)), **tr),
          Item('an allowed prune move names a decision node above two leaves', lambda t: Implies(And(Not(grow(t)), allowed(t)), And(node(t) >= 1, node(t) < H, S(t).pr(node(t)))), **tr),
          Item('a tree without moves gets the sentinel', lambda t: Implies(And(Not(grow(t)), Not(allowed(t))), node(t) == 2 * H), **tr),
          Item('children of the chosen node', lambda t: And(mv['left'](t) == 2 * node(t), mv['right'](t) == 2 * node(t) + 1), **tr),
          Item('an allowed rule is admissible at its node', lambda t: Implies(And(grow(t), allowed(t)), S(t).admissible(node(t), mv['grow_var'](t), mv['grow_split'](t))), **tr),
          Item('a move with an admissible rule is allowed', lambda t: Implies(And(grow(t), S(t).admissible(node(t), mv['grow_var'](t), mv['grow_split'](t))), allowed(t)), **tr),
          Item('the logarithm of the acceptance draw is at most 0', lambda t: (node(t), mv['logu'](t) <= 0)[1], **tr),
          Item('only the axis of the node to grow changes', lambda t, m: Implies(And(grow(t), m != node(t)), mv['var_trees'](t, m) == bart['var_trees'](t, m)), trig=mv['var_trees'], maxdepth=3, auto=False),
          Item('without a grow move the axes of the rules do not change', lambda t, m: Implies(And(Not(grow(t)), bart['split_trees'](t, m) != 0), mv['var_trees'](t, m) == bart['var_trees'](t, m)), trig=mv['var_trees'], maxdepth=3, auto=False),
          Item('the axis of the node to grow is the proposed one', lambda t: Implies(And(grow(t), allowed(t)), mv['var_trees'](t, node(t)) == mv['grow_var'](t)), **tr)]
    if ratio:
        pn, ppg = bart['p_nonterminal'], bart['p_propose_grow']
        it.append(Item('ratio of the move', lambda t: Implies(Or(grow(t), allowed(t)), And(
            Implies(grow(t), And(S(t).w > 0, mv['partial_ratio'](t) == partial(c, pn, node(t), ppg(node(t)) / S(t).w, S(t).npr_after(node(t))))),
            Implies(Not(grow(t)), mv['partial_ratio'](t) == partial(c, pn, node(t), ppg(node(t)) / S(t).w_before(node(t)), S(t).npr)))), **tr))
    return it


@register
class SampleMoves(State):
    name = 'mcmcstep.sample_moves'
    auto_req = False

    def args(self, d, v):
        return dict(bart=self.state(d, v), key=kspec())

    def requires(self, c, A):
        b = A.bart
        return prior_req(c, b) + wf_req(c, b)

    def help(self, c, A, out, t):
        """instances for tree t"""
        S, node = tree_spec(c, A.bart, t), out['node'](t)
        for r in c.rand:
            if r['kind'] == 'uniform' and len(r['shape']) == 2:
                u = r['out'](iv(1), t)
                r['out'](iv(0), t)
                c.fact(Implies(And(u >= 0, u < 1), Log(1 - u) <= 0))
        for cr in c.calls:
            if cr['contract'].name in ('mcmcstep.prune_move', 'mcmcstep.grow_move') and cr['nb'] == 1:
                m = cr['inst']((t,)).out['node']()
                pairs = [(S.w_before(node), S.w_before(m))] if cr['contract'].name == 'mcmcstep.prune_move' else [(S.npr_after(node), S.npr_after(m))]
                for a, b in pairs:
                    a, b = c.rec_or_none(a), c.rec_or_none(b)
                    if a is not None and b is not None:
                        for w in PV.congr(c, a, b, S.H):
                            a.f(w), b.f(w)

    def ensures(self, c, A, out):
        items = moves_items(c, A.bart, out)
        if not hasattr(A, 'assuming'):
            for x in items:
                if len(x.dims) == 1:
                    x.fn = (lambda t, f=x.fn: (self.help(c, A, out, t), f(t))[1])
            us = [r for r in c.rand if r['kind'] == 'uniform']
            if len(us) != 1 or len(c.rand) != 1 or len(us[0]['shape']) != 2:
                raise Unsupported('expected one matrix of uniform draws')
            u = us[0]['out']
            S = lambda t: tree_spec(c, A.bart, t)
            half = z3.RealVal('1/2')
            sel = lambda w: (lambda t: And(Implies(S(t).ng == 0, Not(out['grow'](t))),
                                           Implies(And(S(t).ng > 0, Not(S(t).hasrule)), out['grow'](t)),
                                           Implies(And(S(t).ng > 0, S(t).hasrule), Iff(out['grow'](t), u(iv(w), t) < half))))
            items.append(Item('grow and prune are equally likely when both are possible, the possible one is certain otherwise', sel(0), trig=out['node'], export=False, auto=False))
            items.append(Item('the acceptance draw is the logarithm of an independent uniform', lambda t: out['logu'](t) == Log(1 - u(iv(1), t)), trig=out['node'], export=False, auto=False))
        return items

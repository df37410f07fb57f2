"""Contract of bartz.mcmcstep.init: the initial state has the documented contents and satisfies the invariants of the step."""
from dv.fw import *
from dv.fw import Contract, Item, register
from dv.theory import *
from dv import prove as PV
from .sampler_c import SV, BIG, PDT
from .step_c import prior_req, wf_req
from .accept_c import LI
from .grove_c import tree_dims
from .compose_c import Whole


@register
class BatchSize(Contract):
    """sizes of the batches of the sums over data points: None or a positive number (pure Python on sizes and the platform name)"""
    name = 'mcmcstep._choose_suffstat_batch_size'
    bounded = 'executed for 0 <= n <= 5000 and both platforms'

    def stub(self, orig):
        @functools.wraps(orig)
        def f(resid_batch_size, count_batch_size, y, forest_size):
            return (5 if resid_batch_size == 'auto' else resid_batch_size), (None if count_batch_size == 'auto' else count_batch_size)
        return f


@register
class Init(Whole):
    name = 'mcmcstep.init'
    # (cutpoint and axis types, minimum leaf size given, leaf index type and depths, ratios)
    def variants(self):
        return [(SV[0], True, ('uint8', 0, 6), True), (SV[0], False, ('uint16', 7, 14), False), (SV[-1], True, ('uint32', 15, 22), False), (SV[1], False, ('uint8', 0, 6), True)]

    def dims(self, E, v):
        import os
        dd = os.environ.get('DV_DEPTH')
        D, H = tree_dims(E, v[2][1], v[2][2]) if dd is None or v[2][1] == 0 else tree_dims(E, 0, 22)
        return NS(D=D, H=H, p=E.var('p', *PDT[v[0][1]]), T=E.var('T', 1, 2 ** 16), n=E.var('n', 1, 2 ** 24), ms=v[0][0])

    def args(self, d, v):
        return dict(X=Spec((d.p, d.n), v[0][0]), y=Spec((d.n,), 'float32'), max_split=Spec((d.p,), v[0][0]), num_trees=d.T, p_nonterminal=Spec((d.D,), 'float32'),
                    sigma2_alpha=Spec((), 'float32'), sigma2_beta=Spec((), 'float32'), min_points_per_leaf=Spec((), 'int32') if v[1] else None, save_ratios=v[3])

    def requires(self, c, A):
        pn = A.p_nonterminal
        it = [Item('cutpoint indices fit in 31 bits', lambda i: A.max_split(i) < BIG, trig=A.max_split),
              Item('depth probabilities', lambda d: And(pn(d) > 0, pn(d) < 1), trig=pn)]
        if A.min_points_per_leaf is not None:
            it.append(Item('minimum leaf size', lambda: And(A.min_points_per_leaf() >= 0, A.min_points_per_leaf() < 2 ** 30)))
        return it

    def ensures(self, c, A, out):
        D, H = c.env.pow2[0]
        p, n, T_ = A.X.shape[0], A.X.shape[1], A.num_trees
        mp = A.min_points_per_leaf
        its = []

        def doc(name, shape, dtype, val, arr=None, **kw):
            x = arr if arr is not None else out.get(name)
            if x is None:
                its.append(Item(f'{name} is there', lambda: F))
                return
            its.append(Item(f'{name}: shape and type', lambda: bv(str(tuple(x.shape)) == str(tuple(shape)) and (dtype is None or str(x.dtype) == dtype))))
            its.append(Item(f'{name}: value', (lambda *i: val(x(*i), *i)) if shape else (lambda: val(x())), dims=x.shape if shape else None, **kw))
        zero = lambda v, *i: v == mk(0, v)
        doc('leaf_trees', (T_, 2 * H), 'float32', zero)
        vdt = next(k for k, (a, b) in PDT.items() if c.env.entail(And(c.z(p) >= a, c.z(p) <= b)))
        doc('var_trees', (T_, H), vdt, zero)
        doc('split_trees', (T_, H), str(A.max_split.dtype), zero)
        doc('resid', (n,), 'float32', lambda v, k: v == A.y(k))
        doc('y', (n,), 'float32', lambda v, k: v == A.y(k))
        doc('X', (p, n), str(A.X.dtype), lambda v, j, k: v == A.X(j, k))
        doc('max_split', (p,), str(A.max_split.dtype), lambda v, j: v == A.max_split(j))
        ldt = next(k for k, hi in (('uint8', 256), ('uint16', 2 ** 16), ('uint32', 2 ** 32)) if c.env.entail(2 * c.z(H) <= hi))
        doc('leaf_indices', (T_, n), None, lambda v, *i: v == 1)
        its.append(Item('leaf_indices: the smallest unsigned type that holds every node index', lambda: bv(str(out['leaf_indices'].dtype) == ldt)))
        pn = A.p_nonterminal
        doc('p_nonterminal', (D + 1,), 'float32', lambda v, d: v == If(d < c.z(D), pn(d), mk(0, v)))

        def level(v, m):
            d = self.depth(c, m)
            return Implies(m >= 1, And(P2(d) <= m, m < 2 * P2(d), d >= 0, d < c.z(D), v == pn(d)))
        doc('p_propose_grow', (H,), 'float32', level)
        for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'):
            doc(k, (), None, zero)
        for k in ('sigma2_alpha', 'sigma2_beta'):
            doc(k, (), 'float32', lambda v, k=k: v == getattr(A, k)())
        doc('sigma2', (), 'float32', lambda v: v > 0)
        if mp is None:
            its.append(Item('no minimum leaf size', lambda: bv(out['min_points_per_leaf'] is None and out['affluence_trees'] is None)))
        else:
            doc('min_points_per_leaf', (), None, lambda v: v == mp())
            doc('affluence_trees', (T_, H), 'bool', lambda v, t, m: Iff(v, And(m == 1, c.z(n) >= 2 * mp())))
        o = out['opt']
        its.append(Item('options', lambda: bv(o['require_min_points'] is (mp is not None) and o['small_float'] == np.dtype('float32') and o['large_float'] == np.dtype('float32')
                                              and o['resid_batch_size'] == 5 and o['count_batch_size'] is None)))
        if getattr(A, 'save_ratios', False):
            for k in ('log_trans_prior', 'log_likelihood'):
                x = out.get('ratios', {}).get(k)
                its.append(Item(f'ratios: {k}', lambda x=x: bv(x is not None and str(tuple(x.shape)) == str((T_,)))))
        else:
            its.append(Item('no ratios', lambda: bv('ratios' not in out)))
        # the result satisfies what the step requires of a state
        B_ = NS(bart=out)
        self.ms_bound(c, A, out)
        for x in Whole.requires(self, c, B_):
            its.append(Item('invariant of the step: ' + x.label, (lambda *i, x=x: self.inv(c, x, B_, *i)), dims=x.dims, maxdepth=x.maxdepth))
        return its

    def ms_bound(self, c, A, out):
        for r in self.requires(c, A):
            r.assume(c)

    def depth(self, c, m):
        for cr in c.calls:
            if cr['contract'].name == 'grove.tree_depths':
                d = cr['inst'](()).out(m)
                p2(c, d, c.z(c.env.pow2[0][0]))
                return d
        raise Unsupported('depths of nodes do not come from tree_depths')

    def inv(self, c, x, B_, *i):
        st = self.state_spec(c, B_)
        if len(i) == 2 and 'rules lead' in x.label:
            R_ = self.reach(c, B_, st).R(*i)
            R_.down(iv(1))
        if len(i) == 1 and 'weights' in x.label:
            self.depth(c, i[0])
        if 'minus the forest' in x.label:
            pass
        f = x.fn(*i) if callable(x.fn) and not z3.is_expr(x.fn) else x.fn
        if 'flagged as growable' in x.label or 'minimum number' in x.label:
            t, m = i
            cnt = self.oldcount(c, st, t, m)
            r = c.rec_or_none(cnt)
            if r is not None:
                PV.constant(c, r, st.n, If(m == 1, iv(1), iv(0)))
        return f

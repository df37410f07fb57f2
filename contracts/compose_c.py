"""The MCMC step as a whole: bartz.mcmcstep.step calls the verified stages, in order, on the state and the proposals."""
from dv.fw import *
from dv.fw import Contract, Item, register
from dv.theory import *
from dv import ext, prove as PV
from .sampler_c import SV, kspec
from .step_c import State, prior_req, wf_req
from .accept_c import Stage, LI, ghost

FIXED = ('p_nonterminal', 'p_propose_grow', 'sigma2_alpha', 'sigma2_beta', 'max_split', 'y', 'X', 'min_points_per_leaf')


@register
class AnyStage(Stage):
    """the acceptance stage with the preconditions of all its views together (its results are described by those views)"""
    name = 'mcmcstep.accept_moves_and_sample_leaves#step'
    NEEDS = ('wf', 'reach', 'resid', 'min', 'ratio', 'flags')
    auto_req = False

    def ensures(self, c, A, out):
        return self.frame(c, A, out, None)

    def frame(self, c, A, out, s):
        """data, prior settings and the noise variance are not changed"""
        its = []
        for k in FIXED + ('sigma2',):
            x, y = A.bart[k], out.get(k)
            if x is None or y is None:
                its.append(Item(f'{k} is unchanged', lambda ok=x is None and y is None: bv(ok)))
            else:
                its.append(Item(f'{k} is unchanged', lambda *i, x=x, y=y: [bv(str(y.dtype) == str(x.dtype)), y(*i) == x(*i)], dims=None if not x.shape else x.shape, trig=y if x.shape else None, maxdepth=3, auto=False))
        return its


@register
class StageFrame(AnyStage):
    name = 'mcmcstep.accept_moves_and_sample_leaves#frame'


class Whole(Stage):
    VARS = [(SV[0], True, LI[0], True, None), (SV[0], False, LI[1], False, 'sym'), (SV[-1], True, LI[2], False, None), (SV[1], False, LI[2], True, None)]

    def args(self, d, v):
        a = Stage.args(self, d, v)
        return dict(bart=a['bart'], key=a['key'])

    def requires(self, c, A):
        s = self.state_spec(c, A)
        b = A.bart
        it = prior_req(c, b) + wf_req(c, b)
        it += [Item('leaf indices are leaves', lambda t, k: self.isleaf(s, s.split, t, s.li(t, k)), trig=s.li, maxdepth=4),
               Item('noise variance is positive', lambda: b['sigma2']() > 0)]
        it += self.leafidx_req(c, A, s) + self.resid_req(c, A, s) + self.minleaf_req(c, A, s) + self.flags_req(c, A, s)
        if s.mp is not None:
            it.append(Item('minimum leaf size', lambda: And(s.mp >= 0, s.mp < 2 ** 30)))
        return it

    def state_spec(self, c, A):
        if hasattr(A, '_st'):
            return A._st
        b = A.bart
        s = A._st = NS(b=b)
        s.T, s.H, s.n, s.p = c.z(b['split_trees'].shape[0]), c.z(b['split_trees'].shape[1]), c.z(b['X'].shape[1]), c.z(b['X'].shape[0])
        s.li, s.X, s.split, s.var, s.leaf = b['leaf_indices'], b['X'], b['split_trees'], b['var_trees'], b['leaf_trees']
        s.mp = None if b['min_points_per_leaf'] is None else b['min_points_per_leaf']()
        s.ghost = ghost(c, b)
        return s

    def stage_call(self, c):
        r = [cr for cr in c.calls if cr['contract'].name == AnyStage.name]
        mv = [cr for cr in c.calls if cr['contract'].name == 'mcmcstep.sample_moves']
        if len(r) != 1 or len(mv) != 1 or r[0]['nb'] or mv[0]['nb']:
            raise Unsupported('expected one proposal stage and one acceptance stage')
        return r[0]['inst'](()), mv[0]['inst'](())


def flat(o):
    """(path, array) pairs of a nested dict of arrays"""
    for k, v in o.items():
        if k == 'opt':
            continue
        if isinstance(v, dict):
            for q, x in flat(v):
                yield (k,) + q, x
        else:
            yield (k,), v


def get(o, path):
    for k in path:
        o = o[k] if isinstance(o, dict) and k in o else None
    return o


class Same(Whole):
    """everything but `except_` in the result is what the acceptance stage produced from the given state and its proposals"""
    EXCEPT = ()

    def ensures(self, c, A, out):
        st, mv = self.stage_call(c)
        its = []

        def same(label, x, y):
            if x is None or y is None:
                its.append(Item(label, lambda: bv(x is None and y is None)))
            elif kind(x.dtype) == 'k':
                pass
            else:
                its.append(Item(label, lambda *i: [bv(x.ndim == y.ndim and str(x.dtype) == str(y.dtype)), x(*i) == y(*i)], dims=x.shape, auto=False))
        for path, x in flat(st.A.bart):
            same(f'the acceptance stage receives {".".join(path)} of the state', x, get(A.bart, path))
        for path, x in flat(mv.A.bart):
            same(f'the proposal stage receives {".".join(path)} of the state', x, get(A.bart, path))
        for path, x in flat(st.A.moves):
            same(f'the acceptance stage receives the proposed {".".join(path)}', x, get(mv.out, path))
        for path, x in flat(st.out):
            if path[0] not in self.EXCEPT:
                same(f'{".".join(path)} is that of the acceptance stage', get(out, path), x)
        its.append(Item('the result has the fields of the acceptance stage', lambda: bv({p for p, _ in flat(out)} == {p for p, _ in flat(st.out)})))
        return its


@register
class SampleTrees(Same):
    name = 'mcmcstep.sample_trees'


@register
class Step(Same):
    name = 'mcmcstep.step'
    EXCEPT = ('sigma2',)


@register
class Sigma(Whole):
    """the noise variance of a step, given the residuals of that step"""
    name = 'mcmcstep.step#C20'

    def ensures(self, c, A, out):
        b, r = A.bart, out['resid']
        n = c.z(A.bart['X'].shape[1])
        gs = [d for d in c.rand if d['kind'] == 'gamma']
        if len(gs) != 1 or gs[0]['shape'] != ():
            raise Unsupported('expected one gamma draw')
        g = gs[0]['out']()
        ssq = c.sum(n, lambda k: r(k) * r(k), R)
        s2 = out['sigma2']()

        def value():
            for q in list(c.sum_order):
                if not q.bound and q.sort == R and q.ps is not c.rec_of(ssq).ps:
                    for x in list(q.ns.values()):
                        if x.eq(n):
                            w = PV.congr(c, q, c.rec_of(ssq), n)
                            for y in w:
                                q.f(y), r(y)
            r(PV.nonneg(c, c.rec_of(ssq), n))
            return s2 * g == b['sigma2_beta']() + ssq / 2

        def shape():
            return ext.rscalar(c, gs[0]['a'], ()) == b['sigma2_alpha']() + z3.ToReal(n) / 2

        def positive():
            value()
            return s2 > 0
        return [Item('noise variance times the gamma draw is the posterior scale, with the residuals of the same step', value, auto=False),
                Item('shape of the gamma draw', shape, auto=False),
                Item('the noise variance is positive', positive, auto=False)]

    def requires(self, c, A):
        return Whole.requires(self, c, A) + [Item('noise prior is proper', lambda: And(A.bart['sigma2_alpha']() > 0, A.bart['sigma2_beta']() > 0))]

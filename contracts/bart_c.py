"""Contract of bartz.BART.gbart: settings derived from the data, what the sampler is given, and how its output is transformed back.

The constructor, predict and the yhat_train properties run as they are; the sampler (mcmcstep.init, mcmcloop.run_mcmc), the evaluation of traces and the binning
of predictors, which have their own contracts, are unknown functions here that record what they are given."""
from dv.fw import *
from dv.fw import Contract, Item, register
from dv.theory import *
from dv.sem import Sqrt, Pow
from dv.prims import GammaInccInv
from dv.interp import is_dyn, key_dtype
import jax.numpy as jnp
import os


DEPTH = os.environ.get('DV_DEPTH')       # re-verification at 1, 2, 3 points


class Opaque(Contract):
    def ensures(self, c, A, out):
        return []

    def apply(self, c, inst, a, kw, specs):
        out = super().apply(c, inst, a, kw, specs)
        inst.A.out = out
        return out


@register
class OUniform(Opaque):
    name = 'prepcovars.uniform_splits_from_matrix#opaque'

    def out_specs(self, X, num_bins):
        return Spec((X.shape[0], num_bins - 1), 'float32'), Spec((X.shape[0],), 'uint8')


@register
class OQuant(Opaque):
    name = 'prepcovars.quantilized_splits_from_matrix#opaque'

    def out_specs(self, X, max_bins):
        return Spec((X.shape[0], max_bins - 1), X.dtype), Spec((X.shape[0],), 'uint8')


@register
class OBin(Opaque):
    name = 'prepcovars.bin_predictors#opaque'

    def out_specs(self, X, splits):
        return Spec(X.shape, 'uint8')


@register
class OInit(Opaque):
    """keeps the predictors (C25)"""
    name = 'mcmcstep.init#opaque'

    def out_specs(self, **kw):
        return dict(X=Spec(kw['X'].shape, kw['X'].dtype), y=Spec(kw['y'].shape, 'float32'), sigma2=Spec((), 'float32'))

    def apply(self, c, inst, a, kw, specs):
        out = super().apply(c, inst, a, kw, specs)
        out['X'] = kw['X']
        return out


@register
class ORun(Opaque):
    """leaves the predictors as they are (C20, C22)"""
    name = 'mcmcloop.run_mcmc#opaque'
    E = None

    def out_specs(self, bart, n_burn, n_save, n_skip, callback, key):
        tr = lambda n, d=self.E: dict(sigma2=Spec((n,), 'float32'), leaf_trees=Spec((n, d.T, d.L), 'float32'), var_trees=Spec((n, d.T, d.L), 'uint8'), split_trees=Spec((n, d.T, d.L), 'uint8'))
        return {k: Spec(v.shape, v.dtype) for k, v in bart.items()}, dict(sigma2=Spec((n_burn,), 'float32')), tr(n_save)

    def apply(self, c, inst, a, kw, specs):
        out = super().apply(c, inst, a, kw, specs)
        out[0]['X'] = inst.A.bart['X']
        return out


@register
class OEval(Opaque):
    name = 'mcmcloop.evaluate_trace#opaque'

    def out_specs(self, trace, X):
        return Spec((trace['sigma2' if 'sigma2' in trace else 'leaf_trees'].shape[0], X.shape[1]), 'float32')


OPAQUE = ['prepcovars.uniform_splits_from_matrix#opaque', 'prepcovars.quantilized_splits_from_matrix#opaque', 'prepcovars.bin_predictors#opaque',
          'mcmcstep.init#opaque', 'mcmcloop.run_mcmc#opaque', 'mcmcloop.evaluate_trace#opaque', 'jnp.linalg.lstsq']


def val(x):
    """term of an attribute or argument: Python number, array or traced scalar"""
    if isinstance(x, Arr):
        return rl(x())
    return z3.RealVal(str(__import__('fractions').Fraction(float(np.float32(x)))))      # as JAX reads it


def rl(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def made(c, name):
    return [cr['inst'](()).A for cr in c.calls if isinstance(cr, dict) and cr['contract'].name == name]


def same(label, a, b):
    """two arrays are equal"""
    return [Item(label, lambda *i: a(*i) == b(*i), dims=tuple(a.shape)), Item(label + ' (shape)', lambda: bv(tuple(map(str, a.shape)) == tuple(map(str, b.shape))))]


OPT = ('lamda', 'sigest', 'offset')
NUM = dict(sigdf=3, sigquant=0.9, k=2, power=2, base=0.95)


def extremes(c, y, N):
    '''least and largest element (0 < N)'''
    n = c.z(N)
    if num(n) is not None:
        xs = [y(iv(k)) for k in range(num(n))] or [z3.RealVal(0)]
        a = b = xs[0]
        for x in xs[1:]:
            a, b = If(x < a, x, a), If(x > b, x, b)
        return a, b
    lo, hi = c.fresh('lo', n=N), c.fresh('hi', n=N)
    a, b = y(lo), y(hi)
    c.fact(Implies(n >= 1, And(lo >= 0, lo < n, hi >= 0, hi < n)))
    c.quants.append((1, lambda i: Implies(And(i >= 0, i < n), And(a <= y(i), y(i) <= b)), 'extremes'))
    c.add_pool(lo, hi)
    return a, b


class Frame:
    '''what the code may use of a data frame: column names, values by rows'''
    columns = ['a', 'b']

    def __init__(self, x):
        self.x = x

    def to_numpy(self):
        return self.x


class Series:
    name = 'y'

    def __init__(self, y):
        self.y = y

    def to_numpy(self):
        return self.y


@register
class Gbart(Contract):
    name = 'BART.gbart'

    def variants(self):
        # which of lamda, sigest, offset are given; whether the numeric settings are given; binning
        # ; data frames
        return [('', True, False), ('offset', False, True), ('sigest', True, False, 'frame'), ('lamda', False, False), ('lamda sigest offset', True, True, 'frame'), ('zero offset', False, False)]

    def dims(self, E, v):
        d = NS(p=2 if DEPTH else E.var('p', 1), n=int(DEPTH) if DEPTH else E.var('n', 0), m=E.var('m', 0), T=E.var('T', 1), D=E.var('D', 1), L=E.var('L', 1), K=E.var('K', 1), nb=E.var('nb', 0), ke=E.var('ke', 1), cut=E.var('cut', 1))
        REGISTRY['mcmcloop.run_mcmc#opaque'].E = d
        return d

    def args(self, d, v):
        f = lambda: Spec((), 'float32')
        a = dict(x_train=Spec((d.p, d.n), 'float32'), y_train=Spec((d.n,), 'float32'), x_test=Spec((d.p, d.m), 'float32'), usequants=v[2], ntree=d.T, maxdepth=d.D, ndpost=d.K, nskip=d.nb, keepevery=d.ke,
                 numcut=d.cut, seed=Spec((), key_dtype))
        for o in v[0].split():
            if o == 'zero':
                continue
            a[o] = 0. if v[0].startswith('zero') else f()
        if v[1]:
            a.update({k: f() for k in NUM})
        if v[3:]:
            a['frame'] = True
        return a

    def harness(self, orig):
        def build(x_train, y_train, x_test, frame=False, **kw):
            if frame:
                x_train, x_test, y_train = Frame(x_train.T), Frame(x_test.T), Series(y_train)
            m = orig(x_train, y_train, x_test=x_test, **kw)
            out = dict(offset=m.offset, scale=m.scale, lamda=m.lamda, sigest=m.sigest, sigma=m.sigma, first_sigma=m.first_sigma, yhat_train=m.yhat_train, yhat_train_mean=m.yhat_train_mean,
                       yhat_test=m.yhat_test, yhat_test_mean=m.yhat_test_mean, predict=m.predict(x_test))
            return out
        return build

    def requires(self, c, A):
        g = lambda k: val(getattr(A, k, NUM[k]))
        its = [Item('prior settings are valid', lambda: And(g('k') > 0, g('sigdf') > 0, g('sigquant') > 0, g('sigquant') < 1, g('base') > 0))]
        return its

    def ensures(self, c, A, out):
        return self.formulas(c, A, out)

    def formulas(self, c, A, out):
        g = lambda k: val(getattr(A, k, NUM[k]))
        y, x = A.y_train, A.x_train
        n, p = c.z(y.shape[0]), c.z(x.shape[0])
        rn = z3.ToReal(n)
        N, K = y.shape[0], A.ndpost
        mean = c.sum(N, lambda i: y(i), R) / rn

        def offset():
            if hasattr(A, 'offset'):
                return val(out['offset']) == val(A.offset)
            return val(out['offset']) == If(n < 1, z3.RealVal(0), mean)

        def scale():
            a, b = extremes(c, y, N)
            return val(out['scale']) == If(n < 2, z3.RealVal(1), (b - a) / (2 * g('k')))

        def sigest2():
            if hasattr(A, 'sigest'):
                return val(A.sigest) * val(A.sigest)
            ent = lambda f: c.env.entail(f) is True
            if ent(n < 2):
                return z3.RealVal(1)
            if ent(n <= p):
                return self.variance(c, A, y, N, mean, val(out['offset']))
            ls = c.__dict__.get('lstsq', [])
            return ls[0].chisq / z3.ToReal(n - ls[0].rank) if ls else z3.RealVal(-1)

        def lamda():
            if hasattr(A, 'lamda'):
                return val(out['lamda']) == val(A.lamda)
            # sigest**2 is the quantile at sigquant of the inverse gamma prior with shape sigdf / 2 and scale lamda sigdf / 2
            G = GammaInccInv(g('sigdf') / 2, g('sigquant'))
            q = c.fresh('s2', R)
            c.fact(q == sigest2())
            return val(out['lamda']) * g('sigdf') == q * (2 * G)

        its = [Item('offset: the given one, or the mean response', offset), Item('scale: the range of the response over 2 k', scale),
               Item('noise scale: the given one, or the variance estimate times the quantile factor', lamda)]
        if not hasattr(A, 'lamda'):
            if not hasattr(A, 'sigest'):
                for r in c.__dict__.get('lstsq', []):
                    its += [Item('regression on the centered predictors', lambda i, v, r=r: r.A(i, v) == x(v, i) - c.sum(N, lambda j: x(v, j), R) / rn, dims=(N, x.shape[0])),
                            Item('regression of the centered response', lambda i, r=r: r.b(i) == y(i) - mean, dims=(N,))]
                its.append(Item('regression if there are more points than predictors', lambda: Implies(n > p, Implies(n >= 2, bv(bool(c.__dict__.get('lstsq')))))))
            its.append(Item('estimate of the noise level', lambda: And(val(out['sigest']) >= 0, val(out['sigest']) * val(out['sigest']) == sigest2()) if out['sigest'] is not None else F))
        else:
            its.append(Item('no estimate of the noise level', lambda: bv(out['sigest'] is None)))
        # what the sampler is given
        st = made(c, 'mcmcstep.init#opaque')
        its.append(Item('the sampler is set up once', lambda: bv(len(st) == 1)))
        s = st[0]
        off, sc, lam = val(out['offset']), val(out['scale']), val(out['lamda'])
        its += [Item('the sampler gets the standardized response', lambda i: s.y(i) == (y(i) - off) / sc, dims=(N,)),
                Item('one standardized response per point', lambda: c.z(s.y.shape[0]) == n),
                Item('shape of the noise prior', lambda: val(s.sigma2_alpha) == g('sigdf') / 2),
                Item('rescaled noise prior', lambda: Implies(sc != 0, val(s.sigma2_beta) * (sc * sc) == g('sigdf') / 2 * lam)),
                Item('depth probabilities', lambda d: self.depthp(c, A, s, d, g), dims=(A.maxdepth - 1,)),
                Item('one depth probability per level that can have rules', lambda: c.z(s.p_nonterminal.shape[0]) == c.z(A.maxdepth) - 1),
                Item('number of trees', lambda: c.z(s.num_trees) == c.z(A.ntree))]
        # what is made of its output
        run = made(c, 'mcmcloop.run_mcmc#opaque')
        its.append(Item('the sampler runs once', lambda: bv(len(run) == 1)))
        fin, burn, main = run[0].out
        r = run[0]
        its.append(Item('length of the run', lambda: And(c.z(r.n_save) == c.z(A.ndpost), c.z(r.n_burn) == c.z(A.nskip), c.z(r.n_skip) == c.z(A.keepevery))))
        rt = lambda t: (c.fact(Implies(t >= 0, And(Sqrt(t) >= 0, Sqrt(t) * Sqrt(t) == t))), Sqrt(t))[1]
        its += [Item('noise samples are scaled back', lambda k: out['sigma'](k) == sc * rt(main['sigma2'](k)), dims=(K,)),
                Item('noise samples of the burn-in are scaled back', lambda k: out['first_sigma'](k) == sc * rt(burn['sigma2'](k)), dims=(A.nskip,))]
        evs = made(c, 'mcmcloop.evaluate_trace#opaque')
        bins = made(c, 'prepcovars.bin_predictors#opaque')
        for nm, X in (('yhat_train', s.X), ('yhat_test', bins[-1].out if bins else None), ('predict', bins[-1].out if bins else None)):
            o = out[nm]
            probe = o(*[c.fresh('q', n=z) for z in o.shape])
            ev = [e for e in evs if PV.syms(e.out(iv(0), iv(0))) & PV.syms(probe)]
            its.append(Item(f'{nm} comes from one evaluation of the trace', lambda ev=ev: bv(len(ev) == 1)))
            if len(ev) != 1:
                continue
            e = ev[0]
            its.append(Item(f'{nm}: evaluation scaled and shifted back', lambda k, i, o=o, e=e: o(k, i) == off + sc * e.out(k, i), dims=tuple(o.shape)))
            its += [Item(f'{nm}: shape', lambda o=o, X=X: And(c.z(o.shape[0]) == c.z(K), c.z(o.shape[1]) == c.z(X.shape[1])))]
            for f in ('leaf_trees', 'var_trees', 'split_trees'):
                its.append(Item(f'{nm}: the saved trees are evaluated ({f})', lambda *q, e=e, f=f: e.trace[f](*q) == main[f](*q), dims=tuple(main[f].shape)))
            if nm == 'yhat_train':
                its.append(Item('yhat_train: on the predictors of the sampler', lambda v, i, e=e: e.X(v, i) == s.X(v, i), dims=tuple(s.X.shape)))
            else:
                mine = [b for b in bins if PV.syms(b.out(iv(0), iv(0))) & PV.syms(e.X(iv(0), iv(0)))]
                its.append(Item(f'{nm}: on binned predictors', lambda mine=mine: bv(len(mine) == 1)))
                for b in mine[:1]:
                    its.append(Item(f'{nm}: the test predictors', lambda v, i, b=b: b.X(v, i) == A.x_test(v, i), dims=tuple(A.x_test.shape)))
        for nm in ('yhat_train', 'yhat_test'):
            its.append(Item(f'{nm}_mean: mean over the saved iterations', lambda i, nm=nm: self.mean_item(c, out, nm, K, i), dims=(out[nm].shape[1],)))
        return its

    def mean_item(self, c, out, nm, K, i):
        w = c.sum(K, lambda k: out[nm](k, i), R)
        got = out[nm + '_mean'](i)
        r = c.rec_or_none(w)
        for q in list(c.sum_order):
            if not q.bound and r is not None and q is not r and q.sort == R:
                PV.congr(c, q, r, c.z(K))
        return got == w / z3.ToReal(c.z(K))

    def depthp(self, c, A, s, d, g):
        b = z3.ToReal(Add(iv(1), d))
        pw = getattr(A, 'power', NUM['power'])
        if isinstance(pw, Arr):
            return s.p_nonterminal(d) == g('base') / Pow(b, g('power'))
        return s.p_nonterminal(d) * b * b == g('base')

    def variance(self, c, A, y, N, mean, off):
        """sum of the squared deviations over n; adding a constant to the data does not change it"""
        n = c.z(N)
        rn = z3.ToReal(n)
        S = c.sum(N, lambda i: y(i), R)
        V = c.sum(N, lambda i: (y(i) - mean) * (y(i) - mean), R)
        rv = c.rec_or_none(V)
        if rv is None or c.rec_or_none(S) is None:
            return V / rn
        k = c.fresh('k', n=N)
        for q in list(c.sum_order):
            if q.sort != R or q is rv:
                continue
            t = q.f(k)
            if syntactic(t, y(k) - off):
                # the sum of y - offset is the sum of y less n times the offset, so their means differ by the offset
                PV.affine(c, n, q, c.rec_of(S), z3.RealVal(1), -off)
                pure(c, lambda a, b, o, r: Implies(And(r > 0, a == b - r * o), a / r == b / r - o), q.ps(n), S, off, rn)
                lemma(c, 'mean of the shifted response', prove(c, q.ps(n) / rn == S / rn - off, [n >= 1], auto=False))
                m = q.ps(n) / rn
                for q2 in list(c.sum_order):
                    if q2.sort == R and q2 is not rv and syntactic(q2.f(k), (y(k) - off - m) * (y(k) - off - m)):
                        for w in PV.congr(c, q2, rv, n):
                            pure(c, lambda a, o, m, mm: Implies(m == mm - o, (a - o - m) * (a - o - m) == (a - mm) * (a - mm)), y(w), off, m, mean)
                            lemma(c, 'squared deviations', prove(c, q2.f(w) == rv.f(w), [n >= 1], auto=False))
                        have(c, 'sum of squared deviations', q2.ps(n) == V, [n >= 1], auto=False)
        return V / rn


def syntactic(a, b):
    s = z3.Solver()
    s.set('timeout', 500)
    s.add(a != b)
    return z3.simplify(a == b).eq(z3.BoolVal(True)) or s.check() == z3.unsat


def pure(c, f, *terms):
    """instance of a formula that holds for all reals"""
    xs = [z3.Real(f'pure!{i}') for i in range(len(terms))]
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(Not(f(*xs)))
    if s.check() == z3.unsat:
        c.fact(f(*terms))
        return True
    return False


@register
class GbartAffine(Gbart):
    """two models, fitted to y and to a y + b: the sampler gets the same problem, and its output is mapped to a times the first plus b"""
    name = 'BART.gbart#affine'

    def variants(self):
        return [('', False, True), ('sigest', True, False), ('offset', True, False), ('lamda', False, True)]

    def dims(self, E, v):
        d = NS(p=2 if DEPTH else E.var('p', 1), n=int(DEPTH) + 1 if DEPTH else E.var('n', 2), m=E.var('m', 0), T=E.var('T', 1), D=E.var('D', 1), L=E.var('L', 1), K=E.var('K', 1), nb=E.var('nb', 0), ke=E.var('ke', 1), cut=E.var('cut', 1))
        REGISTRY['mcmcloop.run_mcmc#opaque'].E = d
        return d

    def args(self, d, v):
        return super().args(d, v) | dict(a=Spec((), 'float32'), b=Spec((), 'float32'))

    def harness(self, orig):
        def build(x_train, y_train, x_test, a, b, **kw):
            out = []
            for i in range(2):
                y, k2 = y_train, dict(kw)
                if i:
                    y = y * a + b
                    for nm, f in (('offset', lambda t: t * a + b), ('sigest', lambda t: t * a), ('lamda', lambda t: t * a * a)):
                        if nm in kw:
                            k2[nm] = f(kw[nm])
                m = orig(x_train, y, x_test=x_test, **k2)
                out.append(dict(offset=m.offset, scale=m.scale, lamda=m.lamda, sigest=m.sigest))
            return out
        return build

    def requires(self, c, A):
        N = A.y_train.shape[0]
        its = super().requires(c, A) + [Item('the rescaling keeps the order', lambda: val(A.a) > 0)]
        return its

    def ensures(self, c, A, out):
        g = lambda k: val(getattr(A, k, NUM[k]))
        y, a, b, N = A.y_train, val(A.a), val(A.b), A.y_train.shape[0]
        n = c.z(N)
        rn = z3.ToReal(n)
        y2 = lambda i: y(i) * a + b
        o, s, l = [[val(m[k]) for m in out] for k in ('offset', 'scale', 'lamda')]
        S = c.sum(N, lambda i: y(i), R)
        S2 = c.sum(N, y2, R)
        if c.rec_or_none(S2) is not None and c.rec_or_none(S) is not None:
            PV.affine(c, n, c.rec_of(S2), c.rec_of(S), a, b)
        pure(c, lambda p, q, a, b, r: Implies(And(r > 0, p == a * q + b * r), p / r == a * (q / r) + b), S2, S, a, b, rn)
        have(c, 'mean of the mapped response', S2 / rn == a * (S / rn) + b, auto=False)
        have(c, 'offset is mapped', o[1] == a * o[0] + b)

        u, v = extremes(c, y, N)
        mono = lambda i: (pure(c, lambda p, q, r, a, b: Implies(And(a > 0, p <= q, q <= r), And(p * a + b <= q * a + b, q * a + b <= r * a + b)), u, y(i), v, a, b),
                          Implies(And(i >= 0, i < n), And(u * a + b <= y2(i), y2(i) <= v * a + b)))[1]
        k = c.fresh('k', n=N)
        r = have(c, 'extremes of the mapped response', mono(k), [k >= 0, k < n, u <= y(k), y(k) <= v, a > 0], auto=False)
        if r.ok:
            c.quants.append((1, mono, 'extremes of the mapped response'))
        have(c, 'range', s[0] == (v - u) / (2 * g('k')), sums=False)
        have(c, 'mapped range', s[1] == ((v * a + b) - (u * a + b)) / (2 * g('k')), sums=False)
        pure(c, lambda u, v, a, b, k: Implies(k > 0, ((v * a + b) - (u * a + b)) / (2 * k) == a * ((v - u) / (2 * k))), u, v, a, b, g('k'))
        have(c, 'scale is mapped', s[1] == a * s[0], auto=False)
        its = [Item('offset is mapped', lambda: o[1] == a * o[0] + b), Item('scale is mapped', lambda: s[1] == a * s[0])]

        # the variance estimates
        if not hasattr(A, 'lamda'):
            mean = [S / rn, S2 / rn]
            if hasattr(A, 'sigest'):
                q = [val(A.sigest) * val(A.sigest), (val(A.sigest) * a) * (val(A.sigest) * a)]
                pure(c, lambda t, a: (t * a) * (t * a) == a * a * (t * t), val(A.sigest), a)
            elif c.env.entail(n <= c.z(A.x_train.shape[0])) is True:
                q = [self.variance(c, A, yy, N, m, oo) for yy, m, oo in zip((y, y2), mean, o)]
                V = [c.sum(N, lambda i, yy=yy, m=m: (yy(i) - m) * (yy(i) - m), R) for yy, m in zip((y, y2), mean)]
                if c.rec_or_none(V[0]) is not None and c.rec_or_none(V[1]) is not None:
                    w = PV.affine(c, n, c.rec_of(V[1]), c.rec_of(V[0]), a * a, z3.RealVal(0))
                    pure(c, lambda t, m, mm, a, b: Implies(mm == a * m + b, (t * a + b - mm) * (t * a + b - mm) == a * a * ((t - m) * (t - m))), y(w), mean[0], mean[1], a, b)
                have(c, 'sum of squares is mapped', V[1] == a * a * V[0], auto=False)
                pure(c, lambda p, q, a, r: Implies(And(r > 0, p == a * a * q), p / r == a * a * (q / r)), V[1], V[0], a, rn)
            else:
                ls = c.__dict__.get('lstsq', [])
                if len(ls) != 2:
                    raise Unsupported('regressions')
                lstsq_scaled(c, *ls, a, N, A.x_train.shape[0])
                q = [r.chisq / z3.ToReal(n - r.rank) for r in ls]
                pure(c, lambda p, q, a, d: Implies(p == a * a * q, p / d == a * a * (q / d)), ls[1].chisq, ls[0].chisq, a, z3.ToReal(n - ls[0].rank))
            have(c, 'variance estimate is mapped', q[1] == a * a * q[0], auto=False)
            G = GammaInccInv(g('sigdf') / 2, g('sigquant'))
            for li, qi in zip(l, q):
                if li.decl().kind() == z3.Z3_OP_DIV:
                    pure(c, lambda q, G, d: Implies(And(G > 0, d > 0), q / ((1 / G) / 2 * d) * d == q * (2 * G)), li.arg(0), G, g('sigdf'))
                    have(c, 'variance estimate', li.arg(0) == qi, auto=False)
                have(c, 'noise scale is the variance estimate times the quantile factor', li * g('sigdf') == qi * (2 * G), auto=False)
            pure(c, lambda l, ll, q, qq, a, d, G: Implies(And(d > 0, l * d == q * (2 * G), ll * d == qq * (2 * G), qq == a * a * q), ll == a * a * l), l[0], l[1], q[0], q[1], a, g('sigdf'), G)
        its.append(Item('noise scale is mapped', lambda: l[1] == a * a * l[0]))
        # what the sampler gets
        st = made(c, 'mcmcstep.init#opaque')
        if len(st) != 2:
            raise Unsupported('calls to init')
        e, f = st
        def std(i):
            have(c, 'standardized response', e.y(i) == (y(i) - o[0]) / s[0], [i >= 0, i < n], auto=False)
            have(c, 'standardized mapped response', f.y(i) == (y2(i) - o[1]) / s[1], [i >= 0, i < n], auto=False)
            pure(c, lambda t, o, oo, s, ss, a, b: Implies(And(oo == a * o + b, ss == a * s, a > 0, s != 0), (t * a + b - oo) / ss == (t - o) / s), y(i), o[0], o[1], s[0], s[1], a, b)
            return Implies(s[0] != 0, e.y(i) == f.y(i))
        its.append(Item('the sampler gets the same response', std, dims=(N,)))
        be, bf = val(e.sigma2_beta), val(f.sigma2_beta)

        def beta():
            h = g('sigdf') / 2
            have(c, 'noise prior', be * (s[0] * s[0]) == h * l[0], [s[0] != 0], auto=False)
            have(c, 'mapped noise prior', bf * (s[1] * s[1]) == h * l[1], [s[1] != 0], auto=False)
            pure(c, lambda p, q, s, ss, l, ll, a, h: Implies(And(a > 0, s != 0, ss == a * s, ll == a * a * l, p * (s * s) == h * l, q * (ss * ss) == h * ll), p == q), be, bf, s[0], s[1], l[0], l[1], a, h)
            pure(c, lambda s, ss, a: Implies(And(a > 0, s != 0, ss == a * s), ss != 0), s[0], s[1], a)
            return Implies(s[0] != 0, be == bf)
        its.append(Item('the sampler gets the same noise prior', beta))
        its.append(Item('the sampler gets the same shape of the noise prior', lambda: val(e.sigma2_alpha) == val(f.sigma2_alpha)))
        its.append(Item('the sampler gets the same depth probabilities', lambda d: e.p_nonterminal(d) == f.p_nonterminal(d), dims=(A.maxdepth - 1,)))
        return its


def lstsq_scaled(c, r0, r1, a, N, P):
    """contract of lstsq on two problems with the same matrix and proportional right-hand sides"""
    i, v = c.fresh('i', n=N), c.fresh('v', n=P)
    h = [c.in_range([i, v], [N, P])]
    g0, g1 = r0.b(i), r1.b(i)
    ok = have(c, 'regressions on the same matrix', r1.A(i, v) == r0.A(i, v), h, auto=False).ok
    ok = have(c, 'right-hand sides are proportional', g1 == a * g0, h, auto=False).ok and ok
    if ok:
        c.fact(And(r1.chisq == a * a * r0.chisq, r1.rank == r0.rank))

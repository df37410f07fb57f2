from .common import *
import types
from fractions import Fraction


class Frame:
    """what the interface uses of a DataFrame"""
    def __init__(self, x, columns):
        self.x, self.columns = x, columns

    def to_numpy(self):
        return self.x


class Series:
    def __init__(self, y, name):
        self.y, self.name = y, name

    def to_numpy(self):
        return self.y


class Recorder:
    """wraps public functions of the sampler for the time of a fit and keeps their arguments and results"""
    def __init__(self):
        self.calls = {}

    def __enter__(self):
        import importlib
        self.old = []
        for mod, nm in (('mcmcstep', 'init'), ('mcmcloop', 'run_mcmc')):
            m = importlib.import_module('bartz.' + mod)
            f = getattr(m, nm)
            sig = inspect.signature(inspect.unwrap(f))

            def w(*a, f=f, nm=nm, sig=sig, **kw):
                out = f(*a, **kw)
                self.calls.setdefault(nm, []).append((sig.bind(*a, **kw).arguments, out))
                return out
            self.old.append((m, nm, f))
            setattr(m, nm, w)
        return self

    def __exit__(self, *e):
        for m, nm, f in self.old:
            setattr(m, nm, f)

    def one(self, nm):
        c = self.calls.get(nm, [])
        if len(c) != 1:
            raise Skip(f'{nm} is not called through its module')
        return c[0]


def fit(x, y, x_test, **kw):
    from bartz.BART import gbart
    with Recorder() as r:
        try:
            m = gbart(x, y, x_test=x_test, **kw)
        except Exception as e:
            raise Fail(f'gbart raised {type(e).__name__}: {str(e)[:300]} on valid data', settings={k: v for k, v in kw.items()})
    return m, r


def forest_value(tr, X):
    from .common import routes
    leaf, var, split = (np.asarray(tr[k]) for k in ('leaf_trees', 'var_trees', 'split_trees'))
    out = np.zeros((len(leaf), X.shape[1]))
    for k in range(len(leaf)):
        for t in range(leaf.shape[1]):
            out[k] += leaf[k, t].astype(float)[routes(X, var[k, t].astype(int), split[k, t].astype(np.int64))]
    return out


def judge(x, y, xt, kw, seed, fmt='array'):
    p, n = x.shape
    s = dict(sigdf=3, sigquant=.9, k=2, power=2, base=.95, sigest=None, lamda=None, offset=None, maxdepth=6) | kw
    run = dict(ntree=3, ndpost=4, nskip=2, seed=seed, printevery=1000, numcut=10) | kw
    if fmt == 'frame':
        cols = [f'c{i}' for i in range(p)]
        a = (Frame(x.T, cols), Series(y, 'y'), Frame(xt.T, cols))
    else:
        a = (x, y, xt)
    info = dict(n=n, p=p, settings=kw, fmt=fmt, y=y)
    m, r = fit(*a, **run)
    from scipy import stats
    y64, x64 = y.astype(float), x.astype(float)
    off = s['offset'] if s['offset'] is not None else (y64.mean() if n else 0.)
    sc = (y64.max() - y64.min()) / (2 * s['k']) if n >= 2 else 1.
    top = max(float(np.abs(y64).max()), abs(off)) if n else 1.
    close('offset', m.offset, off, atol=1e-5 * top, **info)
    close('scale', m.scale, sc, atol=1e-5 * top, **info)
    if s['lamda'] is not None:
        lam = s['lamda']
        close('given noise scale', m.lamda, lam, atol=1e-5 * lam, **info)
    else:
        if s['sigest'] is not None:
            s2 = s['sigest'] ** 2
        elif n < 2:
            s2 = 1.
        elif n <= p:
            s2 = y64.var()
        else:
            xc, yc = (x64.T - x64.mean(1)), y64 - y64.mean()
            co, _, rank, _ = np.linalg.lstsq(xc, yc, rcond=1e-6)
            s2 = ((yc - xc @ co) ** 2).sum() / (n - rank)
        close('estimate of the noise level', m.sigest, np.sqrt(s2), rtol=5e-3, atol=1e-5 * top + 2e-3 * (y64.std() if n else 0.), **info)
        # s2 is the sigquant quantile of inverse gamma(sigdf / 2, lamda sigdf / 2)
        lam = s2 / (stats.invgamma.ppf(s['sigquant'], s['sigdf'] / 2) * s['sigdf'] / 2)
        close('noise scale', m.lamda, lam, rtol=1e-2, atol=1e-6 * max(s2, y64.var() if n else 1.), **info)
    args, st = r.one('init')
    close('standardized response given to the sampler', args['y'], (y64 - off) / sc, **info)
    close('depth probabilities given to the sampler', args['p_nonterminal'], s['base'] / (1. + np.arange(s['maxdepth'] - 1)) ** s['power'], **info)
    close('shape of the noise prior', args['sigma2_alpha'], s['sigdf'] / 2, **info)
    close('scale of the noise prior', args['sigma2_beta'], s['sigdf'] / 2 * lam / sc ** 2, rtol=1e-2, atol=1e-5, **info)
    true('number of trees', args['num_trees'] == run['ntree'], **info)
    ra, (fin, burn, main) = r.one('run_mcmc')
    true('length of the run', ra['n_burn'] == run['nskip'] and ra['n_save'] == run['ndpost'] and ra['n_skip'] == run.get('keepevery', 1), **info)
    close('noise samples', m.sigma, sc * np.sqrt(np.asarray(main['sigma2'], float)), atol=1e-4 * sc, **info)
    close('noise samples of the burn-in', m.first_sigma, sc * np.sqrt(np.asarray(burn['sigma2'], float)), atol=1e-4 * sc, **info)
    v = off + sc * forest_value(main, np.asarray(args['X']).astype(np.int64))
    close('training predictions', m.yhat_train, v, rtol=1e-3, atol=1e-3 * max(sc, 1e-3 * top), **info)
    close('mean training predictions', m.yhat_train_mean, v.mean(0), rtol=1e-3, atol=1e-3 * max(sc, 1e-3 * top), **info)
    close('predictions at the training points', m.predict(a[0]), v, rtol=1e-3, atol=1e-3 * max(sc, 1e-3 * top), **info)
    t = np.asarray(m.predict(a[2]))
    close('test predictions', m.yhat_test, t, **info)
    close('mean test predictions', m.yhat_test_mean, t.mean(0), rtol=1e-3, atol=1e-3 * max(sc, 1e-3 * top), **info)
    return m, r


def data(p, n, m, r, shift=0., unit=1.):
    # multiples of 1/8 with an exact mean when n is a power of two: affine maps by powers of two are exact
    x = r.normal(size=(p, n)).astype(np.float32)
    y = (r.integers(-40, 41, n) / 8 + shift).astype(np.float32)
    if n >= 2 and y.max() == y.min():
        y[0] += 1
    return x, y * np.float32(unit), r.normal(size=(p, m)).astype(np.float32)


def affine(p, n, a, b, kw, seed):
    """the model of a y + b against the model of y"""
    jax.clear_caches()
    r = Rng(seed)
    x, y, xt = data(p, n, 5, r)
    m1, r1 = judge(x, y, xt, kw, seed)
    k2 = dict(kw)
    for nm, f in (('offset', lambda t: a * t + b), ('sigest', lambda t: a * t), ('lamda', lambda t: a * a * t)):
        if nm in kw:
            k2[nm] = f(kw[nm])
    m2, r2 = judge(x, (a * y + b).astype(np.float32), xt, k2, seed)
    info = dict(n=n, p=p, a=a, b=b, settings=kw, y=y)
    tol = dict(rtol=2e-3, atol=2e-3 * float(m2.scale))
    close('offset of the mapped model', m2.offset, a * float(m1.offset) + b, **tol, **info)
    close('scale of the mapped model', m2.scale, a * float(m1.scale), **info)
    close('noise scale of the mapped model', m2.lamda, a * a * float(m1.lamda), rtol=1e-2, **info)
    for q in ('y', 'sigma2_beta', 'sigma2_alpha', 'p_nonterminal'):
        close(f'{q} given to the sampler for the mapped model', r2.one('init')[0][q], np.asarray(r1.one('init')[0][q], float), rtol=1e-2, **info)
    if 'lamda' in kw and n & (n - 1) == 0:
        for q in ('yhat_train', 'yhat_test'):
            close(f'{q} of the mapped model', getattr(m2, q), a * np.asarray(getattr(m1, q), float) + b, **tol, **info)
        for q in ('sigma', 'first_sigma'):
            close(f'{q} of the mapped model', getattr(m2, q), a * np.asarray(getattr(m1, q), float), **tol, **info)


def single(p, n, m, kw, seed, fmt='array', const=False, shift=0., unit=1.):
    jax.clear_caches()
    r = Rng(seed)
    x, y, xt = data(p, n, m, r, shift, unit)
    kw = {k: v * unit ** (2 if k == 'lamda' else 1) if k in ('lamda', 'sigest', 'offset') else v for k, v in kw.items()}
    if const:
        x[0] = 1.5
    judge(x, y, xt, kw, seed, fmt)


def cases(rng, tier):
    fixed = [('affine', (2, 16, 4., 8., dict(lamda=.5))), ('single', (3, 12, 4, dict(k=3., power=1.5, base=.8, sigdf=5, sigquant=.7, maxdepth=4), 'frame')),
             ('single', (6, 5, 3, dict(offset=1.5), 'array')), ('single', (6, 5, 3, dict(usequants=True), 'array', False, 30.)), ('single', (2, 2, 2, dict(), 'array')), ('single', (2, 6, 2, dict(offset=0., lamda=.5), 'array', False, 30., 2. ** -12)), ('single', (2, 6, 2, dict(power=6., base=.9), 'frame', False, 0., 2. ** 12)), ('single', (2, 1, 2, dict(), 'array')),
             ('single', (3, 9, 2, dict(sigest=.7, keepevery=2, usequants=True), 'frame')), ('affine', (2, 12, .5, -16., dict())), ('affine', (7, 6, 2., 64., dict())),
             ('single', (4, 5, 2, dict(), 'array')), ('single', (4, 4, 2, dict(), 'array')), ('single', (3, 10, 2, dict(), 'array', True)), ('affine', (3, 8, 256., 0., dict(lamda=2., offset=1.))),
             ('single', (2, 8, 2, dict(lamda=.3, offset=-2., maxdepth=1, base=.5), 'array'))]
    for kind, a in fixed:
        s = int(rng.integers(2 ** 31))
        f = affine if kind == 'affine' else single
        a = (*a, s) if kind == 'affine' else (*a[:4], s, *a[4:])
        yield dict(kind=kind, args=str(a)), (lambda f=f, a=a: f(*a))
    while True:
        s = int(rng.integers(2 ** 31))
        kw = {}
        for nm, f in (('k', lambda: float(rng.uniform(.5, 5))), ('power', lambda: float(rng.uniform(.5, 6))), ('base', lambda: float(rng.uniform(.2, .99))), ('sigdf', lambda: float(rng.uniform(1, 12))),
                      ('sigquant', lambda: float(rng.uniform(.2, .99))), ('sigest', lambda: float(rng.uniform(.1, 4))), ('lamda', lambda: float(rng.uniform(.1, 4))), ('offset', lambda: float(rng.choice([0., 1.])) * float(rng.normal()) * 3),
                      ('maxdepth', lambda: int(rng.integers(1, 7))), ('usequants', lambda: True), ('keepevery', lambda: int(rng.integers(1, 4)))):
            if rng.random() < .35:
                kw[nm] = f()
        p, n = int(rng.integers(1, 8)), int(rng.choice([2, 3, 5, 8, 16, 30]))
        a = (p, n, int(rng.integers(1, 5)), kw, s, ['array', 'frame'][int(rng.integers(2))], False, float(rng.choice([0, 0, 100.])), float(rng.choice([1., 1., 2. ** -12, 2. ** 12])))
        yield dict(kind='single', args=str(a)), (lambda a=a: single(*a))

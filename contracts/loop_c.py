"""Contract of bartz.mcmcloop.run_mcmc: the chain obtained by applying the step once per iteration, and what is recorded of it.

The state is opaque to the loop: every state value is stood for by a token (an extra leaf of the state that the loop carries
along), and the other leaves are functions of the token, looked at in one arbitrary position each.  The step is a function
of the token and the key."""
from dv.fw import *
from dv.fw import Contract, Item, register, houdini, install_invariants
from dv.theory import *
from dv.interp import bind_call
import bartz.jaxext as _jx
from .keys_c import alternatives

BASE = ('sigma2', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')
MAIN = ('leaf_trees', 'var_trees', 'split_trees')
OTHER = ('resid', 'leaf_indices')
TOK = '_state'
StepF = z3.Function('step', I, Key, I)
Tok = z3.Function('Tok', I, I)          # state after m iterations
Ky = z3.Function('Ky', I, Key)          # key of the chain after m iterations


def xf(f):
    return z3.Function('X_' + '.'.join(f), I, I, R)


def fields(bart):
    """(path, array) of the leaves other than the token"""
    res = []
    for k, v in sorted(bart.items()):
        if k in ('opt', TOK) or v is None:
            continue
        if isinstance(v, dict):
            res += [((k, q), w) for q, w in sorted(v.items())]
        else:
            res.append(((k,), v))
    return res


def at_fix(c, path, arr, *pre):
    return arr(*pre, c.ifix[path])


def consistent(c, bart):
    t = bart[TOK]()
    return And(*[at_fix(c, p, a) == xf(p)(t, c.ifix[p]) for p, a in fields(bart)])


@register
class OpaqueStep(Contract):
    name = 'mcmcstep.step#opaque'

    def out_specs(self, bart, key):
        return tree_util.tree_map(lambda s: Spec(s.shape, s.dtype, s.weak_type), bart, is_leaf=lambda x: isinstance(x, Spec))

    def apply(self, c, inst, a, kw, specs):
        inst.A = NS(bart=a[0], key=a[1])
        if not isinstance(a[0], dict) or TOK not in a[0]:
            raise Unsupported('the step is given something else than a state')
        t = StepF(a[0][TOK](), a[1]())
        out = {}
        for k, v in a[0].items():
            if k == TOK:
                out[k] = Arr((), v.dtype, lambda: t, 'tok')
            elif isinstance(v, Arr):
                out[k] = Arr(v.shape, v.dtype, lambda i, k=k: xf((k,))(t, i), k)
            elif isinstance(v, dict) and k != 'opt':
                out[k] = {q: Arr(w.shape, w.dtype, lambda i, k=k, q=q: xf((k, q))(t, i), q) for q, w in v.items()}
            else:
                out[k] = v
        return out

    def post(self, *a):
        pass

    def check_requires(self, c, inst):
        c.oblig.append(dict(label='the step is given the current state as a whole', goal=consistent(c, inst.A.bart), hyps=list(c.hyp_stack), pool=[]))


@register
class Callback(Contract):
    name = 'mcmcloop.callback'

    def out_specs(self, **kw):
        return ()

    def apply(self, c, inst, a, kw, specs):
        inst.A = NS(**kw)
        return ()

    def post(self, *a):
        pass

    def check_requires(self, c, inst):
        pass


CB = REGISTRY['mcmcloop.callback']


def callback(**kw):
    bind_call(CB, lambda **k: (), (), kw)


@register
class RunMcmc(Contract):
    name = 'mcmcloop.run_mcmc'

    def variants(self):
        return [True, False]      # with acceptance ratios in the state

    def dims(self, E, v):
        return NS(nb=E.var('nb', 0, 2 ** 20), ns=E.var('ns', 0, 2 ** 20), nk=E.var('nk', 1, 2 ** 9), sz=[E.var(f's{i}', 1, 2 ** 20) for i in range(12)])

    def args(self, d, v):
        b = {k: Spec((d.sz[i],), 'float32') for i, k in enumerate(BASE + MAIN + OTHER)}
        b[TOK] = Spec((), 'int16')
        b['opt'] = _jx.LeafDict(small_float=np.dtype('float32'))
        b['affluence_trees'] = None
        if v:
            b['ratios'] = dict(log_likelihood=Spec((d.sz[10],), 'float32'), log_trans_prior=Spec((d.sz[11],), 'float32'))
        return dict(bart=b, n_burn=d.nb, n_save=d.ns, n_skip=d.nk, callback=callback, key=Spec((), key_dtype))

    def requires(self, c, A):
        c.ifix = {}
        c.scheme = None
        for p, a in fields(A.bart):
            c.ifix[p] = c.fresh('x', n=a.shape[0])
            c.fact(And(c.ifix[p] >= 0, c.ifix[p] < c.z(a.shape[0])))
        c.fact(Tok(0) == A.bart[TOK]())
        c.fact(Ky(0) == A.key())
        self.nb, self.ns, self.nk = c.z(A.n_burn), c.z(A.n_save), c.z(A.n_skip)
        c.skip = c.func('iterations', I, I)       # k * n_skip
        c.fact(c.skip(0) == 0)
        return [Item('the leaves of the state are those of its token', lambda: consistent(c, A.bart))]

    def chain(self, c, m):
        """the chain one iteration further"""
        u, v, num_ = c.scheme
        c.fact(Implies(m >= 0, And(Tok(Add(m, iv(1))) == StepF(Tok(m), Key.spl(Ky(m), num_, iv(u))), Ky(Add(m, iv(1))) == Key.spl(Ky(m), num_, iv(v)))))

    def mul(self, c, k):
        c.fact(Implies(k >= 0, And(c.skip(Add(k, iv(1))) == c.skip(k) + self.nk, c.skip(k) >= k, c.skip(k) <= 512 * k)))

    def slots(self, c, L, A):
        s = NS(tok=None, key=None, fld={}, ints=[])
        sig = {str(a.shape): p for p, a in fields(A.bart)}
        for i, av in enumerate(L.avals):
            if kind(av.dtype) == 'k':
                s.key = i
            elif str(av.dtype) == 'int16':
                s.tok = i
            elif str(tuple(av.shape)) in sig:
                s.fld[sig[str(tuple(av.shape))]] = i
            elif not av.shape and kind(av.dtype) == 'i':
                s.ints.append(i)
        return s

    def loop(self, c, L, A):
        s = self.slots(c, L, A)
        if s.tok is None or s.key is None:
            raise Unsupported('a loop that does not carry the state and the key')
        k0, init = L.k0, L.init
        L.nested = bool(c.loop_stack)
        steps = [cr for cr in L.calls.get(k0.get_id(), []) if isinstance(cr, dict) and cr['contract'].name == 'mcmcstep.step#opaque']
        if c.scheme is None:
            if len(steps) != 1:
                raise Unsupported('not one step per iteration')
            K = L.carry(k0)[s.key]()
            u = alternatives(c, steps[0]['inst'](()).A.key())
            v = alternatives(c, L.nxt(k0)[s.key]())
            if len(u) != 1 or len(v) != 1 or len(u[0][2]) != 1 or len(v[0][2]) != 1 or not (u[0][1].eq(K) and v[0][1].eq(K)) or u[0][2][0][0] != 's' or v[0][2][0][0] != 's':
                raise Unsupported('another scheme of keys')
            u, v = num(u[0][2][0][1]), num(v[0][2][0][1])
            if u is None or v is None:
                raise Unsupported('another scheme of keys')
            c.scheme = (u, v, steps[0]['inst'](()).A.key().arg(1))
        nk = self.nk
        a0s = {i: init[i]() for i in s.ints}
        cons = lambda cr: And(*[at_fix(c, p, cr[i]) == xf(p)(cr[s.tok](), c.ifix[p]) for p, i in s.fld.items()])
        for i in s.ints:
            self.chain(c, a0s[i])
            for k in (k0,):
                self.chain(c, L.carry(k)[i]())
        for k in (k0, Add(k0, iv(1)), L.nz()):
            self.mul(c, k)
        cands = []
        for i in s.ints:
            cands += [lambda cr, k, i=i: Item('counter', lambda: cr[i]() == a0s[i] + k),
                      lambda cr, k, i=i: Item('counter skip', lambda: cr[i]() == a0s[i] + c.skip(k))]
            G = And(a0s[i] >= 0, a0s[i] < 2 ** 31 - 2 ** 30 - 2 ** 21, init[s.tok]() == Tok(a0s[i]), init[s.key]() == Ky(a0s[i]), cons(init))
            cands += [lambda cr, k, i=i, G=G: Item('chain', lambda: Implies(G, And(cr[i]() >= 0, cr[s.tok]() == Tok(cr[i]()), cr[s.key]() == Ky(cr[i]()), cons(cr)))),
                      lambda cr, k, i=i, G=G: Item('counter', lambda: Implies(a0s[i] < 2 ** 31 - 2 ** 30 - 2 ** 21, cr[i]() == a0s[i] + k)),
                      lambda cr, k, i=i, G=G: Item('counter skip', lambda: Implies(a0s[i] < 2 ** 31 - 2 ** 30 - 2 ** 21, cr[i]() == a0s[i] + c.skip(k)))]
        L.cands = cands
        install_invariants(c, L, houdini(c, L, cands))

    def ensures(self, c, A, out):
        if c.scheme is None:
            c.scheme = (1, 0, iv(2))
        its = []
        nb, ns, nk = self.nb, self.ns, self.nk
        bart, tb, tm = out
        has = lambda f: A.bart.get(f[0]) is not None
        for nm, tr, names, n in (('burn-in', tb, BASE + ('ratios',), A.n_burn), ('main', tm, BASE + ('ratios',) + MAIN, A.n_save)):
            want = {p for p, _ in fields({k: A.bart[k] for k in names if k in A.bart})}
            got = dict(fields(tr))
            its.append(Item(f'the {nm} trace has the documented fields', lambda want=want, got=got: bv(want == set(got))))
            its.append(Item(f'the {nm} trace has one entry per {nm} iteration' if nm != 'main' else 'the main trace has one entry per saved iteration',
                            lambda got=got, n=n: And(*[c.z(x.shape[0]) == c.z(n) for x in got.values()])))
            for p in sorted(want & set(got)):
                def val(j, p=p, x=got[p], nm=nm):
                    m = j if nm == 'burn-in' else nb + c.skip(j + 1) - 1
                    self.mul(c, j)
                    self.chain(c, m)
                    for L in list(c.loops):
                        if hasattr(L, 'inv_at') and not L.nested:
                            L.inv_at(j)
                    return at_fix(c, p, x, j) == xf(p)(Tok(m + 1), c.ifix[p])
                its.append(Item(f'entry of the {nm} trace: {".".join(p)}', val, dims=(n,)))
        N = nb + c.skip(ns)
        self.mul(c, ns)
        its.append(Item('the final state is the last iteration', lambda: And(bart[TOK]() == Tok(N), consistent(c, bart))))
        its.append(Item('the final state has the fields of the initial one', lambda: bv({p for p, _ in fields(bart)} == {p for p, _ in fields(A.bart)})))
        its += self.calls(c, A)
        its.append(Item('the key of an iteration and the keys of the later ones descend from different children of one key', lambda: bv(c.scheme[0] != c.scheme[1])))
        return its

    def calls(self, c, A):
        """the step and the callback are called once per iteration, in order"""
        its = []
        main = [cr for cr in c.calls if isinstance(cr, dict) and cr['main']]
        st = [cr for cr in main if cr['contract'].name == 'mcmcstep.step#opaque']
        cb = [cr for cr in main if cr['contract'] is CB]
        nests = lambda l: sorted([tuple(L.id for L in cr['loops']) for cr in l])
        lens = lambda cr: [str(L.n) for L in cr['loops']]
        want = []
        if c.env.entail(self.nb > 0) is True:
            want.append([str(A.n_burn)])
        if c.env.entail(self.ns > 0) is True:
            want.append([str(A.n_save), str(A.n_skip)])
        its.append(Item('one step per iteration', lambda: bv(sorted(map(lens, st)) == sorted(want))))
        its.append(Item('one callback per step', lambda: bv(nests(cb) == nests(st))))
        for n, cr in enumerate(st + cb):
            who = 'step' if cr in st else 'callback'
            Ls = cr['loops']

            def index(Ls=Ls):
                if len(Ls) == 1:
                    return Ls[0].k0, T, Ls[0].k0
                if len(Ls) == 2:
                    self.mul(c, Ls[0].k0)
                    return self.nb + c.skip(Ls[0].k0) + Ls[1].k0, F, Ls[1].k0
                raise Unsupported('a step outside the two phases')

            def f(cr=cr, who=who, index=index):
                m, burn, i = index()
                a = cr['inst'](()).A
                self.chain(c, m)
                g = And(*cr['stack'])
                if who == 'step':
                    return Implies(g, And(a.bart[TOK]() == Tok(m), a.key() == Key.spl(Ky(m), c.scheme[2], iv(c.scheme[0]))))
                z = lambda x: x() if isinstance(x, Arr) else c.z(x)
                flag = a.burnin() if isinstance(a.burnin, Arr) else bv(a.burnin)
                return Implies(g, And(z(a.i_total) == m, z(a.i_skip) == i, Iff(flag, burn), a.bart[TOK]() == Tok(m + 1), consistent(c, a.bart),
                                      z(a.n_burn) == self.nb, z(a.n_save) == self.ns, z(a.n_skip) == self.nk))
            its.append(Item(f'{who} of the {"burn-in" if len(Ls) == 1 else "main"} phase sees the iterations in order', f))
        return its

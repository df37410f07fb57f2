"""Record the data of every random key consumed or split while the real code runs (the traced program is executed primitive by primitive)."""
from .common import *
from .states import states, CFGS
import jax.random as jr
from jax._src import core
RAND = {'random_bits', 'random_gamma', 'random_split', 'random_fold_in'}
SUB = ('jaxpr', 'call_jaxpr', 'fun_jaxpr', 'branches', 'cond_jaxpr', 'body_jaxpr')


def subs(eqn):
    for v in eqn.params.values():
        for x in (v if isinstance(v, (tuple, list)) else [v]):
            if isinstance(x, core.ClosedJaxpr):
                yield x.jaxpr
            elif isinstance(x, core.Jaxpr):
                yield x


def random_in(jaxpr, memo={}):
    k = id(jaxpr)
    if k not in memo:
        memo[k] = (jaxpr, any(e.primitive.name in RAND or any(random_in(s) for s in subs(e)) for e in jaxpr.eqns))
    return memo[k][1]


class Rec:
    def __init__(self):
        self.used, self.split, self.n = [], set(), 0

    def run(self, jaxpr, consts, args):
        env = {}
        rd = lambda v: v.val if isinstance(v, core.Literal) else env[v]
        env.update(zip(jaxpr.constvars, consts))
        env.update(zip(jaxpr.invars, args))
        for e in jaxpr.eqns:
            ins = [rd(v) for v in e.invars]
            nm = e.primitive.name
            if nm in RAND:
                self.n += 1
                for d in np.asarray(jr.key_data(ins[0])).reshape(-1, 2).tolist():
                    if nm in ('random_split', 'random_fold_in'):
                        self.split.add(tuple(d))
                    else:
                        self.used.append((tuple(d), nm, self.n))
                outs = e.primitive.bind(*ins, **e.params)
            elif not any(random_in(s) for s in subs(e)):
                sub, bp = e.primitive.get_bind_params(e.params)
                outs = e.primitive.bind(*sub, *ins, **bp)
            elif nm in ('pjit', 'closed_call', 'core_call', 'remat', 'checkpoint', 'custom_jvp_call', 'custom_vjp_call', 'custom_vjp_call_jaxpr'):
                j = e.params.get('jaxpr') or e.params.get('call_jaxpr') or e.params.get('fun_jaxpr')
                outs = self.run(j.jaxpr, j.consts, ins) if isinstance(j, core.ClosedJaxpr) else self.run(j, [], ins)
            elif nm == 'cond':
                j = e.params['branches'][int(np.clip(int(ins[0]), 0, len(e.params['branches']) - 1))]
                outs = self.run(j.jaxpr, j.consts, ins[1:])
            elif nm == 'scan':
                p = e.params
                nc, nk = p['num_consts'], p['num_carry']
                c, carry, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
                ys = []
                order = range(p['length'])
                for i in (reversed(order) if p['reverse'] else order):
                    o = self.run(p['jaxpr'].jaxpr, p['jaxpr'].consts, c + carry + [x[i] for x in xs])
                    carry = o[:nk]
                    ys.append(o[nk:])
                if p['reverse']:
                    ys = ys[::-1]
                outs = carry + ([jnp.stack(y) for y in zip(*ys)] if ys else [jnp.zeros(v.aval.shape, v.aval.dtype) for v in e.outvars[nk:]])
            elif nm == 'while':
                p = e.params
                a, b = p['cond_nconsts'], p['body_nconsts']
                cc, bc, carry = ins[:a], ins[a:a + b], ins[a + b:]
                while bool(self.run(p['cond_jaxpr'].jaxpr, p['cond_jaxpr'].consts, cc + carry)[0]):
                    carry = self.run(p['body_jaxpr'].jaxpr, p['body_jaxpr'].consts, bc + carry)
                outs = carry
            else:
                raise Skip(f'primitive {nm} with random draws inside')
            if not e.primitive.multiple_results and not isinstance(outs, (list, tuple)):
                outs = [outs]
            env.update(zip(e.outvars, outs))
        return [rd(v) for v in jaxpr.outvars]


def judge(f, args, **d):
    r = Rec()
    try:
        cj = jax.make_jaxpr(f)(*args)
        r.run(cj.jaxpr, cj.consts, jax.tree_util.tree_leaves(args))
    except (NotImplementedError, TypeError, AttributeError, KeyError, ValueError) as e:
        raise Skip(f'{type(e).__name__} {e}')
    seen = {}
    for k, nm, n in r.used:
        if k in seen:
            raise Fail('a random key is used for two draws', key=f'{seen[k]} {n}', data=list(k), first=seen[k], second=n, **d)
        seen[k] = n
        if k in r.split:
            raise Fail('a random key is both used for a draw and split', data=list(k), draw=n, **d)
    true('there are draws', len(seen) > 0)


def step_case(cfg, seed):
    step = get('mcmcstep.step')
    for r, base, b in states(cfg, seed, 1):
        opt = b['opt']
        arrs = {k: v for k, v in b.items() if k != 'opt'}

        def f(arrs, key):
            o = step({**arrs, 'opt': opt}, key)
            return {k: v for k, v in o.items() if k != 'opt'}
        judge(f, (arrs, jr.key(int(r.integers(2 ** 30)))), cfg=list(map(str, cfg)))


def run_case(cfg, seed, g):
    run = get('mcmcloop.run_mcmc')
    for r, base, b in states(cfg, seed, 1):
        opt = b['opt']
        arrs = {k: v for k, v in b.items() if k != 'opt'}
        f = lambda arrs, key: run({**arrs, 'opt': opt}, *g, lambda **kw: None, key)[1]
        judge(f, (arrs, jr.key(int(r.integers(2 ** 30)))), run=list(g))


def cases(rng, tier):
    small = [c for c in CFGS if c[2] > 0 and c[1] < 1000 and c[0] > 0]
    for j in range(12 if tier == 'quick' else 60):
        cfg, s = small[j % len(small)], int(rng.integers(2 ** 31))
        if j % 4 == 1:
            g = [(2, 2, 2), (0, 3, 1), (3, 1, 2)][(j // 4) % 3]
            yield dict(kind='run', cfg=list(map(str, cfg)), n=list(g), seed=s), (lambda cfg=cfg, s=s, g=g: run_case(cfg, s, g))
        else:
            yield dict(kind='step', cfg=list(map(str, cfg)), seed=s), (lambda cfg=cfg, s=s: step_case(cfg, s))

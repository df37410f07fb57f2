from .states import *
from .states import _acc
from .c18 import without
import contextlib
import jax.random as jr


@contextlib.contextmanager
def normal_draws(values):
    """let every normal draw of the code return values(size); reports how many draws there were"""
    orig, seen = jr.normal, []

    def normal(key, shape=(), dtype=float, **kw):
        o = orig(key, shape, dtype, **kw)
        seen.append(o.shape)
        return jnp.asarray(values(int(np.prod(o.shape))).reshape(o.shape), o.dtype)
    jr.normal = normal
    jax.random.normal = normal
    try:
        yield seen
    finally:
        jr.normal = jax.random.normal = orig


KINDS = {'zero draws': lambda n: np.zeros(n), 'unit draws': lambda n: np.ones(n)}


def posterior(pre, post, t):
    """leaf -> (mean, sd) for the leaves of the tree that was kept"""
    R = without(pre, post, t)
    s, v = [post[k][t].astype(np.int64) for k in ('split_trees', 'var_trees')]
    idx = routes(pre['X'].astype(np.int64), v, s)
    sig, T = float(pre['sigma2']), len(pre['split_trees'])
    out = {}
    for i in leaves(s):
        n, S = (idx == i).sum(), R[idx == i].sum()
        var = 1 / (n / sig + T)
        out[i] = var * S / sig, np.sqrt(var), n, S
    return out


def run(cfg, seed):
    for name, vals in KINDS.items():
        fns = None
        for r, base, b in states(cfg, seed, 8):
            if fns is None:
                fns = proposals(base), jitted(lambda b, m, k: _acc(b, m, k), base)
            with normal_draws(vals) as seen:
                mv = fns[0](b, key(r))
                mv = dict(mv, logu=jnp.asarray(np.where(r.random(cfg[3]) < 0.5, -1e30, 1e30)).astype(mv['logu'].dtype))
                post = npd(fns[1](b, mv, key(r)))
            if seen:
                run.seen = list(seen)
            pre, m = npd(strip(b)), npd(mv)
            for t in range(cfg[3]):
                for i, (mean, sd, n, S) in posterior(pre, post, t).items():
                    x = float(post['leaf_trees'][t][i])
                    d = dict(tree=t, leaf=i, points=n, residual_sum=S, sigma2=pre['sigma2'], num_trees=cfg[3], grow=m['grow'][t], node=m['node'][t], logu=m['logu'][t],
                             rules=post['split_trees'][t])
                    close(f'leaf value with {name}', x, mean + (sd if name == 'unit draws' else 0), rtol=1e-3, atol=1e-3, **d)


def shared(cfg, seed):
    """no two leaves receive the same normal draw: a pair of slots that agrees every time, over several keys, is an alarm"""
    fns, seen, same = None, {}, {}
    for r, base, b in states(cfg, seed, 12):
        if fns is None:
            fns = proposals(base), jitted(lambda b, m, k: _acc(b, m, k), base)
        mv = fns[0](b, key(r))
        post, pre = npd(fns[1](b, mv, key(r))), npd(strip(b))
        z = {}
        for t in range(cfg[3]):
            for i, (mean, sd, n, S) in posterior(pre, post, t).items():
                if len(z) < 150:
                    z[t, i] = (float(post['leaf_trees'][t][i]) - mean) / sd
        ks = list(z)
        for a in range(len(ks)):
            for c in range(a):
                q = ks[c], ks[a]
                seen[q] = seen.get(q, 0) + 1
                same[q] = same.get(q, 0) + (abs(z[q[0]] - z[q[1]]) < 0.01)
    for q, m in seen.items():
        true(f'leaves (tree, node) {q[0]} and {q[1]} received the same normal draw in each of {m} steps', not (m >= 6 and same[q] == m))


def cases(rng, tier):
    run.seen = None

    def one(cfg, seed):
        run(cfg, seed)
        shared(cfg, seed)
        if run.seen is None:
            raise Skip('the code does not draw with jax.random.normal')
    return step_cases(rng, tier, one)

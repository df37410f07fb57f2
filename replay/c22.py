"""run_mcmc with a simple deterministic step in place of the real one, against the chain seen by the callback."""
from .common import *
import jax.random as jr
BURN = ('sigma2', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')
MAIN = BURN + ('leaf_trees', 'var_trees', 'split_trees')


def fake(b, key):
    out = dict(b)
    for n, k in enumerate(sorted(x for x in b if x not in ('resid', 'ratios'))):
        out[k] = b[k] * 0.5 + jr.normal(jr.fold_in(key, n), b[k].shape)
    if 'ratios' in b:
        out['ratios'] = {q: v * 0.25 + jr.normal(jr.fold_in(key, 77 + i), v.shape) for i, (q, v) in enumerate(sorted(b['ratios'].items()))}
    out['resid'] = jr.key_data(key).astype(jnp.uint32)
    return out


def npt(b):
    return jax.tree_util.tree_map(np.asarray, b)


def same(what, a, b, **d):
    la, lb = jax.tree_util.tree_leaves_with_path(a), jax.tree_util.tree_leaves_with_path(b)
    true(what + ': fields', [str(p) for p, _ in la] == [str(p) for p, _ in lb], got=[str(p) for p, _ in la], want=[str(p) for p, _ in lb])
    for (p, x), (_, y) in zip(la, lb):
        if x.dtype.kind == 'u':
            eq(f'{what}: {p}', x, y, **d)
        else:
            close(f'{what}: {p}', x, y, rtol=1e-4, atol=1e-5, **d)


def check(rng, nb, ns, nk, ratios):
    from bartz import mcmcstep
    b = {k: jnp.asarray(rng.normal(size=(1 + i,)), jnp.float32) for i, k in enumerate(MAIN + ('leaf_indices',))}
    b['resid'] = jnp.zeros(2, jnp.uint32)
    if ratios:
        b['ratios'] = dict(log_likelihood=jnp.zeros(3), log_trans_prior=jnp.ones(3))
    seen = []

    def callback(*, bart, burnin, i_total, i_skip, n_burn, n_save, n_skip):
        stat = (n_burn, n_save, n_skip)
        jax.debug.callback(lambda b, f, t, s: seen.append((npt(b), bool(f), int(t), int(s), stat)), bart, burnin, i_total, i_skip, ordered=True)
    real = mcmcstep.step
    jax.clear_caches()
    mcmcstep.step = fake
    try:
        bart, tb, tm = public('mcmcloop.run_mcmc', b, nb, ns, nk, callback, jr.key(int(rng.integers(2 ** 30))))
        jax.block_until_ready(bart)
        jax.effects_barrier()
    finally:
        mcmcstep.step = real
        jax.clear_caches()
    N = nb + ns * nk
    true('the callback sees every iteration once, in order', [s[2] for s in seen] == list(range(N)), got=[s[2] for s in seen], n=N)
    true('phase flag', [s[1] for s in seen] == [m < nb for m in range(N)], got=[s[1] for s in seen])
    true('iterations since the last saved one', [s[3] for s in seen] == [m if m < nb else (m - nb) % nk for m in range(N)], got=[s[3] for s in seen])
    true('settings', all(s[4] == (nb, ns, nk) for s in seen))
    chain = [npt(b)] + [s[0] for s in seen]
    keys = set()
    jf = jax.jit(fake)
    for m in range(N):
        kd = chain[m + 1]['resid']
        keys.add(tuple(kd.tolist()))
        same(f'iteration {m} is the step applied to the state before it', chain[m + 1], npt(jf(chain[m], jr.wrap_key_data(jnp.asarray(kd)))))
    true('successive keys are distinct', len(keys) == N, keys=sorted(keys)[:20], n=N)
    same('final state', npt(bart), chain[-1])
    for nm, tr, names, its in (('burn-in', tb, BURN, range(nb)), ('main', tm, MAIN, [nb + (j + 1) * nk - 1 for j in range(ns)])):
        names = names + (('ratios',) if ratios else ())
        true(f'{nm} trace: fields', set(tr) == set(names), got=sorted(tr), want=sorted(names))
        for f in names:
            for q in (sorted(b[f]) if f == 'ratios' else [None]):
                x = np.asarray(tr[f] if q is None else tr[f][q])
                get_ = (lambda s: s[f]) if q is None else (lambda s: s[f][q])
                w = np.array([get_(chain[m + 1]) for m in its]) if its else np.zeros((0,) + np.shape(get_(npt(b))))
                close(f'{nm} trace: {f}', x, w, rtol=1e-5, atol=1e-6, iterations=list(its))


def cases(rng, tier):
    grid = [(2, 3, 2), (0, 2, 3), (3, 0, 2), (0, 0, 1), (1, 1, 1), (5, 4, 1), (4, 2, 5), (3, 5, 4), (0, 1, 7), (7, 1, 2)]
    for j in range(10 if tier == 'quick' else 60):
        g = grid[j] if j < len(grid) else tuple(int(x) for x in (rng.integers(0, 8), rng.integers(0, 6), rng.integers(1, 6)))
        yield dict(n_burn=g[0], n_save=g[1], n_skip=g[2], ratios=bool(j % 2)), (lambda g=g, j=j, s=int(rng.integers(2 ** 31)): check(Rng(s), *g, bool(j % 2)))

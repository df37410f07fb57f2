from .states import *
from .states import _sm


def check(cfg, b, mv):
    for t in range(cfg[3]):
        nd = int(mv['node'][t])
        gr, pr = growable(b, t), prunable(b, t)
        d = dict(split=b['split_trees'][t], node=nd, grow=bool(mv['grow'][t]), growable=gr, prunable=pr)
        eq('number of growable leaves', int(mv['num_growable'][t]), len(gr), **d)
        if mv['grow'][t]:
            true('a grow move is selected though no leaf is growable', bool(gr), **d)
            true(f'grow move at node {nd}, which is not an eligible leaf', nd in gr, **d)
        else:
            true('a prune move is selected though nothing can be pruned and something can grow', bool(pr) or not gr, **d)
            eq('prune allowed', bool(mv['allowed'][t]), bool(pr), **d)
            if pr:
                true(f'prune move at node {nd}, which is not a decision node above two leaves', nd in pr, **d)
        eq('children', [int(mv['left'][t]), int(mv['right'][t])], [2 * nd, 2 * nd + 1], **d)
        true('logarithm of a uniform', mv['logu'][t] <= 0)


def freq(seed):
    """selection frequencies over many keys: kinds of moves, leaves and nodes (6 sigma)"""
    r = Rng(seed)
    cfg = (3, 3, 60, 3, 8, None, None, None)
    bart, ms, X, y = base_state(r, cfg)
    b = randomize(r, bart, cfg, ms, X)
    N = 3000
    pm = jax.jit(jax.vmap(lambda k: strip(_sm(b, k))))
    mv = npd(pm(jax.random.split(key(r), N)))
    pb = npd(strip(b))
    for t in range(3):
        gr, pr = growable(pb, t), prunable(pb, t)
        pg = 0.5 if gr and pr else float(bool(gr))
        f = mv['grow'][:, t].mean()
        true(f'frequency of grow moves {f}, expected {pg}', abs(f - pg) <= 6 * np.sqrt(pg * (1 - pg) / N) + 1e-9, split=pb['split_trees'][t])
        w = pb['p_propose_grow'].astype(float)
        for which, opts, wt in ((True, gr, [w[i] for i in gr]), (False, pr, [1.0] * len(pr))):
            sel = mv['node'][:, t][mv['grow'][:, t] == which]
            if len(sel) < 200:
                continue
            for i, x in zip(opts, wt):
                q = x / sum(wt)
                f = (sel == i).mean()
                true(f'frequency {f} of node {i}, expected {q}', abs(f - q) <= 6 * np.sqrt(q * (1 - q) / len(sel)) + 1e-9, split=pb['split_trees'][t], grow=which)


def cases(rng, tier):
    for k, c in enumerate(step_cases(rng, tier, lambda cfg, seed: moves_check(check, cfg, seed))):
        yield c
        if k % 3 == 1:
            seed = int(rng.integers(2 ** 31))
            yield dict(freq=seed), lambda seed=seed: freq(seed)

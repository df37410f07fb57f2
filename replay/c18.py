from .states import *
from .c16 import grown_counts, applied


def tree_values(b, post, t, new):
    src = post if new else b
    s, v, l = [np.asarray(src[k][t]) for k in ('split_trees', 'var_trees', 'leaf_trees')]
    return l.astype(float)[routes(b['X'].astype(np.int64), v.astype(np.int64), s.astype(np.int64))]


def without(pre, post, t):
    """residuals of the points without tree t; the trees before it are already updated"""
    T = len(pre['split_trees'])
    return pre['y'].astype(float) - sum((tree_values(pre, post, s, s < t) for s in range(T) if s != t), np.zeros(len(pre['y'])))


def mll(n, S, sig, tau):
    return 0.5 * np.log(sig / (sig + n * tau)) + tau * S * S / (2 * sig * (sig + n * tau))


def want(pre, mv, post, t):
    nl, nr, idx = grown_counts(pre, mv, t)
    R, node = without(pre, post, t), int(mv['node'][t])
    SL, SR = R[idx == 2 * node].sum(), R[idx == 2 * node + 1].sum()
    sig, tau = float(pre['sigma2']), 1 / len(pre['split_trees'])
    return mll(nl, SL, sig, tau) + mll(nr, SR, sig, tau) - mll(nl + nr, SL + SR, sig, tau), (nl, nr, SL, SR)


def real_move(pre, mv, t):
    return bool(mv['allowed'][t]) and 1 <= int(mv['node'][t]) < pre['split_trees'].shape[1]


def check(cfg, pre, mv, post, r):
    for t in range(cfg[3]):
        if real_move(pre, mv, t):
            w, parts = want(pre, mv, post, t)
            close(f'log likelihood ratio of the move of tree {t}', post['ratios']['log_likelihood'][t], w, rtol=2e-3, atol=2e-3,
                  node=mv['node'][t], grow=mv['grow'][t], counts_and_sums=parts, sigma2=pre['sigma2'], num_trees=cfg[3])


def unsaved(cfg, seed):
    """without stored ratios: a move is applied just below the threshold and not just above it"""
    if cfg[2] == 0:
        return
    fns = None
    r = Rng(seed)
    base, ms, X, y = base_state(r, cfg)
    quiet, _, _, _ = base_state(Rng(seed), cfg, save_ratios=False)
    for _ in range(6):
        b = randomize(r, base, cfg, ms, X)
        q = {k: v for k, v in b.items() if k != 'ratios'}
        q['opt'] = quiet['opt']
        if 'ratios' in quiet:
            q['ratios'] = quiet['ratios']
        if fns is None:
            fns = proposals(base), jitted(lambda b, m, k: _acc(b, m, k), base), jitted(lambda b, m, k: _acc(b, m, k), q)
        pm, full, noratio = fns
        mv, k2 = pm(b, key(r)), key(r)
        m0 = npd(mv)
        logu = np.where(r.random(cfg[3]) < 0.5, -1e30, 1e30).astype(np.float32)
        for t in range(cfg[3]):
            if not real_move(npd(strip(b)), m0, t):
                continue
            post = npd(full(b, dict(mv, logu=jnp.asarray(logu)), k2))
            pre = npd(strip(b))
            nl, nr, _ = grown_counts(pre, m0, t)
            if cfg[5] is not None and min(nl, nr) < cfg[5]:
                continue
            w, parts = want(pre, m0, post, t)
            thr = float(post['ratios']['log_trans_prior'][t]) + w
            thr = thr if m0['grow'][t] else -thr
            if not np.isfinite(thr) or abs(thr) > 50:
                continue
            for d in (-0.05, 0.05):
                u = logu.copy()
                u[t] = thr + d
                mm = dict(m0, logu=u)
                po = npd(noratio(q, dict(mv, logu=jnp.asarray(u)), k2))
                true(f'ratios not stored: move of tree {t} with log u {d:+} from the exact ratio is {"not " * (not applied(pre, mm, po, t))}applied',
                     applied(pre, mm, po, t) == (d < 0), node=m0['node'][t], grow=m0['grow'][t], counts_and_sums=parts, sigma2=pre['sigma2'], ratio=thr)


from .states import _acc


def cases(rng, tier):
    def both(cfg, seed):
        accept_check(check, cfg, seed, n=16)
        unsaved(cfg, seed)
    return step_cases(rng, tier, both)

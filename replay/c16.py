from .states import *


def grown_counts(pre, mv, t):
    """points in the two children of the node of the move, in the larger of the two trees"""
    v, s = pre['var_trees'][t].astype(np.int64).copy(), pre['split_trees'][t].astype(np.int64).copy()
    node = int(mv['node'][t])
    if mv['grow'][t]:
        u = int(mv['grow_var'][t])
        v[node], s[node] = u, int(mv['grow_split'][t])
    idx = routes(pre['X'].astype(np.int64), v, s)
    return int(np.sum(idx == 2 * node)), int(np.sum(idx == 2 * node + 1)), idx


def expected(cfg, pre, mv, post, t):
    """None if too close to call, else whether the move has to be applied"""
    if not mv['allowed'][t]:
        return False
    if cfg[5] is not None:
        nl, nr, _ = grown_counts(pre, mv, t)
        if nl < cfg[5] or nr < cfg[5]:
            return False
    r = float(post['ratios']['log_trans_prior'][t]) + float(post['ratios']['log_likelihood'][t])
    r = r if mv['grow'][t] else -r
    if not np.isfinite(r) or abs(r - float(mv['logu'][t])) < 1e-4 * (1 + abs(r)):
        return None
    return float(mv['logu'][t]) <= r


def applied(pre, mv, post, t):
    node = int(mv['node'][t])
    if not mv['allowed'][t]:
        return False
    return (post['split_trees'][t][node] != 0) == bool(mv['grow'][t])


def check(cfg, pre, mv, post, r):
    for t in range(cfg[3]):
        s0, s1 = pre['split_trees'][t].astype(np.int64), post['split_trees'][t].astype(np.int64)
        node = int(mv['node'][t])
        d = dict(tree=t, grow=bool(mv['grow'][t]), allowed=bool(mv['allowed'][t]), node=node, before=s0, after=s1, logu=mv['logu'][t],
                 ratios={k: v[t] for k, v in post['ratios'].items()})
        want = s0.copy()
        acc = applied(pre, mv, post, t)
        if acc:
            want[node] = int(mv['grow_split'][t]) if mv['grow'][t] else 0
        eq(f'rules of tree {t} after the acceptance stage', s1, want, **d)
        v0, v1 = pre['var_trees'][t].astype(np.int64).copy(), post['var_trees'][t].astype(np.int64)
        if acc and mv['grow'][t]:
            v0[node] = int(mv['grow_var'][t])
        eq(f'axes of the decision nodes of tree {t} after the acceptance stage', np.where(s1 != 0, v1, 0), np.where(s1 != 0, v0, 0), **d)
        e = expected(cfg, pre, mv, post, t)
        if e is not None:
            true(f'move of tree {t} was {"applied" if acc else "not applied"}', acc == e, **d)


def cases(rng, tier):
    return step_cases(rng, tier, lambda cfg, seed: accept_check(check, cfg, seed))

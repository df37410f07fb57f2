from .states import *


def check(cfg, pre, post):
    mp = cfg[5]
    if mp is None:
        return
    X = post['X'].astype(np.int64)
    for t in range(cfg[3]):
        s = post['split_trees'][t]
        idx = routes(X, post['var_trees'][t].astype(np.int64), s.astype(np.int64))
        cnt = np.bincount(idx, minlength=2 * len(s))
        for i in leaves(s):
            if len(s) > 1 and s[1] != 0:
                true(f'leaf {i} of tree {t} holds {cnt[i]} points, minimum {mp}', cnt[i] >= mp, split=s)
            if i < len(s):
                true(f'growability flag of leaf {i} of tree {t} with {cnt[i]} points, minimum {mp}', bool(post['affluence_trees'][t][i]) == bool(cnt[i] >= 2 * mp), split=s)


def cases(rng, tier):
    def fix(cfg, seed):
        if cfg[5] is None:
            cfg = cfg[:5] + (1 + seed % 6,) + cfg[6:]
        one_step_check(check, cfg, seed)
    return step_cases(rng, tier, fix)

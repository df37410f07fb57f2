from .states import *


def check(cfg, pre, post):
    X = post['X'].astype(np.int64)
    for t in range(cfg[3]):
        want = routes(X, post['var_trees'][t].astype(np.int64), post['split_trees'][t].astype(np.int64))
        eq(f'stored leaf indices of tree {t} after a step', post['leaf_indices'][t].astype(np.int64), want, var=post['var_trees'][t], split=post['split_trees'][t], before_var=pre['var_trees'][t], before_split=pre['split_trees'][t])


def init_check(cfg, seed):
    for r, base, b in states(cfg, seed, 1):
        eq('initial leaf indices', np.asarray(b['leaf_indices']), np.ones((cfg[3], cfg[2]), int))


def cases(rng, tier):
    def both(cfg, seed):
        init_check(cfg, seed)
        one_step_check(check, cfg, seed)
    return step_cases(rng, tier, both)

from .states import *


def check(cfg, pre, post):
    close('stored residuals after a step', post['resid'], post['y'].astype(float) - forest_value(post), rtol=1e-3, atol=2e-3, split=post['split_trees'][0])


def cases(rng, tier):
    def both(cfg, seed):
        for r, base, b in states(cfg, seed, 1):
            eq('initial residuals', np.asarray(b['resid']), np.asarray(b['y']))
        one_step_check(check, cfg, seed)
    return step_cases(rng, tier, both)

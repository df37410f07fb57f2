from .states import *


def check(cfg, pre, post):
    for k in pre:
        if isinstance(pre[k], dict):
            continue
        if pre[k] is None:
            true(f'{k} appears in the state', post.get(k) is None)
            continue
        true(f'shape or type of {k} changed', post[k].shape == pre[k].shape and post[k].dtype == pre[k].dtype, before=(pre[k].shape, str(pre[k].dtype)), after=(post[k].shape, str(post[k].dtype)))
    check_wf(post, 'after a step', before_var=pre['var_trees'], before_split=pre['split_trees'])


def cases(rng, tier):
    return step_cases(rng, tier, lambda cfg, seed: one_step_check(check, cfg, seed))

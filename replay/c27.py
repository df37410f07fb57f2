from .states import *
from .c16 import applied


def check(cfg, pre, mv, post, r):
    T = cfg[3]
    g, a = mv['grow'].astype(bool), mv['allowed'].astype(bool)
    acc = np.array([applied(pre, mv, post, t) for t in range(T)])
    for k, w in dict(grow_prop_count=g, prune_prop_count=~g & a, grow_acc_count=g & acc, prune_acc_count=~g & acc).items():
        eq(k, int(post[k]), int(np.sum(w)), grow=g, allowed=a, applied=acc)


def one(cfg, pre, post):
    gp, pp, ga, pa = (int(post[k]) for k in ('grow_prop_count', 'prune_prop_count', 'grow_acc_count', 'prune_acc_count'))
    true('acceptances do not exceed proposals, nor proposals the trees', ga <= gp and pa <= pp and gp + pp <= cfg[3] and min(ga, gp, pa, pp) >= 0, counts=(gp, pp, ga, pa))
    d = (post['split_trees'] != 0).astype(int) - (pre['split_trees'] != 0).astype(int)
    eq('trees that gained a rule in the step', int(np.sum(np.any(d > 0, 1))), ga, counts=(gp, pp, ga, pa))
    eq('trees that lost a rule in the step', int(np.sum(np.any(d < 0, 1))), pa, counts=(gp, pp, ga, pa))


def cases(rng, tier):
    def both(cfg, seed):
        one_step_check(one, cfg, seed, n=12)
        accept_check(check, cfg, seed, n=20)
    return step_cases(rng, tier, both)

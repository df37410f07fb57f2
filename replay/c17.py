from .states import *
from .c16 import grown_counts, applied


def flags_of(cfg, split, cnt):
    return np.ones(len(split), bool) if cfg[5] is None else flags(split, cnt, cfg[5])


def tree_info(pre, split, fl):
    """growable leaves (with their weights) and prunable nodes of a tree"""
    H = len(split)
    g = [i for i in leaves(split) if i < H and fl[i]]
    return g, sum(float(pre['p_propose_grow'][i]) for i in g), prunable(None, 0, split)


def exact(cfg, pre, mv, t, split=None, fl=None, counts=None):
    """log of prior ratio x P(propose the prune) / P(propose the growth), of the node of the move of tree t"""
    node, grow = int(mv['node'][t]), bool(mv['grow'][t])
    split = pre['split_trees'][t].astype(np.int64) if split is None else split
    H = len(split)
    nl, nr, idx = grown_counts(pre, mv, t)
    a = pre.get('affluence_trees')
    fl = (np.ones(H, bool) if a is None else a[t].astype(bool)) if fl is None else fl
    small, large, fs, fg = split.copy(), split.copy(), fl.copy(), fl.copy()
    if grow:
        large[node] = 1
        for x, n in ((2 * node, nl), (2 * node + 1, nr)):
            if x < H:
                fg[x] = cfg[5] is None or n >= 2 * cfg[5]
    else:
        small[node], fs[node] = 0, True
    gs, w, _ = tree_info(pre, small, fs)
    gl, _, pl = tree_info(pre, large, fg)
    d = node.bit_length() - 1
    pn = pre['p_nonterminal'].astype(float)
    prior = (1 - pn[d + 1]) ** 2 * pn[d] / (1 - pn[d])
    p_grow = (0.5 if small[1] != 0 else 1) * float(pre['p_propose_grow'][node]) / w
    p_prune = (0.5 if gl else 1) / len(pl)
    return np.log(prior * p_prune / p_grow), dict(prior_ratio=prior, p_propose_grow=p_grow, p_propose_prune=p_prune)


def check(cfg, pre, mv, post, r):
    H = pre['split_trees'].shape[1]
    for t in range(cfg[3]):
        node, grow = int(mv['node'][t]), bool(mv['grow'][t])
        if not (grow or mv['allowed'][t]) or not 1 <= node < H:
            continue
        want, parts = exact(cfg, pre, mv, t)
        got = float(post['ratios']['log_trans_prior'][t])
        d = dict(tree=t, grow=grow, node=node, split=pre['split_trees'][t], growable=None if pre.get('affluence_trees') is None else pre['affluence_trees'][t], **parts)
        close(f'log transition and prior ratio of the move of tree {t}', got, want, rtol=1e-3, atol=1e-3, **d)
        if applied(pre, mv, post, t):
            back = dict(mv, grow=mv['grow'].copy())
            back['grow'][t] = not grow
            q = {**pre, **{k: post[k] for k in ('split_trees', 'var_trees', 'affluence_trees') if post.get(k) is not None}}
            q['var_trees'] = q['var_trees'].copy()
            q['var_trees'][t][node] = pre['var_trees'][t][node] if not grow else mv['grow_var'][t]
            if not grow:     # growing the node again with the rule that was removed
                back['grow_var'], back['grow_split'] = mv['grow_var'].copy(), mv['grow_split'].copy()
                back['grow_var'][t], back['grow_split'][t] = pre['var_trees'][t][node], pre['split_trees'][t][node]
            w2, parts = exact(cfg, q, back, t)
            close(f'log transition and prior ratio of undoing the move of tree {t}', got, w2, rtol=1e-3, atol=1e-3, after=post['split_trees'][t], **d)


def cases(rng, tier):
    return step_cases(rng, tier, lambda cfg, seed: accept_check(check, cfg, seed, n=24))

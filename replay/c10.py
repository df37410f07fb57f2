from .states import *


def check(cfg, b, mv):
    T, p = cfg[3], cfg[1]
    for t in range(T):
        v, s, ms = b['var_trees'][t].astype(int), b['split_trees'][t].astype(int), b['max_split'].astype(int)
        nd = int(mv['node'][t])
        gr = growable(b, t)
        if not mv['grow'][t]:
            continue
        d = dict(var=v, split=s, node=nd, grow_var=int(mv['grow_var'][t]), grow_split=int(mv['grow_split'][t]), allowed=bool(mv['allowed'][t]))
        u, k = int(mv['grow_var'][t]), int(mv['grow_split'][t])
        if mv['allowed'][t]:
            true(f'axis {u} of the proposed rule', 0 <= u < p, **d)
            lo, hi = ranges_of(v, s, ms, nd, u)
            true(f'proposed boundary {k} of predictor {u} at node {nd} is not in the open range ({lo},{hi})', lo < k < hi, **d)
            eq('axis stored for the node to grow', int(mv['var_trees'][t][nd]), u)
        # the predictor is skipped iff it is an exhausted ancestor
        anc = set()
        m = nd
        while m > 1:
            m //= 2
            anc.add(int(v[m]))
        def used(w):
            lo, hi = ranges_of(v, s, ms, nd, w)
            return w in anc and lo + 1 >= hi
        if 0 <= u < p:
            true(f'predictor {u} has nothing left to split at node {nd}', not used(u), **d)
        else:
            true(f'no predictor proposed though one is available at node {nd}', len(anc) >= p and all(used(w) for w in range(p)), **d)
        other = np.arange(len(s)) != nd
        eq('axes of other nodes', mv['var_trees'][t][other], b['var_trees'][t][other])


def helpers(seed):
    """split_range and ancestor_variables on random trees"""
    r = Rng(seed)
    p = int(r.choice([1, 2, 3, 255, 256, 257, 65536]))
    ms_ = int(r.choice([1, 2, 5, 254, 255, 256, 65535, 65536, 70000]))
    D = int(r.integers(1, 7))
    max_split, _ = data(r, p, 1, ms_)
    max_split[0] = max_split[-1] = ms_
    var, split = random_tree(r, D, p, max_split, 0.9)
    if p > 100 and r.random() < 0.7:
        q = (split > 0) & (r.random(len(var)) < 0.5)
        var2 = np.where(q, p - 1, var)
        var = np.where(split > 0, var2, var)
        split = np.where(q, r.integers(1, ms_ + 1, len(split)), split)
    sd, vd = min_udtype(ms_), min_udtype(p - 1)
    V, S, M = jnp.asarray(var.astype(vd)), jnp.asarray(split.astype(sd)), jnp.asarray(max_split.astype(sd))
    for node in ([1] + leaves(split)[:4] + [int(x) for x in r.integers(1, 2 ** D, 2)]):
        if node >= 2 ** D:
            continue
        for u in {int(var[max(1, node // 2)]), int(r.integers(p)), p - 1}:
            lo, hi = internal('mcmcstep.split_range', V, S, M, jnp.int32(node), jnp.asarray(np.array(u).astype(vd)))
            wl, wh = ranges_of(var, split, max_split, node, u)
            eq(f'open range of predictor {u} at node {node}', [int(lo), int(hi)], [wl + 1, wh], var=var, split=split, max_split=max_split[:10])
        av = np.asarray(internal('mcmcstep.ancestor_variables', V, M, jnp.int32(node))).astype(int)
        want, m = [], node
        while m > 1:
            m //= 2
            want.append(int(var[m]))
        eq(f'axes of the ancestors of node {node}', sorted(x for x in av if x < p), sorted(want), var=var, p=p)
        true(f'filling of the ancestor list of node {node}', all(x <= p for x in av) and len(av) == max(0, D - 1), got=av)


def cases(rng, tier):
    k = 0
    while True:
        if k % 2 == 0:
            cfg = pick(rng, k // 2)
            seed = int(rng.integers(2 ** 31))
            yield dict(cfg=cfg, seed=seed), lambda cfg=cfg, seed=seed: moves_check(check, cfg, seed)
        else:
            for _ in range(4):
                seed = int(rng.integers(2 ** 31))
                yield dict(helpers=seed), lambda seed=seed: helpers(seed)
        k += 1

"""Random valid sampler states, and running the real step on them."""
from .common import *
import functools

CFGS = [  # D, p, n, T, maxsplit, minpts, rb, cb
    (2, 3, 40, 4, 6, None, None, None),
    (9, 3, 300, 3, 255, None, None, None),
    (1, 2, 30, 3, 4, 3, 5, None),
    (3, 256, 60, 3, 255, 2, 7, 9),
    (3, 2, 11, 24, 5, 3, None, None),
    (2, 1, 7, 24, 6, 2, None, 2),
    (0, 2, 10, 2, 3, None, None, None),
    (4, 257, 50, 3, 2, None, 3, None),
    (3, 2, 80, 5, 256, 5, None, 13),
    (5, 1, 60, 2, 40, 1, 64, 100),
    (7, 3, 90, 2, 1, None, 1, 1),
    (2, 3, 0, 2, 5, None, None, None),
    (3, 65536, 25, 2, 3, None, 4, None),
    (2, 4, 50, 1, 65535, 4, 200, 3),
    (6, 5, 120, 6, 12, 3, None, None),
]


def pick(rng, k):
    if k < len(CFGS):
        return CFGS[k]
    D = int(rng.integers(0, 7))
    n = int(rng.integers(1, 150))
    opt = lambda *a: a[int(rng.integers(len(a)))]
    return (D, int(opt(1, 2, 3, 5, 30, 256)), n, int(rng.integers(1, 6)), int(opt(1, 2, 3, 10, 100, 255, 256)),
            opt(None, 1, 2, 5, 10), opt(None, 1, 3, 8, n, n + 7), opt(None, 1, 4, n + 1))


def prune_small(var, split, X, minpts):
    """remove rules until every leaf of a tree with rules has at least minpts points"""
    H = len(split)
    while True:
        idx = routes(X, var, split)
        cnt = np.bincount(idx, minlength=2 * H)
        bad = [i for i in leaves(split) if i > 1 and cnt[i] < minpts]
        if not bad:
            return var, split
        i = max(bad) // 2
        st = [i]
        while st:
            j = st.pop()
            if j < H:
                split[j] = 0
                st += [2 * j, 2 * j + 1]


def leaves(split):
    """indices of the actual leaves (bottom level included)"""
    H = len(split)
    out, st = [], [1]
    while st:
        i = st.pop()
        if i < H and split[i] != 0:
            st += [2 * i, 2 * i + 1]
        else:
            out.append(i)
    return sorted(out)


def decisions(split):
    H = len(split)
    out, st = [], [1]
    while st:
        i = st.pop()
        if i < H and split[i] != 0:
            out.append(i)
            st += [2 * i, 2 * i + 1]
    return sorted(out)


def flags(split, cnt, minpts):
    H = len(split)
    a = np.zeros(H, bool)
    for i in leaves(split):
        if i < H:
            a[i] = cnt[i] >= 2 * minpts
    return a


def base_state(r, cfg, save_ratios=True):
    D, p, n, T, ms, minpts, rb, cb = cfg
    max_split, X = data(r, p, n, ms)
    max_split[0] = max(max_split[0], 1)
    if p > 3:
        max_split[-1] = ms
        X[-1] = r.integers(0, ms + 1, n)
    sd = min_udtype(ms)
    y = r.standard_normal(n).astype(np.float32)
    pn = np.array([0.95 / (1 + d) ** 0.7 for d in range(D)], np.float32)
    kw = dict(X=jnp.asarray(X.astype(sd)), y=jnp.asarray(y), max_split=jnp.asarray(max_split.astype(sd)), num_trees=T, p_nonterminal=jnp.asarray(pn),
              sigma2_alpha=1.5, sigma2_beta=0.7, min_points_per_leaf=minpts, resid_batch_size=rb, count_batch_size=cb, save_ratios=save_ratios)
    bart = public('mcmcstep.init', **kw)
    return bart, max_split, X.astype(np.int64), y


def randomize(r, bart, cfg, max_split, X):
    """replace the forest of an initial state by a random valid one"""
    D, p, n, T, ms, minpts, rb, cb = cfg
    H = 2 ** D
    vs, ss, ls, li, af = [], [], [], [], []
    for _ in range(T):
        var, split = random_tree(r, D, p, max_split, r.choice([0.0, 0.5, 0.8, 0.95]))
        if minpts is not None:
            var, split = prune_small(var, split, X, minpts)
        idx = routes(X, var, split)
        cnt = np.bincount(idx, minlength=2 * H)
        lt = np.zeros(2 * H, np.float32)
        for i in leaves(split):
            lt[i] = r.standard_normal()
        if r.random() < 0.5:     # values left over from earlier trees are allowed anywhere but in the unused slot
            lt[1:] = np.where(lt[1:] == 0, r.standard_normal(2 * H - 1), lt[1:])
            var = np.where((split == 0) & (np.arange(H) > 0), r.integers(0, p, H), var)
        vs.append(var), ss.append(split), ls.append(lt), li.append(idx)
        af.append(flags(split, cnt, minpts) if minpts is not None else None)
    b = dict(bart)
    b['var_trees'] = jnp.asarray(np.array(vs).astype(bart['var_trees'].dtype))
    b['split_trees'] = jnp.asarray(np.array(ss).astype(bart['split_trees'].dtype))
    b['leaf_trees'] = jnp.asarray(np.array(ls))
    b['leaf_indices'] = jnp.asarray(np.array(li).reshape(T, n).astype(bart['leaf_indices'].dtype))
    if minpts is not None:
        b['affluence_trees'] = jnp.asarray(np.array(af))
    f = forest_value(b)
    b['resid'] = jnp.asarray((np.asarray(b['y'], np.float64) - f).astype(np.float32))
    b['sigma2'] = jnp.asarray(np.float32(r.choice([0.1, 1.0, 3.0])))
    return b


def forest_value(b):
    """sum over the trees of the value of the leaf each point is routed to"""
    X, V, S, L = [np.asarray(b[k]) for k in ('X', 'var_trees', 'split_trees', 'leaf_trees')]
    f = np.zeros(X.shape[1])
    for v, s, l in zip(V, S, L):
        f += l.astype(np.float64)[routes(X.astype(np.int64), v.astype(np.int64), s.astype(np.int64))]
    return f


def jitted(fn, bart):
    """compiled fn(state, ...) with the static parts of the state closed over"""
    opt = bart['opt']

    @jax.jit
    def f(arrs, *a):
        o = fn({**arrs, 'opt': opt}, *a)
        return jax.tree_util.tree_map(lambda x: x, strip(o))
    return lambda b, *a: f(strip(b), *a)


def strip(o):
    if isinstance(o, tuple):
        return tuple(strip(x) for x in o)
    if isinstance(o, dict):
        return {k: strip(v) for k, v in o.items() if k != 'opt'}
    return o


def key(r):
    return jax.random.key(int(r.integers(2 ** 31)))


def npd(o):
    """numpy copy of a (nested) dict"""
    if isinstance(o, dict):
        return {k: npd(v) for k, v in o.items() if k != 'opt'}
    return None if o is None else np.asarray(o)


def ranges_of(var, split, max_split, node, v):
    lo, hi = 0, int(max_split[v]) + 1
    while node > 1:
        par, right = node // 2, node % 2
        if int(var[par]) == v:
            if right:
                lo = max(lo, int(split[par]))
            else:
                hi = min(hi, int(split[par]))
        node = par
    return lo, hi


def check_wf(b, what, **d):
    V, S, ms = [np.asarray(b[k]).astype(np.int64) for k in ('var_trees', 'split_trees', 'max_split')]
    p = len(ms)
    for t, (v, s) in enumerate(zip(V, S)):
        H = len(s)
        true(f'{what}: data in the unused slot of tree {t}', s[0] == 0, split=s, **d)
        for i in range(1, H):
            if s[i] == 0:
                continue
            true(f'{what}: tree {t} has a rule at node {i} below a node without a rule', i == 1 or s[i // 2] != 0, split=s, **d)
            true(f'{what}: tree {t} node {i} uses predictor {v[i]} of {p}', 0 <= v[i] < p, var=v, split=s, **d)
            true(f'{what}: tree {t} node {i} boundary {s[i]} outside 1..{ms[v[i]]}', 1 <= s[i] <= ms[v[i]], var=v, split=s, **d)
            lo, hi = ranges_of(v, s, ms, i, int(v[i]))
            true(f'{what}: tree {t} node {i} boundary {s[i]} outside the range ({lo},{hi}) left by the rules above', lo < s[i] < hi, var=v, split=s, **d)


def growable(b, t):
    s = np.asarray(b['split_trees'][t])
    a = b.get('affluence_trees')
    return [i for i in leaves(s) if i < len(s) and (a is None or bool(np.asarray(a[t])[i]))]


def prunable(b, t, split=None):
    s = np.asarray(b['split_trees'][t]) if split is None else split
    H = len(s)
    return [i for i in decisions(s) if all(j >= H or s[j] == 0 for j in (2 * i, 2 * i + 1))]


_cache = {}


def proposals(bart):
    return jitted(lambda b, k: _sm(b, k), bart)


def _sm(b, k):
    return internal('mcmcstep.sample_moves', b, k)


def _acc(b, m, k):
    return internal('mcmcstep.accept_moves_and_sample_leaves', b, m, k)


def step_cases(rng, tier, check, n_states=12, **kw):
    """check(cfg, bart, r, fns) on random states"""
    k = 0
    while True:
        cfg = pick(rng, k)
        k += 1
        seed = int(rng.integers(2 ** 31))
        yield dict(cfg=cfg, seed=seed), lambda cfg=cfg, seed=seed: check(cfg, seed, **kw)


def states(cfg, seed, n=12):
    r = Rng(seed)
    bart, ms, X, y = base_state(r, cfg)
    yield r, bart, bart
    for _ in range(n - 1):
        yield r, bart, randomize(r, bart, cfg, ms, X)


def describe(b):
    return {k: np.asarray(b[k]) for k in ('var_trees', 'split_trees')}


def one_step_check(check, cfg, seed, n=40):
    st = None
    for r, base, b in states(cfg, seed, n):
        if st is None:
            st = jitted(lambda b, k: public('mcmcstep.step', b, k), base)
        post = st(b, key(r))
        check(cfg, npd(strip(b)), npd(post))
        # a second step from the state just reached
        post2 = st({**b, **post}, key(r))
        check(cfg, npd(post), npd(post2))


def moves_check(check, cfg, seed, n=40, reps=4):
    pm = None
    for r, base, b in states(cfg, seed, n):
        if pm is None:
            pm = proposals(base)
        for _ in range(reps):
            check(cfg, npd(strip(b)), npd(pm(b, key(r))))


def accept_check(check, cfg, seed, n=40, reps=2):
    """check(cfg, pre, moves, post, r)"""
    pm = ac = None
    for r, base, b in states(cfg, seed, n):
        if pm is None:
            pm = proposals(base)
            ac = jitted(lambda b, m, k: _acc(b, m, k), base)
        for q in range(reps):
            mv = pm(b, key(r))
            if q % 2:
                mv = dict(mv, logu=jnp.where(jnp.asarray(r.random(cfg[3]) < 0.5), -1e30, mv['logu']).astype(mv['logu'].dtype))
            post = ac(b, mv, key(r))
            check(cfg, npd(strip(b)), npd(mv), npd(post), r)

from .common import *
import math


def check(rng, cfg):
    p, n, T, d, mp, ratios, udt = cfg
    maxs = int(rng.integers(1, 256 if udt == 'uint8' else 2 ** 16))
    ms, X = data(rng, p, n, maxs)
    y = rng.normal(size=n).astype(np.float32)
    pn = (0.95 / (1 + np.arange(d)) ** 2).astype(np.float32)
    al, be = float(rng.choice([1.5, 0.5, 7.])), float(rng.choice([0.7, 0.01, 100.]))
    if rng.random() < 0.15:
        al, be = [(0., 0.), (0., 1.), (1., 0.)][rng.integers(3)]
    kw = dict(min_points_per_leaf=mp) if mp is not None else {}
    b = public('mcmcstep.init', X=jnp.asarray(X.astype(udt)), y=jnp.asarray(y), max_split=jnp.asarray(ms.astype(udt)), num_trees=T, p_nonterminal=jnp.asarray(pn),
               sigma2_alpha=jnp.float32(al), sigma2_beta=jnp.float32(be), save_ratios=ratios, **kw)
    H = 2 ** d
    b0, b = b, {k: (np.asarray(v) if not isinstance(v, dict) and v is not None else v) for k, v in b.items()}
    eq('leaf values are zero', b['leaf_trees'], np.zeros((T, 2 * H)))
    eq('no axes', b['var_trees'], np.zeros((T, H)))
    eq('trees have no rules', b['split_trees'], np.zeros((T, H)))
    eq('residuals are the response', b['resid'], y)
    eq('response', b['y'], y)
    eq('predictors', b['X'], X)
    eq('max_split', b['max_split'], ms)
    eq('every point is at the root', b['leaf_indices'], np.ones((T, n)))
    true('axis type', b['var_trees'].dtype.kind == 'u' and np.iinfo(b['var_trees'].dtype).max >= p - 1, dtype=str(b['var_trees'].dtype), p=p)
    true('boundary type', b['split_trees'].dtype.kind == 'u' and np.iinfo(b['split_trees'].dtype).max >= ms.max(), dtype=str(b['split_trees'].dtype))
    true('leaf index type', b['leaf_indices'].dtype.kind == 'u' and np.iinfo(b['leaf_indices'].dtype).max >= 2 * H - 1, dtype=str(b['leaf_indices'].dtype), H=H)
    for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'):
        eq(k, b[k], 0)
    close('depth probabilities end with a zero level', b['p_nonterminal'], np.append(pn, 0), rtol=1e-6, atol=0)
    lev = [0] + [int(math.log2(i)) for i in range(1, H)]
    if H > 1:
        close('probability of the depth of each node', b['p_propose_grow'][1:], pn[np.array(lev)][1:], rtol=1e-6, atol=0)
    eq('size of p_propose_grow', b['p_propose_grow'].shape, (H,))
    true('noise variance is positive', float(b['sigma2']) > 0 and np.isfinite(b['sigma2']), sigma2=float(b['sigma2']), alpha=al, beta=be)
    close('noise prior', [b['sigma2_alpha'], b['sigma2_beta']], [al, be], rtol=1e-6, atol=0)
    if mp is None:
        true('no minimum leaf size', b['min_points_per_leaf'] is None and b['affluence_trees'] is None)
    else:
        want = np.zeros((T, H), bool)
        want[:, 1:2] = n >= 2 * mp
        eq('growable flags', b['affluence_trees'], want, n=n, mp=mp)
        eq('minimum leaf size', b['min_points_per_leaf'], mp)
    true('ratios', ('ratios' in b) == ratios)
    o = b0['opt']
    true('options', o['require_min_points'] == (mp is not None) and all(o[k] is None or int(o[k]) >= 1 for k in ('resid_batch_size', 'count_batch_size')), opt=str(o))


def cases(rng, tier):
    for j in range(400 if tier == 'quick' else 4000):
        d = int(rng.choice([1, 2, 6, 7, 8, 9])) if j % 7 else int(rng.choice([14, 15, 16, 1]))
        n = int(rng.choice([1, 2, 3, 9, 10, 11, 40]))
        p = int(rng.choice([1, 3, 255, 256, 257, 300, 65536, 65537])) if j % 3 == 0 and d < 10 else int(rng.integers(1, 6))
        mp = [None, 5, 1, n // 2, (n + 1) // 2, 0][rng.integers(6)]
        cfg = (p, n, int(rng.integers(1, 5)), d, mp, bool(rng.integers(2)), ['uint8', 'uint16'][rng.integers(2)])
        yield dict(zip(('p', 'n', 'trees', 'depth', 'min_points', 'ratios', 'type'), cfg)), (lambda cfg=cfg, s=int(rng.integers(2 ** 31)): check(Rng(s), cfg))

from .common import *


def one(rng, n, T, size, B, dt):
    li = rng.integers(0, size, (T, n)).astype(dt)
    if n and rng.random() < 0.3:
        li[:] = rng.integers(0, size)
    f = internal
    got = np.asarray(f('mcmcstep.count_datapoints_per_leaf', jnp.asarray(li), size, B)).astype(np.int64)
    want = np.array([np.bincount(l.astype(int), minlength=size) for l in li]).reshape(T, size)
    eq('points per leaf', got, want, leaf_indices=li, batch_size=B)
    r = rng.integers(-1000, 1000, n).astype(np.float32)
    for t in range(min(T, 3)):
        got = np.asarray(f('mcmcstep.sum_resid', jnp.asarray(r), jnp.asarray(li[t]), size, B)).astype(float)
        eq('residuals per leaf', got, np.bincount(li[t].astype(int), weights=r, minlength=size).astype(float), leaf_indices=li[t], resid=r, batch_size=B)


def steps(rng, cfg, seed):
    """the same step with different batch sizes: counts and leaf indices do not depend on them"""
    from . import states as S
    outs = []
    for rb, cb in ((None, None), (cfg[6] or 7, cfg[7] or 11), (1, 1), (max(1, cfg[2]) + 3, max(1, cfg[2]) + 3)):
        r = Rng(seed)
        c2 = cfg[:6] + (rb, cb)
        bart, ms, X, y = S.base_state(r, c2)
        b = S.randomize(r, bart, c2, ms, X)
        st = S.jitted(lambda b, k: public('mcmcstep.step', b, k), b)
        outs.append((rb, cb, S.npd(st(b, jax.random.key(seed)))))
    ref = outs[0][2]
    for rb, cb, o in outs[1:]:
        d = dict(resid_batch_size=rb, count_batch_size=cb)
        if all(np.allclose(o['ratios'][k], ref['ratios'][k], rtol=1e-3, atol=1e-3, equal_nan=True) for k in ('log_trans_prior',)) and np.array_equal(o['split_trees'], ref['split_trees']):
            close('residuals after a step under other batch sizes', o['resid'], ref['resid'], rtol=1e-2, atol=1e-2, **d)
        close('transition and prior ratios under other batch sizes', o['ratios']['log_trans_prior'], ref['ratios']['log_trans_prior'], rtol=1e-3, atol=1e-3, **d)


def cases(rng, tier):
    k = 0
    fixed = [(0, 2, 4, None), (0, 1, 4, 3), (1, 1, 2, 1), (10, 3, 8, 3), (10, 3, 8, 10), (10, 2, 8, 11), (300, 2, 16, 7), (257, 1, 2, None), (300, 2, 2, 256), (70000, 1, 4, 1000), (66000, 1, 2, None), (1000, 1, 256, 999)]
    from . import states as S
    while True:
        if k < len(fixed):
            n, T, size, B = fixed[k]
        else:
            n, T, size = int(rng.integers(0, 400)), int(rng.integers(1, 6)), 2 ** int(rng.integers(1, 9))
            B = [None, 1, int(rng.integers(1, 50)), n + 1, max(1, n), max(1, n // 2)][int(rng.integers(6))]
        dt = ['uint8', 'uint16', 'uint32'][int(rng.integers(3))] if size <= 256 else ['uint16', 'uint32'][int(rng.integers(2))]
        seed = int(rng.integers(2 ** 31))
        yield dict(n=n, T=T, size=size, B=B, dtype=dt, seed=seed), lambda a=(n, T, size, B, dt), seed=seed: one(Rng(seed), *a)
        if k % 4 == 3:
            cfg = S.pick(rng, k // 4)
            yield dict(cfg=cfg, seed=seed), lambda cfg=cfg, seed=seed: steps(rng, cfg, seed)
        k += 1

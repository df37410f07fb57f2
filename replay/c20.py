from .states import *
import jax.random as jr


def one(cfg, seed):
    """the gamma draw is replaced by a known number and its shape recorded"""
    st, shapes = None, []
    value = 2.5
    orig = jr.gamma

    def fake(key, a, shape=None, dtype=None):
        return jnp.asarray(value + 0.25 * jnp.asarray(a), jnp.float32) if shape in (None, ()) else orig(key, a, shape)
    for r, base, b in states(cfg, seed, 12):
        b = dict(b, sigma2_alpha=jnp.float32(r.choice([0.5, 1.5, 4.0])), sigma2_beta=jnp.float32(r.choice([0.1, 0.7, 3.0])))
        if st is None:
            jr.gamma = fake
            try:
                st = jitted(lambda b, k: public('mcmcstep.step', b, k), base)
                post = npd(st(b, key(r)))
            finally:
                jr.gamma = orig
        else:
            post = npd(st(b, key(r)))
        al, be = float(b['sigma2_alpha']), float(b['sigma2_beta'])
        a = al + cfg[2] / 2
        want = (be + 0.5 * float(np.sum(post['resid'].astype(float) ** 2))) / (value + 0.25 * a)
        close('noise variance with a gamma draw set to 2.5 + shape / 4', float(post['sigma2']), want, rtol=1e-4, alpha=al, beta=be, n=cfg[2])
        true('noise variance is positive', float(post['sigma2']) > 0)


def cases(rng, tier):
    return step_cases(rng, tier, one)

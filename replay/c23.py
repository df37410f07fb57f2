from .states import *
N = 4000


def freq_ok(vals, allowed, probs, sentinel, what, **d):
    if not len(allowed):
        eq(what + ': nothing allowed', np.unique(vals), [sentinel], **d)
        return
    true(what + ': value outside the allowed ones', np.isin(vals, allowed), values=np.unique(vals), allowed=allowed, **d)
    for a, q in zip(allowed, probs):
        f = (vals == a).mean()
        true(f'{what}: frequency {f} of {a}, expected {q}', abs(f - q) <= 6 * np.sqrt(q * (1 - q) / len(vals)) + 1e-9, **d)


def masked(seed):
    r = Rng(seed)
    n = int(r.choice([1, 2, 3, 8, 17, 64]))
    mask = r.random(n) < r.choice([0, 0.2, 0.5, 1])
    if r.random() < 0.5 and n > 1:
        mask[-1] = True
    f = get('mcmcstep.randint_masked')
    v = np.asarray(jax.vmap(lambda k: internal('mcmcstep.randint_masked', k, jnp.asarray(mask)))(jax.random.split(key(r), N)))
    al = np.flatnonzero(mask)
    freq_ok(v, al, [1 / max(1, len(al))] * len(al), n, 'randint_masked', mask=mask)


def exclude(seed):
    r = Rng(seed)
    sup = int(r.choice([1, 2, 3, 5, 10, 30]))
    m = int(r.integers(0, 8))
    ex = r.integers(0, sup + 2, m)
    if r.random() < 0.3 and m:
        ex = np.concatenate([ex, ex])
    if r.random() < 0.3:
        ex = np.concatenate([np.arange(min(sup, 6)), ex]).astype(int)
    ty = np.dtype(r.choice(['uint8', 'uint16', 'int32']))
    sup_ = jnp.asarray(np.int32(sup)) if r.random() < 0.5 else sup
    v = np.asarray(jax.vmap(lambda k: internal('mcmcstep.randint_exclude', k, sup_, jnp.asarray(ex.astype(ty))))(jax.random.split(key(r), N)))
    al = np.setdiff1d(np.arange(sup), ex)
    freq_ok(v, al, [1 / max(1, len(al))] * len(al), sup, 'randint_exclude', sup=sup, exclude=ex)


def categ(seed):
    r = Rng(seed)
    n = int(r.choice([1, 2, 4, 9, 32]))
    w = (r.random(n) * (r.random(n) < r.choice([0.3, 0.7, 1]))).astype(np.float32)
    if r.random() < 0.5:
        w = np.round(w * 4).astype(np.float32)
    if not w.sum():
        w[int(r.integers(n))] = 1
    o = jax.vmap(lambda k: internal('mcmcstep.categorical', k, jnp.asarray(w)))(jax.random.split(key(r), N))
    v, s = np.asarray(o[0]), np.asarray(o[1])
    close('categorical: sum of the weights', s, np.full(N, w.sum()), rtol=1e-5, w=w)
    al = np.flatnonzero(w)
    freq_ok(v, al, w[al].astype(float) / w.astype(float).sum(), n, 'categorical', w=w)


def cases(rng, tier):
    while True:
        for f in (masked, exclude, categ):
            seed = int(rng.integers(2 ** 31))
            yield {f.__name__: seed}, lambda f=f, seed=seed: f(seed)

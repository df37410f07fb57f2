from .common import *


def cases(rng, tier):
    for d in range(0, 17):
        yield dict(depths=d), lambda d=d: depths(d)
    for d in range(0, 12):
        yield dict(make=d), lambda d=d: make(d)
    k = 0
    while k < 4000:
        D = k % 9 if k < 200 else int(rng.integers(0, 14))
        k += 1
        seed = int(rng.integers(2 ** 31))
        yield dict(D=D, seed=seed), lambda D=D, seed=seed: masks(D, seed)


def depths(d):
    L = 2 ** d
    g = np.asarray(public('grove.tree_depths', L), int)
    eq('tree_depths: position of the most significant bit', g, np.array([max(0, i.bit_length() - 1) for i in range(L)]), L=L)


def make(d):
    for dt in (np.float32, np.uint8, np.uint16, bool):
        t = public('grove.make_tree', d, dt)
        true('make_tree: all zero array of length 2**d', t.shape == (2 ** d,) and t.dtype == dt and not np.any(np.asarray(t)), d=d)
        true('tree_depth(make_tree(d)) == d', public('grove.tree_depth', t) == d, d=d)
    t = jnp.zeros((3, 2 ** d))
    true('tree_depth of a forest', public('grove.tree_depth', t) == d, d=d)


def masks(D, seed):
    r = Rng(seed)
    H = 2 ** D
    ms = int(r.choice([1, 3, 255, 256, 70000]))
    _, split = random_tree(r, D, 3, np.full(3, ms), r.choice([0.3, 0.6, 0.8, 1.0]), respect=False)
    if r.random() < 0.3 and H > 1:   # arbitrary arrays, with stray nodes
        split = np.where(r.random(H) < 0.5, 0, r.integers(1, ms + 1, H))
        split[0] = 0
    split = split.astype(min_udtype(ms))
    sp = lambda i: int(split[i]) if i < H else 0
    leaf = lambda i: i >= 1 and sp(i) == 0 and (i == 1 or sp(i // 2) != 0)
    for bottom in (False, True):
        n = H * (2 if bottom else 1)
        g = public('grove.is_actual_leaf', jnp.asarray(split), add_bottom_level=bottom)
        eq(f'is_actual_leaf(add_bottom_level={bottom})', np.asarray(g, bool), np.array([leaf(i) for i in range(n)]), split=split)
    g = public('grove.is_leaves_parent', jnp.asarray(split))
    eq('is_leaves_parent', np.asarray(g, bool), np.array([i >= 1 and sp(i) != 0 and sp(2 * i) == 0 and sp(2 * i + 1) == 0 for i in range(H)]), split=split)

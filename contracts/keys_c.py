"""Use of random keys: keys are terms of the free algebra of split and fold_in over the key given to the function."""
from dv.fw import *
from dv.fw import Contract, Item, register
from dv.theory import *
DRAWS = ['jax.random.randint', 'jax.random.uniform', 'jax.random.normal', 'jax.random.gamma']
from .compose_c import Whole


def alternatives(c, t):
    """[(condition, root, path)]: a key term as the key it descends from and the steps down"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return [(And(t.arg(0), a), r, p) for a, r, p in alternatives(c, t.arg(1))] + [(And(Not(t.arg(0)), a), r, p) for a, r, p in alternatives(c, t.arg(2))]
    d = t.decl()
    if d.eq(Key.spl):
        return [(a, r, p + [('s', t.arg(2))]) for a, r, p in alternatives(c, t.arg(0))]
    if d.eq(Key.fold):
        return [(a, r, p + [('f', t.arg(1))]) for a, r, p in alternatives(c, t.arg(0))]
    return [(T, t, [])]


def apart(p, q):
    """neither path is a prefix of the other (the number of children of a split is ignored: child i is child i)"""
    fs = []
    for (k1, i), (k2, j) in zip(p, q):
        fs.append(F if k1 != k2 else Eq(i, j))
    return Not(And(*fs))


def sites(c, names=DRAWS):
    """every use of a key: (label, batch sizes, key at a batch index, hypotheses, loops)"""
    res = []
    for cr in c.calls:
        if not isinstance(cr, dict) or cr['contract'].name not in names:
            continue

        def key(b, cr=cr):
            m = cr['inst'](b)
            ks = [x for x in tree_util.tree_leaves((m.args, m.kw), is_leaf=lambda x: isinstance(x, Arr)) if isinstance(x, Arr) and kind(x.dtype) == 'k']
            if len(ks) != 1 or ks[0].ndim:
                raise Unsupported(f'a draw with more than one key {cr["contract"].name} {ks} {m.args} {m.kw}')
            return ks[0]()
        res.append((cr['contract'].name, cr['bsizes'], key, cr['stack'], cr['loops']))
    for r in c.rand:
        if r['kind'] == 'bits':
            res.append(('random bits', r['key'].shape, lambda b, r=r: r['key'](*b), r['level'], tuple(c.loop_stack)))
    return res


def key_items(c, root, names=DRAWS):
    ss = sites(c, names)
    its = []
    if not ss:
        raise Unsupported('no draws found')
    for n, (lab, bs, key, stack, loops) in enumerate(ss):
        if loops:
            raise Unsupported('a draw inside a loop')

        def own(*b, key=key, stack=stack):
            return [Implies(And(a, *stack), bv(r.eq(root))) for a, r, p in alternatives(c, key(b))]
        its.append(Item(f'draw {n} ({lab}) uses a key that descends from the given one', own, dims=bs or None, auto=False))
        for m in range(n, len(ss)):
            lab2, bs2, key2, stack2, _ = ss[m]
            if m == n and not bs:
                continue

            def distinct(*b, n=n, m=m, key=key, key2=key2, bs=bs, stack=stack, stack2=stack2):
                b1, b2 = b[:len(bs)], b[len(bs):]
                h = And(*stack, *stack2)
                if n == m:
                    h = And(h, Or(*[x != y for x, y in zip(b1, b2)]))
                fs = []
                for a1, r1, p1 in alternatives(c, key(b1)):
                    for a2, r2, p2_ in alternatives(c, key2(b2)):
                        fs.append(Implies(And(h, a1, a2, bv(r1.eq(r2))), apart(p1, p2_)))
                return fs
            its.append(Item(f'draw {n} ({lab}) and draw {m} ({lab2}) use different keys, neither derived from the other' if m > n else f'the instances of draw {n} ({lab}) use different keys',
                            distinct, dims=(tuple(bs) + tuple(bs2)) or None, auto=False))
    return its


@register
class StepKeys(Whole):
    name = 'mcmcstep.step#C26'
    drop_calls = True

    def requires(self, c, A):
        return []

    def ensures(self, c, A, out):
        return key_items(c, A.key())

"""Contracts of the move-proposal functions of bartz.mcmcstep: open split ranges, ancestors, random selection."""
from dv.fw import *
from dv.fw import Contract, Item, register, houdini, install_invariants
from dv.theory import *
from dv import ext
from dv import prove as PV
from .grove_c import tree_dims, scalars, vectors, unfold_up

PDT = {'uint8': (1, 256), 'uint16': (257, 2 ** 16), 'uint32': (2 ** 16 + 1, 2 ** 24)}
SV = [('uint8', 'uint8'), ('uint16', 'uint16'), ('uint32', 'uint32'), ('uint16', 'uint8')]      # (cutpoint type, axis type)
BIG = 2 ** 31 - 1


def ranges(c, var, split, ms, p, u):
    """Lo_u, Hi_u: open interval of boundaries for predictor u left by the rules above a node.
    A boundary s of predictor u at node m is admissible iff Lo(m) < s < Hi(m)."""
    fam = c.__dict__.setdefault('_ranges', {})
    key = (id(var), id(split), id(ms))
    if key not in fam:
        fam[key] = (c.func('Lo', I, I, I), c.func('Hi', I, I, I), {}, (var, split, ms))
    LoF, HiF, memo, _ = fam[key]
    if u.get_id() not in memo:
        Lo = HeapFn(c, 'Lo', I, iv(0), lambda w, b, v: If(And(var(w) == u, b == 1), Max(v, split(w)), v), fn=lambda m: LoF(u, m))
        Hi = HeapFn(c, 'Hi', I, Add(If(And(u >= 0, u < p), ms(u), iv(0)), iv(1)),
                    lambda w, b, v: If(And(var(w) == u, b == 0), Min(v, split(w)), v), fn=lambda m: HiF(u, m))
        memo[u.get_id()] = (Lo, Hi, u)
    return memo[u.get_id()][:2]


def use_range(c, Lo, Hi, w):
    for F_ in (Lo, Hi):
        F_.up(w)
        F_.down(w)
    c.fact(Implies(w >= 1, And(Lo(w) >= 0, Hi(w) <= Hi(iv(1)))))
    c.fact(Lo(iv(1)) == 0)
    c.fact(Hi(iv(1)) == Hi.base)


def val(c, x):
    """term of a scalar argument (array, python number or symbolic size)"""
    if isinstance(x, Arr):
        return x()
    if is_sym(x):
        return c.z(x)
    return iv(x)


class TreeArgs(Contract):
    def variants(self):
        return SV

    def dims(self, E, v):
        D, H = tree_dims(E, 0, 23)
        return NS(D=D, H=H, p=E.var('p', *PDT[v[1]]))

    def tree(self, d, v):
        return dict(var_tree=Spec((d.H,), v[1]), split_tree=Spec((d.H,), v[0]), max_split=Spec((d.p,), v[0]))

    def base(self, c):
        D = c.z(c.env.pow2[0][0])
        for k in (iv(0), iv(1), D):
            p2(c, k, D)
        return D

    def small(self, A):
        return [Item('cutpoint indices fit in 31 bits', lambda i: A.max_split(i) < BIG, trig=A.max_split),
                Item('boundaries fit in 31 bits', lambda i: A.split_tree(i) < BIG, trig=A.split_tree)]


@register
class SplitRange(TreeArgs):
    name = 'mcmcstep.split_range'

    def args(self, d, v):
        return dict(**self.tree(d, v), node_index=Spec((), 'int32'), ref_var=Spec((), v[1]))

    def requires(self, c, A):
        return self.small(A)

    def spec(self, c, A):
        if not hasattr(A, '_r'):
            A._r = ranges(c, A.var_tree, A.split_tree, A.max_split, c.z(A.max_split.shape[0]), val(c, A.ref_var))
        return A._r

    def loop(self, c, L, A):
        Lo, Hi = self.spec(c, A)
        node = val(c, A.node_index)
        D = c.z(c.env.pow2[0][0])
        H = c.z(A.split_tree.shape[0])
        k0, n = L.k0, L.nz()
        p2(c, D, D)
        for k in (k0, Add(k0, iv(1)), n):
            p2(c, Sub(D, k), D)
        ints = scalars(L, 'i')
        ok = And(node >= 1, node < H)
        cands = []
        for s in ints:
            x = L.carry(k0)[s]()
            use_range(c, Lo, Hi, x)
            v = lambda cr, s=s: cr[s]()
            cands += [lambda cr, k, v=v: Item('idx', lambda: Implies(ok, And(v(cr) >= 0, v(cr) < P2(Sub(D, k))))),
                      lambda cr, k, v=v: Item('nonneg', lambda: Implies(ok, And(v(cr) >= 0, v(cr) < BIG))),
                      lambda cr, k, v=v: Item('hi', lambda: Implies(ok, v(cr) <= Hi(iv(1))))]
            for q in ints:
                if q != s:
                    w = lambda cr, q=q: cr[q]()
                    cands += [lambda cr, k, v=v, w=w: Item('lo', lambda: Implies(ok, Max(w(cr), If(v(cr) >= 1, Lo(v(cr)), iv(0))) == Lo(node))),
                              lambda cr, k, v=v, w=w: Item('hi', lambda: Implies(ok, Min(w(cr), If(v(cr) >= 1, Hi(v(cr)), Hi(iv(1)))) == Hi(node)))]
        use_range(c, Lo, Hi, node)
        install_invariants(c, L, houdini(c, L, cands))

    def ensures(self, c, A, out):
        self.base(c)
        Lo, Hi = self.spec(c, A)
        node = val(c, A.node_index)
        H = c.z(A.split_tree.shape[0])
        use_range(c, Lo, Hi, node)
        if num(H) is not None:
            m = node
            for _ in range(num(H).bit_length()):
                use_range(c, Lo, Hi, m)
                m = fdiv(m, iv(2))
        ok = And(node >= 1, node < H)
        l, r = out
        return [Item('lower end is the tightest boundary of an ancestor passed on the right', lambda: Implies(ok, l() == Lo(node) + 1)),
                Item('upper end is the tightest boundary of an ancestor passed on the left', lambda: Implies(ok, r() == Hi(node)))]

Shr = z3.Function('shr', I, I, I)       # Shr(m, s): the s-th ancestor of m in the heap, m >> s


def shr_facts(c, m, s, D=None):
    m, s = iv(m), iv(s)
    k = ('shr', m.get_id(), s.get_id(), None if D is None else D.get_id())
    if k in c.extra_done:
        return Shr(m, s)
    c.extra_done.add(k)
    c.keep.append((m, s))
    c.fact(Shr(m, iv(0)) == m)
    c.fact(Implies(s >= 0, Shr(m, Add(s, iv(1))) == Shr(m, s) / 2))
    c.fact(Implies(s >= 1, Shr(m, s) == Shr(m, Sub(s, iv(1))) / 2))
    c.fact(Implies(And(m >= 0, s >= 0), And(Shr(m, s) >= 0, Shr(m, s) <= m)))
    if D is not None:
        c.fact(Implies(And(m >= 0, m < P2(D), s >= D), Shr(m, s) == 0))
    c.fact(Implies(And(s >= 1, Shr(m, s) >= 1), And(Anc(Shr(m, s), m))))
    return Shr(m, s)


AncS = z3.Function('ancdist', I, I, I)


def anc_dist(c, w, m, D=None):
    """Anc(w, m) means w = m >> s for some s >= 1 (w >= 1); AncS is that s"""
    s = AncS(w, m)
    c.fact(Implies(Anc(w, m), And(w >= 1, s >= 1, Shr(m, s) == w, 2 * w <= m)))
    shr_facts(c, m, s, D)
    return s


@register
class AncestorVariables(TreeArgs):
    name = 'mcmcstep.ancestor_variables'

    def args(self, d, v):
        t = self.tree(d, v)
        return dict(var_tree=t['var_tree'], max_split=t['max_split'], node_index=Spec((), 'int32'))

    def entry(self, c, A, j):
        """the variable of the ancestor at distance D-1-j, p if there is none"""
        D = c.z(c.env.pow2[0][0])
        p = c.z(A.max_split.shape[0])
        node = val(c, A.node_index)
        for k in range(num(D) or 0):        # concrete depth: all ancestors
            shr_facts(c, node, k, D)
        w = shr_facts(c, node, Sub(Sub(D, iv(1)), j), D)
        return If(w >= 1, A.var_tree(w), p)

    def loop(self, c, L, A):
        node = val(c, A.node_index)
        D = c.z(c.env.pow2[0][0])
        H = c.z(A.var_tree.shape[0])
        k0, n = L.k0, L.nz()
        for k in (k0, Add(k0, iv(1)), n):
            shr_facts(c, node, k, D)
        ok = And(node >= 1, node < H)
        cands = []
        for s in scalars(L, 'i'):
            v = lambda cr, s=s: cr[s]()
            cands += [lambda cr, k, v=v: Item('idx', lambda: Implies(ok, v(cr) == Shr(node, k))),
                      lambda cr, k, v=v: Item('slot', lambda: v(cr) == D - 2 - k),
                      lambda cr, k, v=v: Item('slot', lambda: v(cr) == k)]
        for s in vectors(L, 'i'):
            cands += [lambda cr, k, s=s: Item('filled', lambda j: Implies(And(ok, j >= D - 1 - k), cr[s](j) == self.entry(c, A, j)), trig=cr[s], dims=(Sub(D, iv(1)),), maxdepth=3),
                      lambda cr, k, s=s: Item('filled', lambda j: Implies(And(ok, j < k), cr[s](j) == self.entry(c, A, j)), trig=cr[s], dims=(Sub(D, iv(1)),), maxdepth=3)]
        install_invariants(c, L, houdini(c, L, cands))

    def ensures(self, c, A, out):
        node = val(c, A.node_index)
        D = c.z(c.env.pow2[0][0])
        H = c.z(A.var_tree.shape[0])
        ok = And(node >= 1, node < H)
        n = c.z(out.shape[0])
        return [Item('one slot per possible ancestor', lambda: Or(n == D - 1, And(D <= 1, n == 0))),
                Item('the axes of the ancestors from root to parent, then p', lambda j: Implies(ok, out(j) == self.entry(c, A, j)), trig=out, maxdepth=3)]


# ---------------------------------------------------------------- random selection helpers

def draws(c, kind_):
    return [r for r in c.rand if r['kind'] == kind_]


def the_draw(c, kind_):
    """the single random draw of that kind the function makes (as scalars: value, lo, hi)"""
    ds = draws(c, kind_)
    if len(ds) != 1 or len(c.rand) != 1 or len(ds[0]['shape']):
        raise Unsupported(f'expected one scalar {kind_} draw, got {[(r["kind"], r["shape"]) for r in c.rand]}')
    d = ds[0]
    sc = ext.rscalar if kind_ == 'uniform' else ext.scalar
    return d['out'](), sc(c, d['lo'], ()), sc(c, d['hi'], ())


def kspec():
    return Spec((), key_dtype)


def inst1(c, *ts):
    """explicit instances of the universal facts over one index"""
    for q in list(c.quants):
        if q[0] == 1:
            for t in ts:
                r = q[1](iv(t))
                for f in (r if isinstance(r, (list, tuple)) else [r]):
                    if f is not None:
                        c.fact(f)


@register
class RandintMasked(Contract):
    name = 'mcmcstep.randint_masked'

    def dims(self, E, v):
        return NS(n=E.var('n', 1))

    def args(self, d, v):
        return dict(key=kspec(), mask=Spec((d.n,), 'bool'))

    def ensures(self, c, A, out):
        n = c.z(A.mask.shape[0])
        cnt = lambda x: c.sum(x, lambda j: If(A.mask(j), iv(1), iv(0)), I, of=n)
        total = cnt(n)
        r = out()
        items = [Item('in range', lambda: And(r >= 0, r <= n)),
                 Item('only masked-in values are returned', lambda: Or(r == n, A.mask(r))),
                 Item('the sentinel is returned only if nothing is allowed', lambda: Implies(r == n, total == 0)),
                 Item('the sentinel is returned if nothing is allowed', lambda: Implies(total == 0, r == n))]
        if not hasattr(A, 'assuming'):
            u, lo, hi = the_draw(c, 'randint')
            before, upto = cnt(r), cnt(Add(r, iv(1)))
            rec = c.rec_of(before)
            PV.unfold_sum(c, rec, r)
            items += [Item('the draw is uniform over as many values as are allowed', lambda: And(lo == 0, hi == total), export=False),
                      Item('draw u selects the u-th allowed value (so each allowed value corresponds to exactly one draw)',
                           lambda: Implies(total > 0, before == u), export=False)]
        return items


@register
class Categorical(Contract):
    name = 'mcmcstep.categorical'

    def dims(self, E, v):
        return NS(n=E.var('n', 1))

    def args(self, d, v):
        return dict(key=kspec(), distr=Spec((d.n,), 'float32'))

    def requires(self, c, A):
        return [Item('weights are non-negative', lambda j: A.distr(j) >= 0, trig=A.distr)]

    def ensures(self, c, A, out):
        n = c.z(A.distr.shape[0])
        S = lambda x: c.sum(x, A.distr, R, of=n)
        r, norm = out[0](), out[1]()
        total = S(n)
        items = [Item('in range', lambda: And(r >= 0, r <= n)),
                 Item('the norm is the total weight', lambda: norm == total),
                 Item('entries without weight are never returned', lambda: Or(r == n, A.distr(r) > 0)),
                 Item('the sentinel is returned only if all weights are zero', lambda: Implies(r == n, total == 0)),
                 Item('the sentinel is returned if all weights are zero', lambda: Implies(total == 0, r == n))]
        if not hasattr(A, 'assuming'):
            u, lo, hi = the_draw(c, 'uniform')
            rec = c.rec_of(S(r))
            PV.unfold_sum(c, rec, r)
            items += [Item('the draw is uniform over the total weight', lambda: And(lo == 0, hi == total), export=False),
                      Item('value i is returned exactly when the draw falls in the i-th cumulative interval',
                           lambda: Implies(total > 0, And(S(r) <= u, u < S(Add(r, iv(1))))), export=False)]
        return items


@register
class RandintExclude(Contract):
    name = 'mcmcstep.randint_exclude'

    def variants(self):
        return ['uint8', 'uint16', 'uint32', 'int32']

    def dims(self, E, v):
        mx = {'uint8': 255, 'uint16': 65535}.get(v, 2 ** 24)
        return NS(n=E.var('n', 0), sup=E.var('sup', 1, mx))

    def args(self, d, v):
        return dict(key=kspec(), sup=d.sup, exclude=Spec((d.n,), v))

    def requires(self, c, A):
        return [Item('excluded values are not negative', lambda j: A.exclude(j) >= 0, trig=A.exclude)]

    def loop(self, c, L, A):
        if hasattr(A, 'assuming'):
            return
        u0, lo, hi = self.u = the_draw(c, 'randint')
        q = c.uniques[-1]
        sup = val(c, A.sup)
        N = c.z(A.exclude.shape[0])
        k0, n = L.k0, L.nz()
        c.add_pool(k0)
        cands = []
        for s in scalars(L, 'i'):
            v = lambda cr, s=s: cr[s]()
            for k in (k0, Add(k0, iv(1)), n):
                c.add_pool(Sub(v(L.carry(k)), u0), Sub(Sub(v(L.carry(k)), u0), iv(1)))
            cands += [lambda cr, k, v=v: Item('rank', lambda: And(v(cr) >= u0, v(cr) <= u0 + k)),
                      lambda cr, k, v=v: Item('passed', lambda j: Implies(j < v(cr) - u0, And(q.out(j) < v(cr), q.out(j) < sup)), dims=(N,), maxdepth=3),
                      lambda cr, k, v=v: Item('ahead', lambda j: Implies(And(j >= v(cr) - u0, j < k), Or(q.out(j) > v(cr), q.out(j) >= sup)), dims=(N,), maxdepth=3)]
        install_invariants(c, L, houdini(c, L, cands))

    def ensures(self, c, A, out):
        sup = val(c, A.sup)
        N = c.z(A.exclude.shape[0])
        r = out()
        pos = (lambda j: []) if hasattr(A, 'assuming') else (lambda j: [j, c.uniques[-1].pos(j)])
        items = [Item('in range', lambda: And(r >= 0, r <= sup)),
                 Item('never an excluded value', lambda j: Or(r == sup, A.exclude(j) != r), dims=(A.exclude.shape[0],), pool=pos)]
        if hasattr(A, 'assuming'):
            items[1].trig = A.exclude
            items[1].maxdepth = 3
            In = Indicator(c, A.exclude, N)
            return items + [Item('the sentinel is returned only if every value is excluded', lambda y: Or(r != sup, In(y)), dims=(sup,))]
        u, lo, hi = the_draw(c, 'randint')
        q = c.uniques[-1]
        e, m = q.out, q.m
        In = Indicator(c, A.exclude, N)

        def ndist(j):
            for a in (iv(0), j, Sub(j, iv(1)), Add(j, iv(1))):
                for f in q.one(a):
                    c.fact(f)

        def member(y, *near):
            """y excluded: it is one of the distinct values; where it stands relative to the positions near"""
            In(y)
            i = q.pos(In.J(y))
            c.fact(q.complete(In.J(y)))
            for f in q.one(i):
                c.fact(f)
            for a in near:
                c.fact(q.two(i, a))
                c.fact(q.two(a, i))
            return i
        # distinct non-negative values: the j-th is at least j
        def ge_extra(k):
            ndist(k)
            c.fact(q.two(k, Add(k, iv(1))))
        def is_in(j):
            for f in q.one(j):
                c.fact(f)
            In.of(q.src(j))
            A.exclude(q.src(j))
        is_in(iv(0))
        ge = direct_induct(c, 'the j-th distinct value is at least j', lambda j: e(j) >= j, m, extra=ge_extra)
        # number of excluded values below x
        ex = lambda x: c.sum(x, lambda y: If(In(y), iv(1), iv(0)), I)
        rec = c.rec_of(ex(r))
        CI = lambda x: rec.ps(x)

        def gap(x, y, *near):
            """no member in [x, y) => CI(x) = CI(y)"""
            for w in PV.seg(c, rec, x, y):
                member(w, *near)
                rec.f(w)

        def base():
            is_in(iv(0))
            c.fact(CI(iv(0)) == 0)
            gap(iv(0), e(iv(0)), iv(0))

        def step(k):
            k1 = Add(k, iv(1))
            is_in(k)
            is_in(k1)
            c.fact(q.two(k, k1))
            PV.unfold_sum(c, rec, e(k))
            gap(Add(e(k), iv(1)), e(k1), k, k1)
        below = direct_induct(c, 'the j-th distinct excluded value has j excluded values below it', lambda j: CI(e(j)) == j, m, base, step)
        # the loop's result: t increments
        t = Sub(r, u)
        t1 = Sub(t, iv(1))
        M = least(c, m, lambda j: e(j) >= sup, 'nexcl')
        M1 = Sub(M, iv(1))
        for j in (t1, t, M1, M):
            is_in(j)
            ge(j)
            below(j)
            inst1(c, j)
        # counts of all excluded values in range
        for j in (M1, t1):
            PV.unfold_sum(c, rec, e(j))
        gap(Add(e(M1), iv(1)), sup, M1, M)
        gap(iv(0), sup, M, iv(0))
        c.fact(CI(iv(0)) == 0)
        for s in list(c.sum_order):
            if s is not rec and s.sort == I and not s.bound:
                for nn in list(s.ns.values()):
                    if nn.eq(N):
                        s.ns.setdefault(M.get_id(), M)
                        ws = [w for w in PV.bounds01(c, s, M)] + list(PV.seg(c, s, M, N))
                        for w in ws:
                            inst1(c, w)
                            s.f(w)
                            for f in q.one(w):
                                c.fact(f)
                            c.fact(q.two(M, w))
        have(c, 'the number of excluded values', CI(sup) == M, auto=False)
        have(c, 'the increments passed values in range only', And(t <= M, t >= 0), auto=False)
        nall = Sub(sup, M)
        for f in [q.two(t1, M1), q.two(M1, t1), q.two(t1, M), q.two(t, M), q.two(M1, t)]:
            c.fact(f)
        gap(Add(e(t1), iv(1)), r, t1, t)
        gap(iv(0), r, t, iv(0))
        member(r, t, t1)
        inst1(c, q.pos(In.J(r)))
        far = direct_induct(c, 'distinct values at distance d differ by at least d', lambda j: Implies(j >= t, e(j) >= e(t) + (j - t)), m, extra=ge_extra,
                            hyps=[t >= 0, t < m])
        for f in q.one(t):
            c.fact(f)
        far(M1)
        have(c, 'the draw counts the allowed values', And(lo == 0, hi == nall), auto=False)
        def exhausted(y):
            for f in q.one(y):
                c.fact(f)
            is_in(y)
            ge(y)
            f2 = direct_induct(c, 'distinct values at distance d differ by at least d (2)', lambda j: Implies(j >= y, e(j) >= e(y) + (j - y)), m, extra=ge_extra,
                               hyps=[y >= 0, y < m])
            f2(M1)
            return Or(r != sup, In(y))
        items = [items[0], items[1], Item('the sentinel is returned only if every value is excluded', exhausted, dims=(sup,), auto=False),
                  Item('the draw is uniform over as many values as are allowed', lambda: And(lo == 0, hi == nall), export=False),
                  Item('some value is returned if any is allowed', lambda: Implies(nall > 0, r < sup), export=False),
                  Item('the sentinel is returned if nothing is allowed', lambda: Implies(nall == 0, r == sup), export=False),
                  Item('draw u selects the u-th allowed value (so each allowed value corresponds to exactly one draw)',
                       lambda: Implies(nall > 0, r - CI(r) == u), export=False)]
        return items

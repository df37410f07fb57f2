"""Contracts of bartz.prepcovars and of jaxext.unique."""
from dv.fw import *
from dv.fw import Contract, Item, register, Outcome
from dv.theory import *
from dv import batch


def sorted_rows(c, a, label):
    """rows of a are non-decreasing: the fact for every two entries of a row that are looked at"""
    seen = []
    m = c.z(a.shape[1])

    def at(v, j):
        fs = []
        for w, k in seen:
            rng = And(v == w, v >= 0, v < c.z(a.shape[0]), j >= 0, j < m, k >= 0, k < m)
            x, y = a(v, j), a(w, k)
            fs += [Implies(And(rng, j <= k), x <= y), Implies(And(rng, k <= j), y <= x)]
        seen.append((v, j))
        return fs
    return Item(label, at, trig=a, maxdepth=9)


@register
class BinPredictors(Contract):
    name = 'prepcovars.bin_predictors'

    def variants(self):
        return ['float32', 'uint8', 'uint16', 'int32', 'float32/int32', 'int32/float32', 'uint8/int16']

    def dims(self, E, v):
        return NS(p=E.var('p', 0), n=E.var('n', 0), m=E.var('m', 0))

    def args(self, d, v):
        v, _, w = v.partition('/')      # type of the predictors / type of the cutpoints
        return dict(X=Spec((d.p, d.n), v), splits=Spec((d.p, d.m), w or v))

    def requires(self, c, A):
        return [sorted_rows(c, A.splits, 'cutpoints are non-decreasing')]

    def ensures(self, c, A, out):
        S, m = A.splits, c.z(A.splits.shape[1])
        hi = DT_RANGE[np.dtype(out.dtype)][1] if kind(out.dtype) == 'i' else -1

        def f(v, i, j):
            r, x = out(v, i), A.X(v, i)
            return And(r >= 0, r <= m, r <= hi, Implies(j < r, S(v, j) < x), Implies(j >= r, x <= S(v, j)))
        return [Item('exactly the first bin-index many cutpoints are below the value', f, dims=(A.X.shape[0], A.X.shape[1], A.splits.shape[1])),
                Item('bin index in range, between its neighbouring cutpoints', lambda v, i: And(
                    out(v, i) >= 0, out(v, i) <= m, Implies(out(v, i) > 0, S(v, out(v, i) - 1) < A.X(v, i)), Implies(out(v, i) < m, A.X(v, i) <= S(v, out(v, i)))),
                    dims=(A.X.shape[0], A.X.shape[1])),
                Item('integer type holds every bin index', lambda: m <= hi),
                Item('shape', lambda: bv(tuple(map(str, out.shape)) == tuple(map(str, A.X.shape))))]


@register
class UniformSplits(Contract):
    name = 'prepcovars.uniform_splits_from_matrix'

    def variants(self):
        return ['float32', 'uint8', 'int32']

    def dims(self, E, v):
        return NS(p=E.var('p', 1), n=E.var('n', 1), k=E.var('k', 1))

    def args(self, d, v):
        return dict(X=Spec((d.p, d.n), v), num_bins=d.k)

    def ensures(self, c, A, out):
        splits, ms = out
        k = c.z(A.num_bins)
        p, n = A.X.shape

        def ends(v):
            lo, hi = c.fresh('lo', n=n), c.fresh('hi', n=n)
            zs = [A.X(v, q) for q in (lo, hi)]
            c.fact(And(*[And(q >= 0, q < c.z(n)) for q in (lo, hi)]))
            c.quants.append((1, lambda i: Implies(And(i >= 0, i < c.z(n)), And(zs[0] <= A.X(v, i), A.X(v, i) <= zs[1])), 'extremes'))
            c.add_pool(lo, hi)
            r = [prims.to_real(z) if z3.is_int(z) else z for z in zs]
            return r

        def grid(v, j):
            lo, hi = ends(v)
            kk = z3.ToReal(k)
            return splits(v, j) == lo + (z3.ToReal(j) + 1) * ((hi - lo) / kk)

        def inside(v, j):
            lo, hi = ends(v)
            return Implies(lo < hi, And(lo < splits(v, j), splits(v, j) < hi))
        return [Item('evenly spaced interior grid', grid, dims=(p, k - 1)),
                Item('strictly inside the range', inside, dims=(p, k - 1)),
                Item('number of cutpoints', lambda v: And(ms(v) == k - 1, ms(v) <= DT_RANGE[np.dtype(ms.dtype)][1]), dims=(p,)),
                Item('an unsigned type', lambda: bv(np.dtype(ms.dtype).kind == 'u')),
                Item('shapes', lambda: And(bv(tuple(map(str, ms.shape)) == (str(p),)), bv(str(splits.shape[0]) == str(p)), c.z(splits.shape[1]) == k - 1))]


def less(t, u):
    return t < u


class UniqueSpec:
    """what jaxext.unique(x, size, fill) = (out, length) must satisfy; pos: index -> position of x[i] among the distinct
    values, src: position -> index of an occurrence.  These determine the result."""

    def __init__(self, c, x, size, fill, out, length, pos, src):
        self.__dict__.update(locals())
        self.n, self.m = c.z(x.shape[0]), c.z(size)
        self.len = length() if isinstance(length, Arr) else iv(length)

    def facts(self, guard, *js):
        '''the contract at these positions'''
        its = {i.label: i for i in self.items()}
        rng = lambda j: And(guard, j >= 0, j < self.m)
        for j in js:
            for l in ('every used entry occurs in the input', 'the rest is the fill value'):
                self.c.fact(Implies(rng(j), its[l].fn(j)))
            for k in js:
                if not j.eq(k):
                    self.c.fact(Implies(And(rng(j), rng(k)), its['strictly increasing'].fn(j, k)))

    def items(self):
        c, n, m, x, out, L = self.c, self.n, self.m, self.x, self.out, self.len
        its = [Item('length within bounds', lambda: And(L >= 0, L <= n, L <= m, Implies(And(n > 0, m > 0), L > 0))),
               Item('every used entry occurs in the input', lambda j: Implies(And(j >= 0, j < L), And(self.src(j) >= 0, self.src(j) < n, out(j) == x(self.src(j)))), dims=(out.shape[0],)),
               Item('strictly increasing', lambda i, j: Implies(And(i >= 0, i < j, j < L), out(i) < out(j)), dims=(out.shape[0],) * 2),
               Item('every value is listed, or the list is full of smaller ones', lambda i: Implies(m > 0, Or(
                   And(self.pos(i) >= 0, self.pos(i) < L, out(self.pos(i)) == x(i)), And(L == m, m < n, out(L - 1) < x(i)))), dims=(x.shape[0],)),
               Item('the rest is the fill value', lambda j: Implies(j >= L, out(j) == self.fill), dims=(out.shape[0],)),
               Item('shape', lambda: c.z(out.shape[0]) == m)]
        return its


@register
class UniqueC(Contract):
    name = 'jaxext.unique'

    def variants(self):
        return ['float32', 'uint8', 'int32']

    def dims(self, E, v):
        return NS(n=E.var('n', 0), m=E.var('m', 0))

    def args(self, d, v):
        return dict(x=Spec((d.n,), v), size=d.m, fill_value=Spec((), v))

    def loop(self, c, L, A):
        x = A.x
        dt = x.dtype
        so = [s for s in c.sorts if len(s['outs']) == 1 and s['outs'][0].ndim == 1]
        if not so:
            raise Unsupported('no sorted vector')
        srt = so[-1]
        s = srt['outs'][0]
        n = L.nz()
        ints = [i for i, a in enumerate(L.avals) if not a.shape and kind(a.dtype) == 'i']
        scal = [i for i, a in enumerate(L.avals) if not a.shape and kind(a.dtype) == kind(dt) and str(a.dtype) == str(dt)]
        vecs = [i for i, a in enumerate(L.avals) if len(a.shape) == 1]
        k0 = L.k0
        m = c.z(A.size)
        fill = A.fill_value()
        src = c.func('src', I, I, I)          # ghost: src(k, j): index of the sorted element last written at position j, after k steps
        prev = lambda k: If(k > 0, k - 1, iv(0))
        c.q = None
        seq = lambda i, k: L.C[i](k)
        last = []
        cands = []
        bounds = {}
        for i in ints:
            bounds[i] = lambda cr, k, i=i: Item('position bounds', lambda: And(cr[i]() >= 0, cr[i]() <= prev(k), Implies(k == 0, cr[i]() == 0)))
            cands += [lambda cr, k, i=i: Item('count', lambda: cr[i]() == k),
                      lambda cr, k, i=i: Item('count+1', lambda: cr[i]() == k + 1),
                      bounds[i]]
        for i in set(scal):
            cands.append(lambda cr, k, i=i: Item('last element', lambda: cr[i]() == s(prev(k))))
        cands = houdini(c, L, cands)
        ints = [i for i in ints if bounds[i] in cands]
        if len(ints) > 1:         # the position stops increasing, the element read does not
            ints = [i for i in ints if not PV.prove(c, L.nxt(k0)[i]() == s(k0), [k0 >= 0, k0 < n], tmo=1).ok] or ints
        step = lambda i, j: c.fact(src(Add(k0, iv(1)), j) == If(j == L.nxt(k0)[i](), k0, src(k0, j)))
        for v in vecs:
            for i in ints:
                def fillrest(cr, k, i=i, v=v):
                    return Item('unused entries', lambda j: Implies(Or(k == 0, j > cr[i]()), cr[v](j) == fill), dims=(L.avals[v].shape[0],))

                def cur(cr, k, i=i, v=v):
                    return Item('current entry', lambda: Implies(And(k > 0, cr[i]() < m), cr[v](cr[i]()) == s(prev(k))))

                def incr(cr, k, i=i, v=v):
                    return Item('increasing', lambda p, q: Implies(And(k > 0, p < q, q <= cr[i]()), And(cr[v](p) < cr[v](q))), dims=(L.avals[v].shape[0],) * 2)

                def below(cr, k, i=i, v=v):
                    return Item('none above the last', lambda p: Implies(And(k > 0, p <= cr[i]()), cr[v](p) <= s(prev(k))), dims=(L.avals[v].shape[0],))

                def sound(cr, k, i=i, v=v):
                    def f(j):
                        step(i, j)
                        return Implies(And(k > 0, j <= cr[i]()), And(src(k, j) >= 0, src(k, j) < k, cr[v](j) == s(src(k, j))))
                    return Item('entries occur', f, dims=(L.avals[v].shape[0],))

                def compl(cr, k, i=i, v=v):
                    def f(q):
                        g = seq(i, Add(q, iv(1)))
                        return Implies(And(q >= 0, q < k), And(g >= 0, g <= cr[i](), Implies(g < m, cr[v](g) == s(q)), Implies(g >= m, And(m >= 1, cr[v](m - 1) < s(q)))))
                    return Item('elements are listed', f, dims=(L.n,))
                cands += [fillrest, cur, incr, below, sound, compl]
                last.append((i, compl))
        for i in ints:
            L.unfold(k0, i)
        c.add_pool(prev(k0))
        c.uq = NS(L=L, s=s, srt=srt, src=src, ints=ints, vecs=vecs)
        good = houdini(c, L, cands)
        install_invariants(c, L, good)
        c.uq.rank = [i for i, f in last if f in good]

    def ensures(self, c, A, out):
        o, length = out
        x = A.x
        if getattr(A, 'assuming', False):
            inst = A.inst
            pos, src = inst.fresh((x.shape[0],), np.dtype('int32'), 'pos'), inst.fresh((o.shape[0],), np.dtype('int32'), 'src')
            fill = scalar_of(c, A.fill_value, o)
        else:
            fill = A.fill_value()
            u = getattr(c, 'uq', None)
            if u is None:
                pos = src = lambda j: iv(0)
            else:
                L = u.L
                n = L.nz()
                i = (u.rank or u.ints)[0]
                inv = u.srt['inv']
                perm = u.srt['perm']
                pos = lambda j: self.rank(c, u, i, inv(j), x, j)
                src = lambda j: perm(u.src(n, j))
        sp = UniqueSpec(c, x, A.size, fill, o, length, pos, src)
        if getattr(A, 'assuming', False):
            return self.export(c, sp, A)
        its = sp.items()
        if getattr(c, 'uq', None):
            inv = c.uq.srt['inv']
            its[3].pool = lambda i: [inv(i)]
        return its

    def rank(self, c, u, i, q, x, j):
        n = u.L.nz()
        c.fact(Implies(And(j >= 0, j < n), And(q >= 0, q < n, u.srt['perm'](q) == j)))
        u.s(q)
        u.L.inv_at(Add(q, iv(1)))
        return u.L.C[i](Add(q, iv(1)))

    def apply(self, c, inst, a, kw, specs):
        inst.A = self.bindargs(self.orig, a, kw)
        inst.A.inst = inst
        return tree_util.tree_map(lambda s: inst.fresh(s.shape, s.dtype), specs, is_leaf=lambda x: isinstance(x, Spec))

    def export(self, c, sp, A):
        if sp.fill.eq(prims.PINF):
            for t in (sp.out(iv(0)),):
                c.maybe_inf.add(t.decl().name())
        if isinstance(sp.length, Arr) and sp.len.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            c.ranges[sp.len.decl().name()] = (0, int(c.ivl(sp.n)[1]))      # outside of the guard the value is irrelevant
        sp.b, sp.guard = A.inst.b, A.inst.guard
        A.inst.meta = sp
        c.__dict__.setdefault('uniques', []).append(sp)
        return sp.items()


def scalar_of(c, v, o):
    if isinstance(v, Arr):
        return v()
    if kind(o.dtype) == 'f':
        return prims.special(v) if v in (math.inf, -math.inf) else z3.RealVal(str(v))
    return iv(int(v))


@register
class QuantilizedSplits(Contract):
    name = 'prepcovars.quantilized_splits_from_matrix'

    def variants(self):
        return [(t, c) for t in ('float32', 'uint8', 'int8', 'int32') for c in ('n >= 2', 'n = 1, k = 1', 'n = 1, k >= 2')]

    def dims(self, E, v):
        return NS(p=E.var('p', 1), n=E.var('n', 2) if v[1] == 'n >= 2' else 1, k=1 if 'k = 1' in v[1] else E.var('k', 2 if 'n = 1' in v[1] else 1))

    def args(self, d, v):
        return dict(X=Spec((d.p, d.n), v[0]), max_bins=d.k)

    def requires(self, c, A):
        c.gathers = []
        self.rows = {}
        if kind(A.X.dtype) == 'f':
            c.maybe_inf.add('+inf')
            A.X.on_eval(lambda v, i: And(4 * A.X(v, i) < prims.PINF, -4 * A.X(v, i) < prims.PINF), 9)
            c.fact(prims.PINF > 0)
        return []

    def row(self, c, A, out, v):
        """the distinct values of a row, and the midpoint chosen for each cutpoint"""
        r = self.rows.get(v.get_id())
        if r is None:
            n0 = len(c.uniques) if hasattr(c, 'uniques') else 0
            out[1](v)
            us = c.__dict__.get('uniques', [])[n0:]
            if not us:
                raise Unsupported('no list of distinct values')
            r = self.rows[v.get_id()] = NS(u=us[-1], v=v, d={})
        return r

    def pick(self, c, A, out, r, j, L):
        if j.get_id() not in r.d:
            g0 = len(c.gathers)
            t = out[0](r.v, j)
            logs = [t for o, s in c.gathers[g0:] for t in [s.get(o.ndim - 1)] if t is not None and str(j) in PV.syms(t)]
            D = r.u.len
            d = logs[-1] if logs else j
            r.d[j.get_id()] = If(D - 1 <= L, j, d)
            # arithmetic of the evenly spaced picks, exact
            if logs:
                s = c.fresh('spacing', R)
                l1 = z3.ToReal(L) + 1
                c.fact(And(s * l1 == z3.ToReal(D), Implies(D > L + 1, s > 1), s >= 0))
                c.fact((z3.ToReal(j) + 1) / l1 * z3.ToReal(D) == (z3.ToReal(j) + 1) * s)
        return r.d[j.get_id()]

    def ensures(self, c, A, out):
        splits, ms = out
        X, (p, n) = A.X, A.X.shape
        k = c.z(A.max_bins)
        L = Min(k, c.z(n)) - 1
        m = splits.shape[1]
        flt = kind(X.dtype) == 'f'
        huge = prims.PINF if flt else iv(DT_RANGE[np.dtype(X.dtype)][1])

        def mid(a, b):
            return (a + b) / 2 if not flt else (a + b) / z3.RealVal(2)

        def setup(v, *js):
            r = self.row(c, A, out, v)
            ds = [self.pick(c, A, out, r, j, L) for j in js]
            r.u.facts(r.u.guard, *[z3.simplify(t) for q in list(ds) + list(js) for t in (q, q + 1)])
            return r, r.u.len, ds

        def picked(v, j):
            r, D, (d,) = setup(v, j)
            u = r.u.out
            return Implies(j < ms(v), And(d >= 0, d < D - 1, splits(v, j) == mid(u(d), u(d + 1)), u(d) < u(d + 1)))

        def order(v, i, j):
            r, D, (d, e) = setup(v, i, j)
            return Implies(And(i < j, j < ms(v)), d < e)
        def sorted_():
            """what the clauses above say of two entries i < j of a row implies their order (a statement on any numbers)"""
            srt = R if flt else I
            U = c.func('u', I, srt)
            i, j, d, e, M, D = [c.fresh(q) for q in 'ijdeMD']
            s, t = c.fresh('s', srt), c.fresh('t', srt)
            up = lambda a, b: Implies(And(a >= 0, a < b, b < D), U(a) < U(b))
            pts = [d, d + 1, e, e + 1]
            used = lambda j, d, s: Implies(j < M, And(d >= 0, d < D - 1, s == mid(U(d), U(d + 1)), U(d) < U(d + 1)))
            pad = lambda j, s: Implies(j >= M, s == huge)
            pre = [i < j, used(i, d, s), used(j, e, t), Implies(j < M, d < e), pad(i, s), pad(j, t)] + [up(a, b) for a in pts for b in pts if not a.eq(b)] + [Implies(And(a >= 0, a < D), U(a) <= huge) for a in pts]
            return Implies(And(*pre), And(s <= t, Implies(j < M, s < t)))

        def unused(v, j):
            setup(v, j)
            return Implies(j >= ms(v), splits(v, j) == huge)
        return [Item('number of cutpoints', lambda v: Min(setup(v)[1] - 1, L) == ms(v), dims=(p,)),
                Item('every cutpoint is the midpoint of two consecutive distinct values', picked, dims=(p, m)),
                Item('different cutpoints are midpoints of different pairs, in order', order, dims=(p, m, m)),
                Item('rows are non-decreasing, used cutpoints are different', sorted_),
                Item('the values are those of the row', lambda v, i: And(setup(v)[0].u.x(i) == X(v, i), c.z(setup(v)[0].u.x.shape[0]) == c.z(n)), dims=(p, n)),
                Item('unused entries', unused, dims=(p, m)),
                Item('shapes', lambda: And(bv(str(ms.shape[0]) == str(p)), bv(str(splits.shape[0]) == str(p)), c.z(m) == L)),
                Item('the type holds the number of cutpoints', lambda: L <= DT_RANGE[np.dtype(ms.dtype)][1])]

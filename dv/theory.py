"""Spec-level theories: powers of two, heap recursion, with their (schematic) lemmas."""
from .sem import *
from .sem import Ctx
import os
import z3
from .prove import prove, prove_cases, Result
from . import prove as PV


def p2(c, k, D=None):
    """facts about 2**k around k"""
    k = iv(k)
    if ('p2', k.get_id()) not in c.extra_done:
        c.extra_done.add(('p2', k.get_id()))
        c.keep.append(k)
        c.fact(P2(iv(0)) == 1)
        c.fact(z3.Implies(k >= 0, z3.And(P2(k) >= 1, P2(Add(k, iv(1))) == 2 * P2(k))))
        c.fact(z3.Implies(k >= 1, z3.And(P2(k) == 2 * P2(Sub(k, iv(1))), P2(Sub(k, iv(1))) >= 1)))
    if D is not None:
        D = iv(D)
        kk = ('p2', k.get_id(), D.get_id())
        if kk not in c.extra_done:
            c.extra_done.add(kk)
            p2(c, D)
            c.fact(z3.Implies(z3.And(k >= 0, k <= D), P2(k) <= P2(D)))
            c.fact(z3.Implies(z3.And(k >= 0, k < D), 2 * P2(k) <= P2(D)))
            c.fact(z3.Implies(z3.And(D >= 0, k > D), 2 * P2(D) <= P2(k)))
            c.fact(z3.Implies(z3.And(k >= 0, D >= 0, P2(k) == P2(D)), k == D))
    return P2(k)


class HeapFn:
    """F(1) = base, F(2w+b) = step(w, b, F(w)) for 1 <= w: unique function on heap indices"""

    def __init__(self, c, name, sort, base, step, unfold_on_call=True, fn=None):
        self.c, self.base, self.step, self.sort = c, base, step, sort
        self.fn = fn or c.func(name, I, sort)
        self.seen = set()
        self.auto = unfold_on_call

    def __call__(self, m):
        m = iv(m)
        return self.fn(m)

    def down(self, w):
        """definition at the children of w"""
        w = iv(w)
        k = ('d', w.get_id())
        if k in self.seen:
            return
        self.seen.add(k)
        self.c.keep.append(w)
        c = self.c
        c.fact(self.fn(iv(1)) == self.base)
        for b in (0, 1):
            c.fact(z3.Implies(w >= 1, self.fn(2 * w + b if num(w) is None else iv(2 * num(w) + b)) == bv(self.step(w, b, self.fn(w)))))

    def up(self, m):
        """definition at m in terms of its parent"""
        m = iv(m)
        k = ('u', m.get_id())
        if k in self.seen:
            return
        self.seen.add(k)
        self.c.keep.append(m)
        c = self.c
        c.fact(self.fn(iv(1)) == self.base)
        w = fdiv(m, iv(2))
        v = If(Eq(fmod(m, iv(2)), iv(1)), self.step(w, 1, self.fn(w)), self.step(w, 0, self.fn(w)))
        c.fact(z3.Implies(m >= 2, self.fn(m) == v))


Anc = z3.Function('anc', I, I, B)     # Anc(w, m): w is a proper ancestor of m in the heap


def anc_facts(c, w, m):
    w, m = iv(w), iv(m)
    c.fact(z3.Implies(Anc(w, m), And(w >= 1, 2 * w <= m)))
    c.fact(z3.Implies(And(w >= 1, m >= 2), Anc(w, m) == Or(w == m / 2, Anc(w, m / 2))))


def heap_congr(c, F1, F2, m):
    """schema (heap induction): F1(m)=F2(m) unless the bases differ or the steps differ at a proper ancestor
    of m where both values still agree"""
    m = iv(m)
    key = ('hc', id(F1), id(F2), m.get_id())
    if key in c.extra_done:
        return None
    c.extra_done.add(key)
    c.keep.append((F1, F2, m))
    w, b = c.fresh('hw'), c.fresh('hb')
    s = lambda F: If(Eq(b, iv(1)), F.step(w, 1, F(w)), F.step(w, 0, F(w)))
    c.fact(Or(Eq(F1(m), F2(m)), m < 1, Not(Eq(bv(F1.base), bv(F2.base))),
              And(w >= 1, 2 * w <= m, Anc(w, m), b >= 0, b <= 1, F1(w) == F2(w), Not(Eq(bv(s(F1)), bv(s(F2)))),
                  Or(2 * w + b == m, Anc(2 * w + b, m)))))
    c.add_pool(w)
    return w


def HeapPred(c, name, cond):
    """R(1); R(2w+b) iff R(w) and cond(w, b)"""
    F = HeapFn(c, name, B, T, lambda w, b, r: And(r, cond(w, b)))
    F.cond = cond
    return F


def pred_congr(c, R1, R2, m):
    w = heap_congr(c, R1, R2, m)
    return w


def heap_induct(c, label, P, H2, hyps=(), pool=(), tmo=None, extra=None):
    """prove forall m in [1, H2). P(m) by heap induction; on success it becomes a universal fact"""
    r0 = prove(c, P(iv(1)), list(hyps) + [H2 > 1], tmo=tmo)
    if not r0.ok:
        return r0
    m = c.fresh('m')
    if extra:
        extra(m)
    res = r0
    for b in (0, 1):
        ch = 2 * m + b
        r = prove(c, P(ch), list(hyps) + [m >= 1, ch < H2, P(m)], pool=list(pool) + [m, ch], tmo=tmo)
        res = r
        if not r.ok:
            return r
    c.quants.append((1, lambda q: z3.Implies(And(q >= 1, q < H2, *hyps), P(q)), label))
    return res


def heap_direct(c, key, label, P, H, extra, local=False):
    """lemma forall 1 <= m < 2H. P(m), by heap induction from explicit instances; extra(m) adds the instances needed at m.
    Returns a function that asserts P at a term (nothing if the proof failed).  Proved once per key.
    local: use only the sizes and the facts added by extra"""
    st = c.__dict__.setdefault('_hd', {})
    if key not in st:
        old = c.facts
        if local:
            c.facts, c.fact_ids = list(c.env.hyps()), set()
        extra(iv(1))
        w = c.fresh('m')
        extra(w)
        rs = [prove(c, P(iv(1)), auto=False)]
        for b in (0, 1):
            rs.append(prove(c, P(2 * w + b), [w >= 1, w < H, P(w)], auto=False))
        bad = [x for x in rs if not x.ok]
        lemma(c, label, bad[0] if bad else rs[-1])
        st[key] = not bad
        if local:
            c.facts = old + c.facts
            c.fact_ids = {f.get_id() for f in c.facts}

    def use(m):
        if st[key]:
            extra(m)
            c.fact(Implies(And(m >= 1, m < 2 * H), P(m)))
    return use


# ---------------------------------------------------------------- routing of a point in a tree

def route_unique(c, R, a, b):
    """schema: two nodes reached by the same point, neither of which sends it further down, are the same node,
    unless some node sends it both ways"""
    w = c.fresh('dw')
    cd = lambda m, s: bv(R.cond(m, s))
    c.fact(Or(Not(R(a)), Not(R(b)), a == b, a < 1, b < 1, cd(a, 0), cd(a, 1), cd(b, 0), cd(b, 1),
              And(w >= 1, cd(w, 0), cd(w, 1))))


def note_route(c, R, r):
    """register that r is a node reached under R without further rule: any two such for the same point coincide"""
    if c.level > 0:
        return
    lst = c.__dict__.setdefault('route_list', [])
    if any(R is R2 and r.eq(r2) for R2, r2 in lst):
        return
    for R2, r2 in lst:
        if R2 is not R:
            pred_congr(c, R2, R, r2)
        route_unique(c, R, r, r2)
    lst.append((R, r))


class Routes:
    """rt(*b): the leaf reached, for a family of (point, tree) pairs indexed by b.
    acc(*b) -> (x(v), var(m), split(m), H).  Existence of the leaf is the contract of traverse_tree."""

    def __init__(self, c, nb, acc, name='rt'):
        self.c, self.acc, self.nb = c, acc, nb
        self.fn = c.func(name, *([I] * nb), I) if nb else None
        self.t0 = None if nb else c.fresh(name)
        self.preds, self.done = {}, set()

    def R(self, *b):
        k = tuple(i.get_id() for i in b)
        r = self.preds.get(k)
        if r is None:
            x, var, split, H = self.acc(*b)

            def cond(w, s):
                sp = split(w)
                right = x(var(w)) >= sp
                return And(w < H, sp != 0, right if s else Not(right))
            r = self.preds[k] = HeapPred(self.c, 'Reach', cond)
            r.H, r.split = H, split
            self.c.keep.append(b)
        return r

    def __call__(self, *b):
        b = tuple(iv(i) for i in b)
        t = self.fn(*b) if self.nb else self.t0
        c = self.c
        if c.level > 0:
            return t
        k = tuple(i.get_id() for i in b)
        if k not in self.done:
            self.done.add(k)
            R = self.R(*b)
            c.fact(And(t >= 1, t < 2 * R.H, R(t), Or(t >= R.H, R.split(t) == 0)))
            R.down(iv(1))
            note_route(c, R, t)
        return t


# ---------------------------------------------------------------- natural induction, least witnesses

def nat_induct(c, label, P, n, hyps=(), pool=(), tmo=None, base=0, extra=None):
    """prove forall k in [base, n). P(k); on success it becomes a universal fact.  Recorded as an obligation."""
    r = prove(c, P(iv(base)), list(hyps) + [n > base], pool=[iv(base)] + list(pool), tmo=tmo)
    if r.ok:
        k = c.fresh('k')
        if extra:
            extra(k)
        r = prove(c, P(Add(k, iv(1))), list(hyps) + [k >= base, Add(k, iv(1)) < n, P(k)], pool=list(pool) + [k, Add(k, iv(1))], tmo=tmo)
    lemma(c, label, r)
    if r.ok:
        c.quants.append((1, lambda q: z3.Implies(And(q >= base, q < n, *hyps), P(q)), label))
    return r


def lemma(c, label, r):
    c.__dict__.setdefault('lemmas', []).append((label, r))


def have(c, label, goal, hyps=(), pool=(), tmo=None, auto=True, sums=True):
    """prove an intermediate assertion and use it from now on (a cut)"""
    r = prove(c, goal, hyps, pool=pool, tmo=tmo, auto=auto, sums=sums)
    lemma(c, label, r)
    if r.ok:
        c.fact(Implies(And(*hyps), goal))
    return r


_ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT,
          z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ANUM, z3.Z3_OP_IFF}


def generalise(es, atoms=None, ints=False):
    """replace everything that is not real or boolean arithmetic by variables (a statement proved for all their values)"""
    atoms = {} if atoms is None else atoms
    memo = {}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        kd = e.decl().kind()
        if (kd in _ARITH or ints and kd == z3.Z3_OP_TO_REAL) and (ints or all(not z3.is_int(x) for x in e.children()) and not z3.is_int(e)):
            r = e.decl()(*[go(x) for x in e.children()]) if e.children() else e
        else:
            if k not in atoms:
                atoms[k] = (e, z3.Const(f'gen!{len(atoms)}', e.sort()))
            r = atoms[k][1]
        memo[k] = r
        return r
    return [go(e) for e in es]


class Stuck(Exception):
    """a step of an argument failed: the obligation it serves is not discharged"""


def derive(c, label, given, goal, tmo=None, valid=(), ints=False):
    """goal follows by real arithmetic alone from `given`, each of which is proved first"""
    r = None
    for g in valid:
        r = PV.solve([], g)
        if not r.ok:
            lemma(c, label + ' (valid formula)', r)
            return False
    for g in given:
        r = prove(c, g, auto=False, tmo=tmo)
        if not r.ok:
            lemma(c, f'{label} (premise {[i for i, x in enumerate(given) if x is g]})', r)
            raise Stuck
    fs = generalise(list(given) + list(valid) + [goal], ints=ints)
    r = PV.solve([], fs[-1], fs[:-1], tmo=tmo)
    lemma(c, label, r)
    if not r.ok and os.environ.get('DV_DERIVE'):
        z3.set_option(max_depth=60,max_lines=2000,max_args=200); open('/tmp/w/derive.txt','a').write('\n'.join(['DERIVE '+label]+[str(x) for x in fs]))
    if not r.ok:
        raise Stuck
    c.fact(goal)


def direct_induct(c, label, P, n, extra0=None, extra=None, hyps=(), tmo=None):
    """forall k in [0, n). P(k), proved by induction from the fact base and explicit instances only"""
    if extra0:
        extra0()
    r = prove(c, P(iv(0)), list(hyps) + [n > 0], tmo=tmo, auto=False)
    if r.ok:
        k = c.fresh('k')
        if extra:
            extra(k)
        r = prove(c, P(Add(k, iv(1))), list(hyps) + [k >= 0, Add(k, iv(1)) < n, P(k)], tmo=tmo, auto=False)
    lemma(c, label, r)
    return (lambda q: c.fact(Implies(And(q >= 0, q < n, *hyps), P(q)))) if r.ok else (lambda q: None)


def least(c, n, pred, name='least'):
    """M: the least index in [0, n) with pred, n if there is none"""
    M = c.fresh(name)
    c.fact(Implies(n >= 0, And(M >= 0, M <= n)))
    c.fact(Implies(And(M >= 0, M < n), pred(M)))
    c.quants.append((1, lambda j: Implies(And(j >= 0, j < M), Not(pred(j))), name))
    c.add_pool(M)
    return M


class Indicator:
    """membership of y in the list x[0..n)"""

    def __init__(self, c, x, n, name='In'):
        self.c = c
        self.fn = c.func(name, I, B)
        self.J = c.func(name + '_j', I, I)
        c.quants.append((1, lambda i: Implies(And(i >= 0, i < n), self.fn(x(i))), name))
        self.x, self.n, self.seen = x, n, set()

    def __call__(self, y):
        y = iv(y)
        if self.c.level == 0 and y.get_id() not in self.seen:
            self.seen.add(y.get_id())
            self.c.keep.append(y)
            j = self.J(y)
            self.c.fact(Implies(self.fn(y), And(j >= 0, j < self.n, self.x(j) == y)))
        return self.fn(y)

    def of(self, i):
        """the i-th entry is a member"""
        self.c.fact(Implies(And(i >= 0, i < self.n), self.fn(self.x(i))))


def universal(c, key, label, dims, P, extra=None, tmo=None, cases=None):
    """lemma forall 0 <= idx < dims. P(*idx), proved once for arbitrary indices; returns use(*idx), which asserts an
    instance (nothing if the proof failed).  extra(*idx) evaluates what the proof needs"""
    st = c.__dict__.setdefault('_uni', {})
    if key not in st:
        n0 = len(c.facts)
        ks = [c.fresh('g', n=d) for d in dims]
        if extra:
            extra(*ks)
        g = P(*ks)
        h = [c.in_range(ks, dims)]
        r = prove(c, g, h, auto=False, tmo=tmo) if cases is None else prove_cases(c, g, h, cases(*ks), auto=False, tmo=tmo)
        lemma(c, label, r)
        st[key] = r.ok
        from .fw import forget
        forget(c, ks, n0)

    def use(*ks):
        k = ('uni', key) + tuple(x.get_id() for x in ks)
        if st[key] and k not in c.extra_done:
            c.extra_done.add(k)
            c.keep.append(ks)
            c.fact(Implies(c.in_range(ks, dims), P(*ks)))
    return use


def log_facts(c, e, seen=None):
    """log of products, quotients and powers of positive terms, for every logarithm in the term e"""
    seen = set() if seen is None else seen
    if e.get_id() in seen or not z3.is_app(e):
        return
    seen.add(e.get_id())
    for x in e.children():
        log_facts(c, x, seen)
    if e.decl().eq(Log):
        a = e.arg(0)
        kd = a.decl().kind()
        if kd in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and num(a) is None:
            xs = a.children()
            pos = [x > 0 for x in xs if num(x) is None]
            if any(num(x) is not None and num(x) <= 0 for x in xs):
                return
            ls = [Log(x) for x in xs]
            tot = ls[0]
            for l in ls[1:]:
                tot = tot + l if kd == z3.Z3_OP_MUL else tot - l
            c.fact(Implies(And(*pos), e == tot))
            for l in ls:
                log_facts(c, l, seen)

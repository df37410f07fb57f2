"""Discharging obligations: instantiation of universal facts, sum lemmas, z3 then cvc5."""
import itertools
import os
import subprocess
import tempfile
import time
from .sem import *
from .sem import Ctx
import z3

STATS = dict(n=0, proved=0, z3=0, cvc5=0, time=0.0)
VERBOSE = bool(os.environ.get('DV_DEBUG'))
TMO = float(os.environ.get('DV_TIMEOUT', '20'))


class Result:
    def __init__(self, status, backend='', secs=0.0, model=None, why=''):
        self.status, self.backend, self.secs, self.model, self.why = status, backend, secs, model, why

    @property
    def ok(self):
        return self.status == 'proved'

    def __repr__(self):
        return f'{self.status}({self.backend},{self.secs:.2f}s)'


def syms(e, memo={}):
    """names of uninterpreted symbols of a term"""
    k = e.get_id()
    r = memo.get(k)
    if r is not None:
        return r[1]
    out = set()
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    memo[k] = (e, out)
    return out


def coi(facts, goal_syms, rounds):
    cur = set(goal_syms)
    sel = []
    rest = list(facts)
    for _ in range(rounds):
        nxt = []
        new = set()
        for f in rest:
            s = syms(f)
            if s & cur:
                sel.append(f)
                new |= s
            else:
                nxt.append(f)
        rest = nxt
        if new <= cur:
            break
        cur |= new
    return sel


OLD = {'smt.arith.solver': 2, 'smt.arith.nl': False}     # the older simplex core, linear reasoning only


def _z3(fs, tmo, tactic=None, opts=None):
    s = z3.Solver() if tactic is None else z3.Then(*tactic).solver()
    s.set('timeout', int(tmo * 1000))
    for k, v in (opts or {}).items():
        s.set(k, v)
    s.add(fs)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', s.model()
    return 'unknown', None


def _cvc5(fs, tmo):
    s = z3.Solver()
    s.add(fs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        r = subprocess.run(['cvc5', f'--tlimit={int(tmo * 1000)}', '--nl-ext-tplanes', p], capture_output=True, text=True, timeout=tmo + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown'
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return 'unknown'
    finally:
        os.unlink(p)


def nonlinear(e, memo={}):
    """does a term contain a product or quotient of two unknown reals"""
    k = e.get_id()
    r = memo.get(k)
    if r is not None:
        return r[1]
    out = False
    if z3.is_app(e):
        kd = e.decl().kind()
        if kd == z3.Z3_OP_MUL and sum(num(x) is None for x in e.children()) > 1 and not z3.is_int(e):
            out = True
        elif kd in (z3.Z3_OP_DIV,) and num(e.arg(1)) is None:
            out = True
        elif kd == z3.Z3_OP_POWER:
            out = True
        else:
            out = any(nonlinear(x) for x in e.children())
    memo[k] = (e, out)
    return out


ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS}
LOGIC = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IFF, z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT}


def purified(facts, goal, hyps, tmo=6):
    """decide the conditionals of the goal and merge its equal atoms with the linear facts, then compare the
    remaining arithmetic: sound, since every replacement is entailed"""
    if z3.is_or(goal):
        hard = [x for x in goal.children() if nonlinear(x)]
        hyps = list(hyps) + [Not(x) for x in goal.children() if not nonlinear(x)]
        goal = Or(*hard)
    lin = [f for f in list(facts) + list(hyps) if not nonlinear(f)]
    s = z3.Solver()
    s.set('timeout', 400)
    s.add(lin)
    memo = {}

    def entails(f):
        s.push()
        s.add(Not(f))
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        return r == z3.unsat, m

    def red(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        r = e
        if z3.is_app(e) and e.num_args():
            kd = e.decl().kind()
            if kd == z3.Z3_OP_ITE:
                cnd = e.arg(0)
                if entails(cnd)[0]:
                    r = red(e.arg(1))
                elif entails(Not(cnd))[0]:
                    r = red(e.arg(2))
                else:
                    a, b = red(e.arg(1)), red(e.arg(2))
                    r = a if a.eq(b) else z3.If(cnd, a, b)
            elif kd in ARITH or kd in LOGIC or kd == z3.Z3_OP_TO_REAL or e.decl().name() in ('log', 'sqrt', 'exp'):
                ch = [red(x) for x in e.children()]
                if any(not x.eq(y) for x, y in zip(ch, e.children())):
                    r = z3.And(*ch) if kd == z3.Z3_OP_AND else z3.Or(*ch) if kd == z3.Z3_OP_OR else e.decl()(*ch) if len(ch) <= 2 or kd not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (z3.Sum(ch) if kd == z3.Z3_OP_ADD else z3.Product(ch))
        memo[k] = (e, r)
        return r
    g = red(goal)
    atoms = {}

    def walk(e, top):
        kd = e.decl().kind() if z3.is_app(e) else None
        if z3.is_app(e) and (kd in ARITH or (top and kd in LOGIC)) and num(e) is None:
            for x in e.children():
                walk(x, top)
        elif z3.is_real(e) and num(e) is None:
            if e.decl().name() in ('log', 'sqrt', 'exp') and e.num_args() == 1:
                walk(e.arg(0), top)
            atoms[e.get_id()] = e
        elif top and z3.is_app(e) and kd == z3.Z3_OP_ITE:
            for x in e.children()[1:]:
                walk(x, top)
    walk(g, True)
    ats = [a for a in atoms.values() if not (a.decl().name() in ('log', 'sqrt', 'exp') and a.num_args() == 1)]
    if len(ats) > 80:
        return False
    # partition by equality: refine with models
    r = s.check()
    if r == z3.unsat:
        return True
    groups = [ats]
    if r == z3.sat:
        m = s.model()
        by = {}
        for a in ats:
            by.setdefault(str(m.eval(a, model_completion=True)), []).append(a)
        groups = list(by.values())
    rep = []
    while groups:
        gr = groups.pop()
        a = gr[0]
        same, rest = [a], []
        for n, b in enumerate(gr[1:]):
            ok, m = entails(a == b)
            (same if ok else rest).append(b)
        if rest:
            groups.append(rest)
        for b in same[1:]:
            rep.append((b, a))
    g2 = z3.substitute(g, *rep) if rep else g
    if z3.is_true(z3.simplify(g2)):
        return True
    left = [a for a in ats if not any(b is a for b, _ in rep)]
    fresh = [(a, z3.Real(f'pur!{n}')) for n, a in enumerate(left)]
    g3 = z3.substitute(g2, *fresh)
    s2 = z3.Solver()
    s2.set('timeout', int(tmo * 1000))
    gs = syms(g3) | {str(v) for _, v in fresh}
    for f in list(hyps) + [f for f in facts if len(syms(f)) <= 4]:
        f2 = z3.substitute(z3.substitute(f, *rep), *fresh)
        if syms(f2) <= gs and syms(f2):
            s2.add(f2)
    s2.add(Not(g3))
    return s2.check() == z3.unsat


def solve(facts, goal, hyps=(), tmo=None, quick=False):
    """is goal entailed by facts and hyps"""
    tmo = tmo or TMO
    t0 = time.time()
    goal = bv(goal)
    if z3.is_true(goal):
        return Result('proved', 'trivial', 0.0)
    if nonlinear(goal):
        r, m = _z3(list(facts) + [Not(goal)] + list(hyps), 0.7)
        if r == 'unsat':
            return Result('proved', 'z3', time.time() - t0)
        try:
            ok = r != 'sat' and purified(facts, goal, hyps)
        except z3.Z3Exception:
            ok = False
        if ok:
            return Result('proved', 'z3 (purified)', time.time() - t0)
    neg = [Not(goal)] + list(hyps)
    gs = set()
    for x in neg:
        gs |= syms(x)
    facts = list(facts)
    model = None
    r, m = _z3(facts + neg, min(3, tmo))
    if r == 'unsat':
        return Result('proved', 'z3', time.time() - t0)
    if r == 'sat':
        return Result('refuted', 'z3', time.time() - t0, m)
    r, m = _z3(facts + neg, 2, opts=OLD)
    if r == 'unsat':
        return Result('proved', 'z3', time.time() - t0)
    if quick:
        return Result('unknown', '', time.time() - t0)
    r, m = _z3(facts + neg, min(6, tmo), opts=OLD)
    if r == 'unsat':
        return Result('proved', 'z3', time.time() - t0)
    last = -1
    for rounds in (1, 2, 3):
        sub = coi(facts, gs, rounds)
        if len(sub) == last:
            break
        last = len(sub)
        if len(sub) == len(facts):
            break
        r, m = _z3(sub + neg, min(4, tmo))
        if r == 'unsat':
            return Result('proved', 'z3', time.time() - t0)
    r, m = _z3(facts + neg, tmo)
    if r == 'unsat':
        return Result('proved', 'z3', time.time() - t0)
    if r == 'sat':
        return Result('refuted', 'z3', time.time() - t0, m)
    if os.environ.get('DV_DUMP'):
        sv = z3.Solver()
        sv.add(facts + neg)
        with open(os.environ['DV_DUMP'] + f'/{STATS["n"]}.smt2', 'w') as fh:
            fh.write(sv.to_smt2())
    r = _cvc5(facts + neg, tmo)
    if r == 'unsat':
        return Result('proved', 'cvc5', time.time() - t0)
    return Result('unknown', '', time.time() - t0)


# ---------------------------------------------------------------- instantiation

def inst_quants(ctx, pool, limit=3000):
    done = ctx.extra_done
    n = 0
    for qi, q in enumerate(list(ctx.quants)):
        ar, fn, lab = q[:3]
        cands = q[3](pool) if len(q) > 3 and q[3] is not None else [pool] * ar
        for tup in itertools.product(*cands):
            k = ('q', qi) + tuple(t.get_id() for t in tup)
            if k in done:
                continue
            done.add(k)
            n += 1
            if n > limit:
                return
            r = fn(*tup)
            for f in (r if isinstance(r, (list, tuple)) else [r]):
                if f is not None:
                    ctx.fact(f)


def _w(ctx, name='sw', n=None):
    return ctx.fresh(name, n=n)


def sum_lemmas(ctx, pool, pair=True):
    """universally valid facts about the sums that occur (each an instance of a theorem on finite sums)"""
    done = ctx.extra_done
    recs = [r for r in ctx.sum_order if not r.bound]
    new_w = []
    for r in recs:
        zero = z3.IntVal(0) if r.sort == I else z3.RealVal(0)
        for nid, n in list(r.ns.items()):
            k = ('s1', r.id, nid)
            if k in done:
                continue
            done.add(k)
            w = _w(ctx, n=n)
            v = _w(ctx, n=n)
            ctx.fact(z3.Implies(n <= 0, r.ps(n) == zero))
            ctx.fact(Or(r.ps(n) >= 0, And(w >= 0, w < n, Lt(r.f(w), zero))))
            ctx.fact(Or(r.ps(n) <= 0, And(v >= 0, v < n, Gt(r.f(v), zero))))
            new_w += [w, v]
            u = _w(ctx, n=n)
            if r.sort == I:
                ctx.fact(Or(r.ps(n) <= n, n < 0, And(u >= 0, u < n, Gt(r.f(u), iv(1)))))
                u2 = _w(ctx, n=n)
                ctx.fact(Or(r.ps(n) >= n, And(u2 >= 0, u2 < n, Lt(r.f(u2), iv(1)))))
                new_w.append(u2)
            for j in pool:
                elem(ctx, r, n, j)
        for n1, n2 in itertools.combinations(list(r.ns.values()), 2):
            k = ('s2', r.id, n1.get_id(), n2.get_id())
            if k in done:
                continue
            done.add(k)
            seg(ctx, r, n1, n2)
            seg(ctx, r, n2, n1)
    if pair:
        for a, b in itertools.combinations(recs, 2):
            if a.sort != b.sort:
                continue
            for n1 in list(a.ns.values()):
                for n2 in list(b.ns.values()):
                    if n1.eq(n2):
                        new_w += congr(ctx, a, b, n1)
    return new_w


def elem(ctx, r, n, j):
    """0<=j<n and no negative summand => PS(n) >= f(j)"""
    k = ('se', r.id, n.get_id(), j.get_id())
    if k in ctx.extra_done:
        return
    ctx.extra_done.add(k)
    zero = z3.IntVal(0) if r.sort == I else z3.RealVal(0)
    w = _w(ctx, n=n)
    ctx.fact(Or(r.ps(n) >= r.f(j), j < 0, j >= n, And(w >= 0, w < n, Lt(r.f(w), zero))))
    return w


def seg(ctx, r, n1, n2):
    """0<=n1<=n2: no negative summand in [n1,n2) => PS(n1)<=PS(n2); strictly if a witness is positive; equal if all zero"""
    zero = z3.IntVal(0) if r.sort == I else z3.RealVal(0)
    w, v = _w(ctx, n=n2), _w(ctx, n=n2)
    g = And(n1 >= 0, n1 <= n2)
    ctx.fact(Or(Not(g), r.ps(n1) <= r.ps(n2), And(w >= n1, w < n2, Lt(r.f(w), zero))))
    ctx.fact(Or(Not(g), r.ps(n1) >= r.ps(n2), And(v >= n1, v < n2, Gt(r.f(v), zero))))
    ctx.fact(z3.Implies(n1 == n2, r.ps(n1) == r.ps(n2)))
    return w, v


def bounds01(ctx, r, n):
    """PS(n) <= n unless some summand exceeds 1, PS(n) >= n unless some is below 1"""
    u, w = _w(ctx, n=n), _w(ctx, n=n)
    ctx.fact(Or(r.ps(n) <= n, n < 0, And(u >= 0, u < n, Gt(r.f(u), mk(1, r.ps(n))))))
    ctx.fact(Or(r.ps(n) >= n, And(w >= 0, w < n, Lt(r.f(w), mk(1, r.ps(n))))))
    return u, w


def unfold_sum(ctx, r, k):
    """k>=0: PS(k+1) = PS(k) + f(k)"""
    k = iv(k)
    k1 = Add(k, iv(1))
    ctx.fact(z3.Implies(k >= 0, r.ps(k1) == r.ps(k) + r.f(k)))
    r.ns.setdefault(k1.get_id(), k1)
    r.ns.setdefault(k.get_id(), k)


def congr(ctx, a, b, n):
    """PSa(n) = PSb(n) unless the summands differ somewhere; same for <="""
    k = ('sc', a.id, b.id, n.get_id())
    if k in ctx.extra_done:
        return []
    ctx.extra_done.add(k)
    w = _w(ctx, 'cw', n)
    ctx.fact(Or(a.ps(n) == b.ps(n), And(w >= 0, w < n, Not(Eq(a.f(w), b.f(w))))))
    return [w]


def congr_le(ctx, a, b, n):
    w = _w(ctx, 'cw', n)
    ctx.fact(Or(a.ps(n) <= b.ps(n), And(w >= 0, w < n, Gt(a.f(w), b.f(w)))))
    return w


def nonneg(ctx, r, n):
    """PS(n) >= 0 unless some summand is negative"""
    w = _w(ctx, 'nw', n)
    ctx.fact(Or(r.ps(n) >= 0, And(w >= 0, w < n, Lt(r.f(w), mk(0, r.ps(n))))))
    return w


def update1(ctx, a, b, n, j):
    """b equals a except possibly at j: PSb(n)-PSa(n) = fb(j)-fa(j) (if 0<=j<n), unless they differ elsewhere"""
    w = _w(ctx, 'uw', n)
    d = If(And(j >= 0, j < n), Sub(b.f(j), a.f(j)), mk(0, a.ps(n)))
    ctx.fact(Or(b.ps(n) - a.ps(n) == d, n < 0, And(w >= 0, w < n, w != j, Not(Eq(a.f(w), b.f(w))))))
    return w


def updatem(ctx, a, b, n, js):
    """b equals a except possibly at the distinct positions js"""
    w = _w(ctx, 'uw', n)
    d = None
    for j in js:
        t = If(And(j >= 0, j < n), Sub(b.f(j), a.f(j)), mk(0, a.ps(n)))
        d = t if d is None else d + t
    ctx.fact(Or(b.ps(n) - a.ps(n) == d, n < 0, Not(z3.Distinct(*js)) if len(js) > 1 else F,
                And(w >= 0, w < n, *[w != j for j in js], Not(Eq(a.f(w), b.f(w))))))
    return w


def linear(ctx, n, target, terms):
    """target = sum_i c_i * rec_i (c_i free of the summation index) unless some summand differs"""
    w = _w(ctx, 'lw', n)
    zero = z3.RealVal(0) if target.sort == R else z3.IntVal(0)
    rhs, fw = zero, zero
    for c, r in terms:
        rhs = Add(rhs, Mul(c, r.ps(n)))
        fw = Add(fw, Mul(c, r.f(w)))
    ctx.fact(Or(target.ps(n) == rhs, n < 0, And(w >= 0, w < n, Not(Eq(target.f(w), fw)))))
    return w


def affine(ctx, n, target, r, a, b):
    """target = a * r + b * n (a, b free of the summation index) unless some summand differs"""
    w = _w(ctx, 'fw', n)
    nn = z3.ToReal(n) if r.sort == R else n
    ctx.fact(Or(target.ps(n) == Add(Mul(a, r.ps(n)), Mul(b, nn)), n < 0, And(w >= 0, w < n, Not(Eq(target.f(w), Add(Mul(a, r.f(w)), b))))))
    return w


def scaled(ctx, ind, val, v, n):
    """ind sums If(p, 1, 0), val sums If(p, v, 0) with the same p and v free of the index: val = v * ind"""
    ctx.fact(val.ps(n) == v * ind.ps(n))


def constant(ctx, r, n, v):
    """PS(n) = n*v (v free of the summation index) unless some summand is not v"""
    w = _w(ctx, 'kw', n)
    nn = z3.ToReal(n) if r.sort == R else n
    ctx.fact(Or(r.ps(n) == Mul(nn, v), n < 0, And(w >= 0, w < n, Not(Eq(r.f(w), v)))))
    return w


def single(ctx, r, n, j):
    """PS(n) = f(j) if 0<=j<n, unless some other summand is not zero"""
    w = _w(ctx, 'ow', n)
    zero = mk(0, r.ps(n))
    ctx.fact(Or(r.ps(n) == r.f(j), j < 0, j >= n, And(w >= 0, w < n, w != j, Not(Eq(r.f(w), zero)))))
    return w


def swap(ctx, outer, n1, n2):
    """sum_i sum_j f(i,j) = sum_j sum_i f(i,j), where the summand of outer is itself a sum over j < n2.
    Returns the record of the exchanged sum, or None if the inner summand is not a plain sum"""
    def f(i, j):
        r = ctx.rec_or_none(outer.f(i))
        if r is None:
            raise Unsupported('inner sum')
        return r.f(j)
    try:
        t = ctx.sum(n2, lambda j: ctx.sum(n1, lambda i: f(i, j), outer.sort), outer.sort)
    except Unsupported:
        return None
    ctx.fact(outer.ps(n1) == t)
    return ctx.rec_or_none(t)


def prove_cases(ctx, goal, hyps, cases, **kw):
    """split on exhaustive cases"""
    r = prove(ctx, Or(*cases), hyps, **kw)
    for x in cases:
        if r.ok:
            t = r.secs
            r = prove(ctx, goal, list(hyps) + [x], **kw)
            if VERBOSE:
                print('   case', str(x).replace('\n', ' ')[:80], r)
            r.secs += t
    return r


def prove(ctx, goal, hyps=(), pool=(), rounds=2, tmo=None, sums=True, auto=True):
    """prove goal from the fact base; instantiates quantified facts at the pool"""
    STATS['n'] += 1
    t0 = time.time()
    goal = bv(goal)
    if z3.is_true(z3.simplify(goal)):
        STATS['proved'] += 1
        return Result('proved', 'simplify', 0.0)
    r = solve(ctx.facts, goal, hyps, tmo=2, quick=True)
    p = list(ctx.pool) + [iv(x) for x in pool]
    if not r.ok and auto and (ctx.quants or ctx.sums):
        seen = set()
        for rd in range(rounds):
            pp = []
            for t in list(ctx.pool) + [iv(x) for x in pool]:
                if t.get_id() not in seen or True:
                    pp.append(t)
            uniq = {t.get_id(): t for t in pp}
            pp = list(uniq.values())
            nf = len(ctx.facts)
            inst_quants(ctx, pp)
            if sums:
                ws = sum_lemmas(ctx, pp)
                if rd == 0 and len(ws) <= 12:
                    pool = list(pool) + ws
            if len(ctx.facts) == nf:
                break
            last = rd == rounds - 1
            r = solve(ctx.facts, goal, hyps, tmo=tmo if last else 3, quick=not last)
            if r.ok:
                break
    if not r.ok and r.status != 'refuted':
        r = solve(ctx.facts, goal, hyps, tmo=tmo)
    r.secs = time.time() - t0
    STATS['time'] += r.secs
    if r.ok:
        STATS['proved'] += 1
        STATS[r.backend] = STATS.get(r.backend, 0) + 1
    return r

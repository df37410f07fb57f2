"""Symbolic evaluation of jaxprs: control flow, loops by invariants, calls by contract."""
import itertools
from . import prims
from .prims import *
from .sem import *
from .sem import Ctx
import z3
import jax
from jax import tree_util
from jax._src import core
from .dims import DimEnv
from jax.interpreters import batching

UNROLL = 64


def eval_jaxpr(ctx, jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, core.Literal):
            return lit(v.val, v.aval)
        return env[v]
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        name = eqn.primitive.name
        r = RULES.get(name)
        if r is None:
            raise Unsupported(f'primitive {name}')
        outs = r(ctx, eqn, *ins)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def eval_closed(ctx, cj, args):
    return eval_jaxpr(ctx, cj.jaxpr, [lit(c, core.get_aval(c)) if not isinstance(c, Arr) else c for c in cj.consts], args)


@rule('pjit', 'closed_call', 'core_call', 'remat', 'checkpoint', 'remat2')
def _pjit(ctx, eqn, *a):
    cj = eqn.params.get('jaxpr') or eqn.params.get('call_jaxpr')
    if isinstance(cj, core.ClosedJaxpr):
        return eval_closed(ctx, cj, a)
    return eval_jaxpr(ctx, cj, [], a)


@rule('custom_jvp_call')
def _cjvp(ctx, eqn, *a):
    return eval_closed(ctx, eqn.params['call_jaxpr'], a)


@rule('custom_vjp_call_jaxpr', 'custom_vjp_call')
def _cvjp(ctx, eqn, *a):
    return eval_closed(ctx, eqn.params.get('fun_jaxpr') or eqn.params['call_jaxpr'], a)


@rule('cond')
def _cond(ctx, eqn, which, *ops):
    brs = eqn.params['branches']
    res = []
    w = which()
    for n, b in enumerate(brs):
        if kind(which.dtype) == 'b':
            c = w if n == 1 else Not(w)
        else:
            c = Le(w, iv(0)) if n == 0 else Ge(w, iv(n)) if n == len(brs) - 1 else Eq(w, iv(n))
        ctx.hyp_stack.append(c)
        try:
            res.append((c, eval_closed(ctx, b, ops)))
        finally:
            ctx.hyp_stack.pop()
    outs = []
    for i, v in enumerate(eqn.outvars):
        def f(*idx, i=i):
            r = res[-1][1][i](*idx)
            for c, o in reversed(res[:-1]):
                r = If(c, o[i](*idx), r)
            return r
        outs.append(aval_arr(v.aval, f))
    return outs


class Loop:
    """A scan (or while) with an unbounded number of iterations: carry sequences C_s(k)."""

    def __init__(self, ctx, n, init, step, avals, kind_='scan', cond=None):
        self.ctx, self.init, self.step, self.kind, self.cond = ctx, init, step, kind_, cond
        self.n = n
        self.C = []
        self.memo = {}
        self.calls = {}
        self.id = len(ctx.loops)
        for s, (a, av) in enumerate(zip(init, avals)):
            nd = len(av.shape)
            srt = sort_of(av.dtype)
            fn = z3.Function(f'C{self.id}_{s}!{next(ctx.cnt)}', *([I] * (nd + 1)), srt)
            if kind(av.dtype) == 'i':
                ctx.ranges[fn.name()] = DT_RANGE[np.dtype(av.dtype)]

            def f(k, *idx, fn=fn, a=a, av=av):
                t = fn(k, *idx)
                if kind(av.dtype) == 'i':
                    lo, hi = DT_RANGE[np.dtype(av.dtype)]
                    ctx.fact(And(t >= lo, t <= hi))
                if num(k) == 0:
                    ctx.fact(t == a(*idx) if not z3.is_bool(t) else t == bv(a(*idx)))
                return t
            self.C.append(Arr((n,) + tuple(av.shape), av.dtype, f, f'carry{s}'))
        self.avals = avals
        self.candidates = []
        self.proved = []

    def carry(self, k):
        return [c.at(k) for c in self.C]

    def body(self, k):
        k = iv(k)
        r = self.memo.get(k.get_id())
        if r is None:
            ctx = self.ctx
            ctx.hyp_stack.append(And(k >= 0, k < self.nz()))
            n0 = len(ctx.calls)
            try:
                r = (k, self.step(self.carry(k), k))
            finally:
                ctx.hyp_stack.pop()
            self.memo[k.get_id()] = r
            self.calls[k.get_id()] = ctx.calls[n0:]
        return r[1]

    def nxt(self, k):
        """carry after iteration k"""
        return self.body(k)[0]

    def unfold(self, k, s, *idx):
        """definition of the sequence: C_s(k+1)(idx) == body(C(k))(idx) for 0 <= k < n"""
        v = self.nxt(k)[s](*idx)
        rng = And(Le(iv(0), k), Lt(k, self.nz())) if self.kind == 'scan' else And(k >= 0, k < self.nz())
        self.ctx.fact(z3.Implies(rng, self.C[s](Add(k, iv(1)), *idx) == v))

    def nz(self):
        return self.ctx.z(self.n) if not z3.is_expr(self.n) else self.n


@rule('scan')
def _scan(ctx, eqn, *ins):
    p = eqn.params
    cj, n, nc, nk, rev = p['jaxpr'], p['length'], p['num_consts'], p['num_carry'], p['reverse']
    consts, init, xs = list(ins[:nc]), list(ins[nc:nc + nk]), list(ins[nc + nk:])
    cav = [v.aval for v in eqn.outvars[:nk]]
    yav = [v.aval for v in eqn.outvars[nk:]]

    def step(carry, k):
        outs = eval_closed(ctx, cj, consts + carry + [x.at(k) for x in xs])
        return outs[:nk], outs[nk:]
    if isinstance(n, int) and n <= UNROLL:
        carry, ys = init, {}
        for k in (range(n - 1, -1, -1) if rev else range(n)):
            ctx.iter_stack.append((eqn, k))
            carry, y = step(carry, iv(k))
            ctx.iter_stack.pop()
            ys[k] = y
        outs = list(carry)
        for i, av in enumerate(yav):
            def f(k, *idx, i=i):
                c = num(k)
                if c is not None and c in ys:
                    return ys[c][i](*idx)
                if not ys:
                    return ctx.fresh('empty', sort_of(yav[i].dtype))
                r = None
                for q in reversed(range(n)):
                    v = ys[q][i](*idx)
                    r = v if r is None else If(Eq(k, iv(q)), v, r)
                return r
            outs.append(aval_arr(av, f))
        return outs
    nz = ctx.z(n)

    def rstep(carry, k):
        return step(carry, Sub(Sub(nz, iv(1)), k) if rev else k)
    L = Loop(ctx, n, init, rstep, cav)
    L.eqn = eqn
    ctx.loops.append(L)
    # one arbitrary iteration: obligations of the body, and the handlers that know invariants
    k = ctx.fresh('it', n=nz)
    L.k0 = k
    ctx.hyp_stack.append(And(k >= 0, k < nz))
    ctx.loop_stack.append(L)
    try:
        L.body(k)
    finally:
        ctx.loop_stack.pop()
        ctx.hyp_stack.pop()
    saved, ctx.raise_obl = ctx.raise_obl, False
    try:
        for h in ctx.loop_handlers:
            h(ctx, L)
    finally:
        ctx.raise_obl = saved
    outs = [Arr(av.shape, av.dtype, lambda *idx, s=s: L.C[s].at(nz)(*idx), f'exit{s}') for s, av in enumerate(cav)]
    for i, av in enumerate(yav):
        def f(k, *idx, i=i):
            kk = Sub(Sub(nz, iv(1)), k) if rev else k
            s2, ctx.raise_obl = ctx.raise_obl, False
            try:
                return L.body(kk)[1][i](*idx)
            finally:
                ctx.raise_obl = s2
        outs.append(aval_arr(av, f))
    return outs


@rule('while')
def _while(ctx, eqn, *ins):
    p = eqn.params
    cn, bn = p['cond_nconsts'], p['body_nconsts']
    cc, bc, init = list(ins[:cn]), list(ins[cn:cn + bn]), list(ins[cn + bn:])
    cav = [v.aval for v in eqn.outvars]

    def cond(carry):
        return eval_closed(ctx, p['cond_jaxpr'], cc + carry)[0]()

    def step(carry, k):
        return eval_closed(ctx, p['body_jaxpr'], bc + carry), []
    # concrete trip count?
    carry = init
    for q in range(UNROLL + 1):
        c = z3.simplify(bv(cond(carry)))
        if z3.is_false(c):
            return list(carry)
        if not z3.is_true(c) or q == UNROLL:
            break
        carry, _ = step(carry, iv(q))
    if z3.is_true(c) or q > 0:
        if z3.is_true(c):
            raise Unsupported('long concrete while')
    n = ctx.fresh('trips')
    ctx.fact(n >= 0)
    L = Loop(ctx, n, init, step, cav, 'while', cond)
    L.eqn = eqn
    ctx.loops.append(L)
    ctx.notes.add('termination of a while loop is assumed')
    k = ctx.fresh('it')
    L.k0 = k
    ctx.hyp_stack.append(And(k >= 0, k < n))
    try:
        L.body(k)
    finally:
        ctx.hyp_stack.pop()
    # exit: the condition is false at n and true before
    ctx.fact(Not(cond(L.carry(n))))
    ctx.fact(z3.Implies(And(k >= 0, k < n), cond(L.carry(k))))
    L.while_cond = cond
    saved, ctx.raise_obl = ctx.raise_obl, False
    try:
        for h in ctx.loop_handlers:
            h(ctx, L)
    finally:
        ctx.raise_obl = saved
    return [Arr(av.shape, av.dtype, lambda *idx, s=s: L.C[s].at(n)(*idx), f'exit{s}') for s, av in enumerate(cav)]


# ---------------------------------------------------------------- calls by contract

call_p = core.Primitive('bz_call')
call_p.multiple_results = True
CALLS = {}
_ids = itertools.count()


class CallInfo:
    pass


@call_p.def_abstract_eval
def _call_abs(*avals, cid, bsizes, bdims):
    info = CALLS[cid]
    return [core.ShapedArray(tuple(bsizes) + tuple(o.shape), o.dtype, weak_type=o.weak_type)
            for o in info.out_avals]


def _call_batch(args, dims, *, cid, bsizes, bdims):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    new, nb = [], []
    for a, d, b in zip(args, dims, bdims):
        if d is batching.not_mapped:
            new.append(a)
            nb.append((False,) + b)
        else:
            new.append(batching.moveaxis(a, d, 0))
            nb.append((True,) + b)
    outs = call_p.bind(*new, cid=cid, bsizes=(size,) + tuple(bsizes), bdims=tuple(nb))
    return outs, [0] * len(outs)


batching.primitive_batchers[call_p] = _call_batch


def is_dyn(x):
    """array-like call argument (as opposed to a compile-time value)"""
    return isinstance(x, (jax.Array, core.Tracer, np.ndarray))


class Spec:
    """abstract argument"""
    def __init__(self, shape, dtype, weak_type=False):
        self.shape, self.dtype, self.weak_type = tuple(shape), jax.dtypes.canonicalize_dtype(dtype, allow_extended_dtype=True), weak_type
        self.ndim = len(self.shape)

    @property
    def size(self):
        s = 1
        for d in self.shape:
            s = s * d
        return s


from jax._src import api_util
api_util._shaped_abstractify_handlers[Spec] = lambda s: core.ShapedArray(s.shape, s.dtype, weak_type=s.weak_type)
key_dtype = jax.random.key(0).dtype


def bind_call(contract, orig, args, kw):
    """called at trace time instead of the real function"""
    leaves, tree = tree_util.tree_flatten((args, kw), is_leaf=lambda x: x is None)
    dyn = [(i, x) for i, x in enumerate(leaves) if is_dyn(x)]
    static = [None if is_dyn(x) else x for x in leaves]
    dynpos = [i for i, _ in dyn]

    def rebuild(ds):
        ls = list(static)
        for i, d in zip(dynpos, ds):
            ls[i] = d
        return tree_util.tree_unflatten(tree, ls)
    out_tree = None

    def flat(*ds):
        nonlocal out_tree
        a, k = rebuild(ds)
        o = orig(*a, **k)
        ls, out_tree = tree_util.tree_flatten(o)
        return ls
    avals = [core.raise_to_shaped(core.get_aval(x)) for _, x in dyn]
    specs = [Spec(a.shape, a.dtype, a.weak_type) for a in avals]
    if contract.out_specs is not None:
        o = contract.out_specs(*rebuild(specs)[0], **rebuild(specs)[1])
        ls, out_tree = tree_util.tree_flatten(o, is_leaf=lambda x: isinstance(x, Spec))
        out_avals = [core.ShapedArray(s.shape, s.dtype, weak_type=s.weak_type) for s in ls]
    else:
        def sig():
            cj = jax.make_jaxpr(flat)(*specs)
            return str([(a.shape, a.dtype, a.weak_type) for a in cj.out_avals]) + str(out_tree), list(cj.out_avals)
        r = DimEnv.current.explore(sig) if DimEnv.current is not None else None
        if r is None:
            r = sig()
        out_avals = r[1]
    info = CallInfo()
    info.contract, info.rebuild, info.out_avals, info.out_tree = contract, rebuild, out_avals, out_tree
    info.orig = orig
    cid = next(_ids)
    CALLS[cid] = info
    outs = call_p.bind(*[x for _, x in dyn], cid=cid, bsizes=(), bdims=tuple(() for _ in dyn))
    return tree_util.tree_unflatten(out_tree, outs)


class Inst:
    """one instance of a call (at fixed batch indices)"""
    def __init__(self):
        self.outs = None


@rule('bz_call')
def _bzcall(ctx, eqn, *ins):
    cid, bsizes, bdims = eqn.params['cid'], eqn.params['bsizes'], eqn.params['bdims']
    info = CALLS[cid]
    c = info.contract
    nb = len(bsizes)
    uid = next(ctx.cnt)
    stack = And(*ctx.hyp_stack)
    funcs = {}
    memo = {}
    callrec = dict(main=ctx.raise_obl, contract=c, eqn=eqn, nb=nb, bsizes=bsizes, stack=tuple(ctx.hyp_stack), loops=tuple(getattr(ctx, 'loop_stack', ())))

    def inst(b):
        k = tuple(i.get_id() for i in b)
        m = memo.get(k)
        if m is not None:
            return m
        m = memo[k] = Inst()
        m.b = b
        args = [a.at(*[b[d] for d in range(nb) if bd[d]]) for a, bd in zip(ins, bdims)]
        a, kw = info.rebuild(args)
        m.args, m.kw = a, kw
        cnt = itertools.count()
        guard = And(stack, ctx.in_range(b, bsizes))

        def fresh(shape, dtype, name='o'):
            """an unknown output, one function of the batch indices and its own"""
            pos = next(cnt)
            s = sort_of(dtype)
            key = (pos, str(s), len(shape))
            if key not in funcs:
                nm = f'{c.name}.{name}!{uid}_{pos}'
                funcs[key] = z3.Function(nm, *([I] * (nb + len(shape))), s) if nb + len(shape) else z3.Const(nm, s)
                if kind(dtype) == 'i':
                    ctx.ranges[nm] = DT_RANGE[np.dtype(dtype)]
            fn = funcs[key]

            def f(*idx):
                t = fn(*b, *idx) if nb + len(shape) else fn
                if kind(dtype) == 'i':
                    lo, hi = DT_RANGE[np.dtype(dtype)]
                    ctx.fact(And(t >= lo, t <= hi))
                return t
            return Arr(shape, dtype, f, f'{c.name}.{name}')
        m.fresh = fresh
        m.guard = guard
        m.out_specs = [Spec(o.shape, o.dtype, o.weak_type) for o in info.out_avals]
        m.outs = 'pending'
        out = c.apply(ctx, m, a, kw, tree_util.tree_unflatten(info.out_tree, m.out_specs))
        leaves = tree_util.tree_leaves(out, is_leaf=lambda x: isinstance(x, Arr))
        assert len(leaves) == len(info.out_avals), (c.name, len(leaves), len(info.out_avals))
        m.out = out
        m.outs = leaves
        if c.post is not None:
            c.post(ctx, m, a, kw, out)
        return m
    if ctx.raise_obl:
        b = tuple(ctx.fresh('b', n=q) for q in bsizes)
        # bodies of symbolic loops call this with the iteration as a hypothesis
        ctx.hyp_stack.append(ctx.in_range(b, bsizes))
        try:
            i0 = inst(b)
            c.check_requires(ctx, i0)
        finally:
            ctx.hyp_stack.pop()
    callrec['inst'] = inst
    callrec['info'] = info
    ctx.calls.append(callrec)
    outs = []
    if nb == 0:
        m0 = inst(())
        if m0.outs != 'pending':
            return list(m0.outs)
    for o, av in enumerate(eqn.outvars):
        def f(*idx, o=o):
            m = inst(idx[:nb])
            if m.outs == 'pending':
                raise Unsupported('recursive contract evaluation')
            return m.outs[o](*idx[nb:])
        r = aval_arr(av.aval, f, f'{c.name}#{o}')
        outs.append(r)
    return outs

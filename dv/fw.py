"""Contracts on the project's functions, and the driver that verifies a function against its contract.

A contract names a real function of /repo (module attribute).  To verify it, the function object itself
is traced by JAX (all its Python control flow is executed by the Python interpreter, on symbolic sizes),
every function it calls that has a contract is replaced by that contract, and each clause of `ensures`
becomes an obligation for the solver.
"""
import builtins
import contextlib
import functools
import importlib
import inspect
import math
import os
import sys
import time
import traceback
import types
import warnings
from . import boot
boot.setup()
import numpy as np
import z3
import jax
from jax import numpy as jnp, lax, tree_util
from jax._src import core
from .dims import DimEnv, is_sym, PathLimit, _DimExpr
from .sem import *
from .sem import Ctx
from . import interp, prims, prove as PV
from .interp import Spec, bind_call, eval_closed, Loop, is_dyn, key_dtype, Inst
from .prove import prove, Result

MODS = ('grove', 'jaxext', 'mcmcstep', 'mcmcloop', 'prepcovars', 'debug', 'BART')


class NS(types.SimpleNamespace):
    def __getitem__(self, k):
        return getattr(self, k)

    def __contains__(self, k):
        return hasattr(self, k)


class Item:
    """one clause: forall idx in dims. fn(*idx)   (trig: assumed whenever that array is evaluated)"""

    def __init__(self, label, fn, dims=None, trig=None, maxdepth=1, hyp_pool=True, cands=None, export=True, pool=(), auto=True, cases=None):
        self.auto = auto
        self.cases = cases
        self.label, self.fn, self.trig, self.maxdepth = label, fn, trig, maxdepth
        if trig is not None and dims is None:
            dims = trig.shape
        self.dims = dims
        self.cands = cands
        self.export = export
        self.pool = pool
        if dims is None and callable(fn) and not z3.is_expr(fn):
            pass

    def goal(self, c):
        """(hyps, formula, fresh indices) to prove"""
        if self.dims is None:
            f = self.fn() if callable(self.fn) and not z3.is_expr(self.fn) else self.fn
            return [], _conj(f), []
        ks = [c.fresh('i', n=d) for d in self.dims]
        rng = [And(k >= 0, k < (d if z3.is_expr(d) else c.z(d))) for k, d in zip(ks, self.dims)]
        return rng, _conj(self.fn(*ks)), ks

    def assume(self, c, guard=T):
        if self.dims is None:
            f = self.fn() if callable(self.fn) and not z3.is_expr(self.fn) else self.fn
            c.fact(Implies(guard, _conj(f)))
            return

        def inst(*ks):
            rng = And(*[And(k >= 0, k < (d if z3.is_expr(d) else c.z(d))) for k, d in zip(ks, self.dims)])
            r = self.fn(*ks)
            if r is None:
                return None
            return Implies(And(guard, rng), _conj(r))
        if self.trig is not None:
            self.trig.on_eval(inst, self.maxdepth)
        else:
            c.quants.append((len(self.dims), inst, self.label, self.cands))


def _conj(f):
    if isinstance(f, (list, tuple)):
        return And(*[bv(x) for x in f])
    return bv(f)


class Contract:
    name = None               # 'grove.traverse_tree'
    out_specs = None          # only when the callee cannot be traced abstractly
    external = False          # trusted contract of a dependency
    functional = False

    def dims(self, E, v):     # declare dimension variables
        return NS()

    def args(self, d, v):
        raise NotImplementedError

    def requires(self, c, A):
        return []

    def ensures(self, c, A, out):
        return []

    def variants(self):
        return [None]

    def loop(self, c, L, A):
        pass

    auto_req = True
    drop_calls = False        # preconditions of calls are left to the other views of the same function

    @property
    def fname(self):
        '''the function under contract (a contract may be verified in several views name#view)'''
        return self.name.split('#')[0]

    # -- plumbing used by interp
    def resolve(self):
        mod, attr = self.fname.split('.', 1)
        m = importlib.import_module('bartz.' + mod)
        o = m
        for p in attr.split('.'):
            o = getattr(o, p)
        return o

    def harness(self, orig):
        '''how the code under contract is entered (an object is built and its attributes returned, ...)'''
        return orig

    def bindargs(self, orig, a, kw):
        sig = inspect.signature(inspect.unwrap(orig) if hasattr(orig, '__wrapped__') else orig)
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        return NS(**b.arguments)

    def apply(self, c, inst, a, kw, specs):
        inst.A = self.bindargs(self.orig, a, kw)
        return tree_util.tree_map(lambda s: inst.fresh(s.shape, s.dtype), specs, is_leaf=lambda x: isinstance(x, Spec))

    def post(self, c, inst, a, kw, out):
        inst.A.assuming = True
        for it in self.ensures(c, inst.A, out):
            if it.export:
                it.assume(c, inst.guard)

    def check_requires(self, c, inst):
        for it in self.requires(c, inst.A):
            h, g, ks = it.goal(c)
            c.oblig.append(dict(label=f'call {self.name}: {it.label}', goal=g, hyps=list(c.hyp_stack) + h, pool=ks, auto=it.auto and self.auto_req))


REGISTRY = {}


def register(cls):
    o = cls()
    REGISTRY[o.name] = o
    return cls


# ---------------------------------------------------------------- patched environment

class SymLen(Exception):
    pass


def s_len(x):
    sh = getattr(x, 'shape', None)
    if sh is not None and len(sh) and is_sym(sh[0]):
        return sh[0]
    return builtins.len(x)


class SymSqrt:
    """math.sqrt of a symbolic size; only its integer part is used"""
    def __init__(self, x):
        self.x = x


def s_int(x=0, *a):
    if is_sym(x):
        return x
    if isinstance(x, SymSqrt):
        env = DimEnv.current
        s = env.var(f'sqrt{len(env.vars)}', 0)
        z, y = env.z(s), env.z(x.x)
        env.know(z3.And(z * z <= y, y < (z + 1) * (z + 1)))
        return s
    return builtins.int(x, *a)


class _SInt(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or is_sym(x)

    def __call__(cls, x=0, *a):
        return s_int(x, *a)


class SInt(metaclass=_SInt):
    dtype = np.dtype('int32')      # what jax reads in `int` used as a type


def s_isinstance(x, t):
    if t is SInt:
        return isinstance(x, builtins.int) or is_sym(x)
    if isinstance(t, tuple) and SInt in t:
        t = tuple(builtins.int if q is SInt else q for q in t)
    return isinstance(x, t)


class SMath:
    def __getattr__(self, k):
        return getattr(math, k)

    @staticmethod
    def log2(x):
        if is_sym(x):
            env = DimEnv.current
            for ex, pw in env.pow2:
                d = x - pw
                if not is_sym(d) and d == 0:
                    return ex
                for s in (1, 2, 3):
                    d = x - pw * 2 ** s
                    if not is_sym(d) and d == 0:
                        return ex + s
                    d = 2 ** s * x - pw
                    if not is_sym(d) and d == 0:
                        return ex - s
            raise Unsupported(f'log2 of {x}')
        return math.log2(x)

    @staticmethod
    def sqrt(x):
        return SymSqrt(x) if is_sym(x) else math.sqrt(x)

    @staticmethod
    def prod(xs):
        r = 1
        for x in xs:
            r = r * x
        return r

    @staticmethod
    def ceil(x):
        return x if is_sym(x) else math.ceil(x)


def stateless_loops(frame):
    """do the loops of the calling function over ranges assign nothing but their index?"""
    import ast, textwrap
    tree = ast.parse(textwrap.dedent(inspect.getsource(frame.f_code)))
    for loop in ast.walk(tree):
        if isinstance(loop, (ast.For, ast.While)):
            for st in ast.walk(loop):
                if st is loop.target if isinstance(loop, ast.For) else False:
                    continue
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr, ast.Expr, ast.Delete, ast.With, ast.Global, ast.Nonlocal, ast.Yield, ast.Import)):
                    return False
    return True


class SRange:
    """range with symbolic ends, for loops whose iterations share no state: either nothing is left to say about the iterations (none, or all of them
    fell through), or one arbitrary iteration runs: its index divides the size of interest (then the size is N * q and the index N, with N and q arbitrary) or it does not"""

    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step

    def __iter__(self):
        env = DimEnv.current
        if env.divisor is None or self.step not in (1, -1):
            raise Unsupported('range with symbolic ends')
        size, N = env.divisor
        inside = (lambda k: z3.And(env.z(self.a) <= k, k < env.z(self.b))) if self.step == 1 else (lambda k: z3.And(env.z(self.b) < k, k <= env.z(self.a)))
        if not env.decide(z3.Bool(f'runs{len(env.taken)}'), 'loop runs'):
            return
        if env.decide(z3.And(z3.Bool(f'divides{len(env.taken)}'), inside(env.z(N))), 'index divides'):
            yield N
        else:
            k = env.var(f'index{len(env.vars)}', 0)
            env.know(inside(env.z(k)))
            if env.entail(env.z(k) >= 1) is not True:
                raise Unsupported('index of a loop may be zero')
            env.know(env.z(size) % env.z(k) != 0)
            yield k


def s_range(*a):
    if not any(is_sym(x) for x in a):
        return builtins.range(*a)
    if not stateless_loops(sys._getframe(1)):
        raise Unsupported('loop with a state over a symbolic range')
    return SRange(*((0, a[0], 1) if len(a) == 1 else (*a, 1) if len(a) == 2 else a))


class SWarn:
    def __getattr__(self, k):
        return getattr(warnings, k)

    @staticmethod
    def warn(*a, **kw):
        DimEnv.current.warned.append(a)


_real_scan = lax.scan


def s_scan(f, init, xs=None, length=None, reverse=False, unroll=1, **kw):
    sym = is_sym(length) or any(is_sym(getattr(l, 'shape', (0,))[0]) for l in tree_util.tree_leaves(xs))
    if not sym:
        if xs is None and not isinstance(length, builtins.int):
            length = builtins.int(length)
        return _real_scan(f, init, xs, length, reverse, unroll, **kw)
    if xs is None or not tree_util.tree_leaves(xs):
        dummy = jnp.zeros((length,), jnp.uint8)
        return _real_scan(lambda c, _: f(c, xs), init, dummy, None, reverse, 1, **kw)
    return _real_scan(f, init, xs, length, reverse, 1, **kw)


@contextlib.contextmanager
def patched(use, skip=None, extra=()):
    """install contract stubs (by module attribute) and the symbolic-size aware builtins"""
    undo = []

    def setattr_(o, k, v, had=True):
        if hasattr(o, k) and k in vars(o):
            undo.append((o, k, vars(o)[k], True))
        else:
            undo.append((o, k, None, False))
        setattr(o, k, v)
    mods = [importlib.import_module('bartz.' + m) for m in MODS]
    for m in mods:
        setattr_(m, 'len', s_len)
        setattr_(m, 'int', SInt)
        setattr_(m, 'isinstance', s_isinstance)
        setattr_(m, 'range', s_range)
        if 'warnings' in vars(m):
            setattr_(m, 'warnings', SWarn())
        if 'math' in vars(m):
            setattr_(m, 'math', SMath())
    setattr_(lax, 'scan', s_scan)
    for nm in use:
        ct = REGISTRY[nm] if isinstance(nm, str) else nm
        if skip is not None and ct.fname == skip:
            continue
        if ct.external:
            for o, k, w in ct.install():
                setattr_(o, k, w)
            continue
        modn, attr = ct.fname.split('.', 1)
        m = importlib.import_module('bartz.' + modn)
        if not hasattr(m, attr):
            continue          # the function no longer exists: its callers are read with its body inlined
        orig = getattr(m, attr)
        ct.orig = orig
        stub = ct.stub(orig) if hasattr(ct, 'stub') else _mkstub(ct, orig)
        setattr_(m, attr, stub)
    try:
        yield
    finally:
        for o, k, v, had in reversed(undo):
            if had:
                setattr(o, k, v)
            else:
                try:
                    delattr(o, k)
                except AttributeError:
                    pass


def _mkstub(ct, orig):
    @functools.wraps(orig)
    def stub(*a, **kw):
        return bind_call(ct, orig, a, kw)
    stub.__doc__ = orig.__doc__
    return stub


# ---------------------------------------------------------------- verification driver

class Outcome:
    """one obligation and its verdict"""

    def __init__(self, fn, label, res, path=''):
        self.fn, self.label, self.res, self.path = fn, label, res, path

    def __repr__(self):
        return f'{self.fn}{self.path}: {self.label}: {self.res}'


def _isspec(x):
    return isinstance(x, Spec) or x is None


class Run:
    """symbolic execution of one function on one path"""

    def __init__(self, fn, args, env, kwargs=None):
        self.fn, self.env = fn, env


def trace(fn, args, kw=None):
    """jaxpr of fn on Specs (possibly nested in pytrees with static leaves); returns (closed jaxpr, out_tree, in leaves)"""
    kw = kw or {}
    leaves, tree = tree_util.tree_flatten((args, kw), is_leaf=_isspec)
    dyn = [i for i, x in enumerate(leaves) if isinstance(x, Spec)]
    specs = [leaves[i] for i in dyn]
    ot = None
    st = {}

    def flat(*ds):
        nonlocal ot
        ls = list(leaves)
        for i, d in zip(dyn, ds):
            ls[i] = d
        a, k = tree_util.tree_unflatten(tree, ls)
        o = fn(*a, **k)
        os_, ot = tree_util.tree_flatten(o, is_leaf=lambda x: x is None)
        res = []
        st['static'] = {}
        for n, x in enumerate(os_):
            if is_dyn(x):
                res.append(x)
            else:
                st['static'][n] = x
        st['n'] = len(os_)
        return res
    cj = jax.make_jaxpr(flat)(*specs)
    return cj, ot, st, leaves, tree, dyn


def symexec(c, fn, args, kw=None, inputs=None, names=None):
    """evaluate fn's jaxpr; returns (A pytree of Arr inputs, output pytree of Arr)"""
    cj, ot, st, leaves, tree, dyn = trace(fn, args, kw)
    c.jaxpr = cj
    for h in c.env.hyps():
        c.fact(h)
    if inputs is None:
        inputs = []
        for i in dyn:
            s = leaves[i]
            inputs.append(c.input((names or {}).get(i, f'a{i}'), s.shape, s.dtype))
    outs = eval_closed(c, cj, inputs)
    ls = list(leaves)
    for i, a in zip(dyn, inputs):
        ls[i] = a
    A = tree_util.tree_unflatten(tree, ls)
    full = []
    it = iter(outs)
    for n in range(st['n']):
        full.append(st['static'][n] if n in st['static'] else next(it))
    out = tree_util.tree_unflatten(ot, full)
    return A, out


def split_args(fn, args):
    '''positional / keyword arguments of a call by name (mapped functions only take positional ones)'''
    sig = inspect.signature(inspect.unwrap(fn))
    pos, kws, gap = [], {}, False
    for n, p in sig.parameters.items():
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) and not gap:
            if n in args:
                pos.append(args[n])
            else:
                gap = True
        elif n in args:
            kws[n] = args[n]
    missing = [n for n in args if n not in sig.parameters and not any(p.kind == p.VAR_KEYWORD for p in sig.parameters.values())]
    if missing:
        raise Unsupported(f'no parameter {missing}')
    for n in args:
        if n not in sig.parameters:
            kws[n] = args[n]
    return tuple(pos), kws


def reorder(inputs, args, pos, kws):
    '''inputs listed in the order of args -> order of the flattened call'''
    m, i = {}, 0
    for s in tree_util.tree_leaves(dict(args), is_leaf=_isspec):
        if isinstance(s, Spec):
            m[id(s)] = inputs[i]
            i += 1
    return [m[id(s)] for s in tree_util.tree_leaves((pos, kws), is_leaf=_isspec) if isinstance(s, Spec)]


def mkinputs(c, args, prefix='a'):
    """pytree of Arr inputs for a pytree of Specs, named by path"""
    flat, tree = tree_util.tree_flatten_with_path(args, is_leaf=_isspec)
    ls = []
    for p, s in flat:
        if isinstance(s, Spec):
            nm = prefix + ''.join('_' + str(getattr(q, 'key', getattr(q, 'idx', q))) for q in p)
            ls.append(c.input(nm, s.shape, s.dtype))
        else:
            ls.append(s)
    return tree_util.tree_unflatten(tree, ls)


def paths(setup, body, maxpaths=64):
    """run body(env, ns) once per path of size decisions"""
    todo = [[]]
    n = 0
    while todo:
        pre = todo.pop()
        n += 1
        if n > maxpaths:
            raise Unsupported('too many paths')
        env = DimEnv()
        ns = setup(env)
        env.start(pre)
        DimEnv.current = env
        interp.CALLS.clear()
        jax.clear_caches()
        try:
            body(env, ns, n)
        finally:
            todo += env.pending
            env.pending = []
            DimEnv.current = None


def verify(ct, use=(), variant=None, only=None, verbose=False, maxpaths=64, sink=None):
    """all obligations of one contract; returns list of Outcome"""
    out = [] if sink is None else sink

    def body(env, d, pn):
        tag = f'{"" if variant is None else "[" + str(variant) + "]"}' + (f'#path{pn}' if pn > 1 else '')
        with patched(use, skip=ct.fname):
            c = Ctx(env)
            Ctx.current = c
            args = ct.args(d, variant)
            arrs = {k: mkinputs(c, v, k) for k, v in args.items()}
            A = NS(**arrs)
            ct.orig = ct.harness(ct.resolve())
            for it in ct.requires(c, A):
                it.assume(c)
            nreq = len(c.facts)
            c.loop_handlers.append(lambda c_, L: ct.loop(c_, L, A))
            flat_s, _ = tree_util.tree_flatten(((), dict(args)), is_leaf=_isspec)
            flat_a, _ = tree_util.tree_flatten(((), arrs), is_leaf=lambda x: x is None or isinstance(x, Arr))
            inputs = [a for s, a in zip(flat_s, flat_a) if isinstance(s, Spec)]
            pos, kws = split_args(ct.orig, args)
            _, o = symexec(c, ct.orig, pos, kws, inputs=reorder(inputs, args, pos, kws))
            if ct.drop_calls:
                c.oblig = []
            run_obligations(ct.name + tag, c, out, verbose)
            items = ct.ensures(c, A, o)
            for it in items:
                if only and it.label not in only:
                    continue
                prove_item(ct.name + tag, c, it, out, verbose)
            for lab, r in c.__dict__.get('lemmas', []):
                out.append(Outcome(ct.name + tag, 'lemma: ' + lab, r))
                if verbose:
                    print(out[-1])
            vac = PV.solve(c.facts + c.__dict__.get('dropped', []), F, tmo=3, quick=True)
            out.append(Outcome(ct.name + tag, 'assumptions are not contradictory',
                               Result('vacuous' if vac.ok else 'proved', 'z3', vac.secs)))
            if verbose:
                print(f'-- {ct.name}{tag}: {len(c.facts)} facts, {len(c.sum_order)} sums, notes {c.notes}')
    paths(lambda E: ct.dims(E, variant), body, maxpaths)
    return out


def run_obligations(fn, c, out, verbose=False):
    obs, c.oblig = c.oblig, []
    for o in obs:
        r = prove(c, o['goal'], o['hyps'], pool=o['pool'], auto=o.get('auto', True))
        out.append(Outcome(fn, o['label'], r))
        if verbose:
            print(out[-1])


def forget(c, ks, n0):
    '''facts about the indices ks of a finished obligation (and about witnesses introduced for them) are of no use to the next'''
    if not ks:
        return
    dead = {str(k) for k in ks}
    known = set()
    for f in c.facts[:n0]:
        known |= PV.syms(f)
    keep, drop = [], []
    for f in c.facts[n0:]:
        s = PV.syms(f)
        if s & dead:
            dead |= {x for x in s - known if '!' in x and x in c.fresh_names}
            drop.append(f)
        else:
            keep.append(f)
        known |= s
    c.facts[n0:] = keep
    c.__dict__.setdefault('dropped', []).extend(drop)


def prove_item(fn, c, it, out, verbose=False):
    n0 = len(c.facts)
    try:
        return _prove_item(fn, c, it, out, verbose)
    finally:
        forget(c, it.__dict__.pop('ks', None), n0)


def _prove_item(fn, c, it, out, verbose=False):
    from .theory import Stuck
    try:
        h, g, ks = it.goal(c)
    except Stuck:
        out.append(Outcome(fn, it.label, Result('unknown', 'an earlier step failed')))
        return out[-1].res
    it.ks = ks
    kw = dict(pool=list(ks) + list(it.pool(*ks) if callable(it.pool) else it.pool), auto=it.auto)
    r = prove(c, g, h, **kw) if it.cases is None else PV.prove_cases(c, g, h, it.cases(*ks), **kw)
    out.append(Outcome(fn, it.label, r))
    if verbose:
        print(out[-1])
        if not r.ok and r.model is not None and verbose == 2:
            print(r.model)
    return r


# ---------------------------------------------------------------- loops

def houdini(c, L, cands, extra=None, tmo=4):
    """largest inductive subset of candidate invariants cands: list of (label, fn(carry list of Arr, k) -> formula).
    Formulas may be over a fresh universal index created by the caller: fn(carry, k, *idx) with Item dims."""
    k = L.k0
    n = L.nz()
    good = []
    init = L.carry(iv(0))
    for it in cands:
        h, g, ks = it(init, iv(0)).goal(c)
        r = prove(c, g, h + [n >= 0], pool=ks, tmo=tmo)
        if r.ok:
            good.append(it)
    while True:
        nf = len(c.facts)
        hyps = [And(k >= 0, k < n)]
        cur = L.carry(k)
        nxt = L.nxt(k)
        qs = len(c.quants)
        for it in good:
            i = it(cur, k)
            if i.dims is None:
                hyps.append(_conj(i.fn() if callable(i.fn) and not z3.is_expr(i.fn) else i.fn))
            else:
                i.assume(c, And(k >= 0, k < n, c_hyp(c)))
        bad = []
        for it in good:
            h, g, ks = it(nxt, Add(k, iv(1))).goal(c)
            r = prove(c, g, hyps + h + [c_hyp(c)], pool=ks, tmo=tmo)
            if not r.ok:
                bad.append(it)
        del c.quants[qs:]
        if not bad:
            break
        good = [x for x in good if x not in bad]
    _dbg(c, L, cands, good)
    return good


def c_hyp(c):
    return T


DEBUG = os.environ.get('DV_DEBUG')


def _dbg(c, L, cands, good):
    if DEBUG:
        print('  loop', L.id, 'carry', [(str(a.shape), str(a.dtype)) for a in L.avals])
        k = L.k0
        for n, it in enumerate(cands):
            i = it(L.carry(k), k)
            f = i.fn if z3.is_expr(i.fn) or i.dims is None and not callable(i.fn) else (i.fn(*[z3.Int('j%d' % q) for q in range(len(i.dims or []))]))
            print('   ', 'KEEP' if it in good else 'drop', n, i.label, str(f).replace('\n', ' ')[:160])


def install_invariants(c, L, good):
    """an invariant proved by induction holds at every k in [0, n]"""
    n = L.nz()
    done = set()

    def at(k):
        if k.get_id() in done:
            return
        done.add(k.get_id())
        for it in good:
            it(L.carry(k), k).assume(c, And(k >= 0, k <= n))
    L.inv_at = at
    at(n)
    at(L.k0)
    L.proved = good

"""The contract of jaxext.autobatch as its callers see it (its own verification: contracts/batch_c.py).

autobatch(f)(args) equals, on each batch [o, o + s) of the batched axis, f applied to the slices of the
arguments on that batch; every index belongs to a batch; all batches have the same size s >= 1."""
import functools
import itertools
from .fw import *
from .fw import Contract, register
from .interp import eval_closed
from jax._src import core
import z3

batch_p = core.Primitive('bz_batch')
batch_p.multiple_results = True
INFO = {}
_ids = itertools.count()


@batch_p.def_abstract_eval
def _abs(*avals, cid):
    return [core.ShapedArray(s, a.dtype, weak_type=a.weak_type) for s, a in INFO[cid].outs]


@prims.rule('bz_batch')
def _rule(ctx, eqn, *ins):
    info = INFO[eqn.params['cid']]
    bs, size = ctx.z(info.bs), ctx.z(info.size)
    start = ctx.func('start', I, I)
    hi = ctx.ivl(size)[1]
    if 1 <= hi < float('inf'):
        ctx.ranges[start.name()] = (0, int(hi) - 1)      # outside of [0, size) the value is irrelevant
    memo = {}

    def inst(i):
        k = i.get_id()
        if k not in memo:
            o = start(i)
            ctx.fact(Implies(And(i >= 0, i < size), And(o >= 0, o <= i, i < o + bs, o + bs <= size)))
            args = []
            for a, ax in zip(ins, info.in_axes):
                if ax is None:
                    args.append(a)
                    continue
                shp = a.shape[:ax] + (info.bs,) + a.shape[ax + 1:]
                args.append(Arr(shp, a.dtype, lambda *idx, a=a, ax=ax: a(*idx[:ax], Add(o, idx[ax]), *idx[ax + 1:]), f'batch of {a.name}'))
            ctx.hyp_stack.append(And(i >= 0, i < size))
            try:
                memo[k] = (i, o, eval_closed(ctx, info.jaxpr, args))
            finally:
                ctx.hyp_stack.pop()
        return memo[k][1:]
    if ctx.raise_obl:
        inst(ctx.fresh('b', n=size))
    outs = []
    for n, (av, ax) in enumerate(zip(eqn.outvars, info.out_axes)):
        def f(*idx, n=n, ax=ax):
            s2, ctx.raise_obl = ctx.raise_obl, False
            try:
                o, res = inst(idx[ax])
                return res[n](*idx[:ax], Sub(idx[ax], o), *idx[ax + 1:])
            finally:
                ctx.raise_obl = s2
        outs.append(prims.aval_arr(av.aval, f, 'batched'))
    return outs


@register
class Autobatch(Contract):
    name = 'jaxext.autobatch#caller'

    def stub(self, orig):
        @functools.wraps(orig)
        def autobatch(func, max_io_nbytes, in_axes=0, out_axes=0, return_nbatches=False):
            if return_nbatches:
                raise Unsupported('number of batches asked by a caller')

            def expand(axes, tree):
                if isinstance(axes, int):
                    return tree_util.tree_map(lambda _: axes, tree)
                return tree_util.tree_map(lambda _, ax: ax, tree, axes)

            @functools.wraps(func)
            def batched(*args):
                leaves, tree = tree_util.tree_flatten(args)
                axes = [ax if ax is None else ax % x.ndim for x, ax in zip(leaves, tree.flatten_up_to(expand(in_axes, args)))]
                env = DimEnv.current
                sizes = [x.shape[ax] for x, ax in zip(leaves, axes) if ax is not None]
                size = sizes[0]
                for s in sizes[1:]:
                    if env.entail(env.z(s) == env.z(size)) is not True:
                        raise Unsupported('different sizes along the batched axes')
                bs = env.var(f'batch{len(env.vars)}', 0)
                zs = env.z(size)
                env.assume += [env.z(bs) <= zs, z3.Implies(zs > 0, env.z(bs) >= 1)]
                env._cache, env._solver = {}, None
                specs = [Spec(x.shape if ax is None else tuple(x.shape[:ax]) + (bs,) + tuple(x.shape[ax + 1:]), x.dtype, core.get_aval(x).weak_type) for x, ax in zip(leaves, axes)]
                st = {}

                def flat(*ls):
                    o = func(*tree_util.tree_unflatten(tree, ls))
                    ls, st['tree'] = tree_util.tree_flatten(o)
                    st['axes'] = st['tree'].flatten_up_to(expand(out_axes, o))
                    return ls
                cj = jax.make_jaxpr(flat)(*specs)
                info = NS(bs=bs, size=size, in_axes=axes, out_axes=[ax % len(a.shape) for ax, a in zip(st['axes'], cj.out_avals)], jaxpr=cj)
                info.outs = []
                for a, ax in zip(cj.out_avals, info.out_axes):
                    if env.entail(env.z(a.shape[ax]) == env.z(bs)) is not True:
                        raise Unsupported('the function does not keep the batched axis')
                    info.outs.append((tuple(a.shape[:ax]) + (size,) + tuple(a.shape[ax + 1:]), a))
                cid = next(_ids)
                INFO[cid] = info
                outs = batch_p.bind(*leaves, cid=cid)
                return tree_util.tree_unflatten(st['tree'], outs)
            return batched
        return autobatch

"""Which callee contracts are used when a function is verified."""
from . import grove_c, sampler_c, moves_c, step_c, accept_c, compose_c, init_c, keys_c, loop_c, types_c, prep_c, trace_c, debug_c, bart_c, batch_c
from dv.ext import DRAWS
ANY = DRAWS + ['jnp.searchsorted']
USE = {
    'mcmcstep.randint_masked': ANY,
    'mcmcstep.categorical': ANY,
    'mcmcstep.randint_exclude': ANY,
    'mcmcstep.fully_used_variables': ['mcmcstep.ancestor_variables', 'mcmcstep.split_range'],
    'mcmcstep.choose_variable': ['mcmcstep.fully_used_variables', 'mcmcstep.randint_exclude'] + ANY,
    'mcmcstep.choose_split': ['mcmcstep.split_range'] + ANY,
    'mcmcstep.growable_leaves': ['grove.is_actual_leaf'],
    'mcmcstep.choose_leaf': ['mcmcstep.growable_leaves', 'mcmcstep.categorical', 'grove.is_leaves_parent'] + ANY,
    'mcmcstep.choose_leaf_parent': ['mcmcstep.growable_leaves', 'mcmcstep.randint_masked', 'grove.is_leaves_parent'] + ANY,
    'mcmcstep.compute_partial_ratio': ['grove.tree_depths'],
    'mcmcstep.grow_move': ['mcmcstep.choose_leaf', 'mcmcstep.choose_variable', 'mcmcstep.choose_split', 'mcmcstep.compute_partial_ratio', 'grove.tree_depths'] + ANY,
    'mcmcstep.prune_move': ['mcmcstep.choose_leaf_parent', 'mcmcstep.compute_partial_ratio', 'grove.tree_depths'] + ANY,
    'mcmcstep.sample_moves': ['mcmcstep.grow_move', 'mcmcstep.prune_move', 'grove.tree_depths'] + ANY,
    'mcmcstep.accept_move_and_sample_leaves': ['mcmcstep.sum_resid'],
    'mcmcstep.accept_moves_and_sample_leaves': ['mcmcstep.accept_move_and_sample_leaves', 'mcmcstep.count_datapoints_per_leaf'] + ANY,
    'mcmcstep.sample_trees': ['mcmcstep.sample_moves', 'mcmcstep.accept_moves_and_sample_leaves#step', 'grove.tree_depths'] + ANY,
    'mcmcstep.step': ['mcmcstep.sample_moves', 'mcmcstep.accept_moves_and_sample_leaves#step', 'grove.tree_depths'] + ANY,
    'mcmcstep.step#C26': ANY + ['grove.tree_depths'],
    'mcmcloop.run_mcmc': ['mcmcstep.step#opaque'],
    'mcmcstep.init': ['grove.tree_depths', 'mcmcstep._choose_suffstat_batch_size'],
    'prepcovars.bin_predictors': ['jaxext.autobatch#caller'] + ANY,
    'prepcovars.quantilized_splits_from_matrix': ['jaxext.autobatch#caller', 'jaxext.unique', 'jnp.linspace'] + ANY,
    'prepcovars.uniform_splits_from_matrix': ['jnp.linspace'],
    'mcmcloop.evaluate_trace': ['jaxext.autobatch#caller', 'grove.evaluate_forest'],
    'debug.tree_actual_depth': ['grove.is_actual_leaf', 'grove.tree_depths'],
    'debug.forest_depth_distr': ['debug.tree_actual_depth'],
    'jaxext.autobatch': [],
    'BART.gbart': bart_c.OPAQUE,
    'BART.gbart#affine': bart_c.OPAQUE,
    'grove.traverse_forest': ['grove.traverse_tree'],
    'grove.evaluate_forest': ['grove.traverse_forest'],
}
from dv.fw import Outcome, Result


def exec_tree_depths():
    """bounded: real execution for every length 2**d, d <= 16"""
    from bartz import grove
    import numpy as np
    out = []
    for d in range(0, 17):
        L = 2 ** d
        g = np.asarray(grove.tree_depths(L), int)
        ok = g.shape == (L,) and all(int(v) == max(0, i.bit_length() - 1) for i, v in enumerate(g))
        out.append(Outcome('grove.tree_depths (bounded)', f'length 2**{d}', Result('proved' if ok else 'refuted', 'execution')))
    return out


def exec_batch_size():
    """bounded: real execution for 0 <= n <= 5000 on both platforms"""
    from bartz import mcmcstep
    import types
    out = []
    f = getattr(mcmcstep, '_choose_suffstat_batch_size', None)
    if f is None:
        return [Outcome('mcmcstep._choose_suffstat_batch_size (bounded)', 'absent', Result('proved', 'execution'))]
    ok = lambda x: x is None or isinstance(x, int) and x >= 1
    for plat in ('cpu', 'gpu'):
        good = True
        for n in range(5001):
            y = types.SimpleNamespace(size=n, devices=lambda: [types.SimpleNamespace(platform=plat)])
            r = f('auto', 'auto', y, 200 * 64)
            good = good and len(r) == 2 and all(map(ok, r)) and f(3, None, y, 100) == (3, None) and f(None, 7, y, 100) == (None, 7)
        out.append(Outcome('mcmcstep._choose_suffstat_batch_size (bounded)', f'batch sizes are positive or None, given ones are kept ({plat})', Result('proved' if good else 'refuted', 'execution')))
    return out


def exec_signed_to_unsigned():
    """all integer types (a finite domain), by execution; and the 64-bit types of numpy arrays"""
    from bartz import jaxext
    import numpy as np
    out = []
    for w in (8, 16, 32, 64):
        for k in ('int', 'uint'):
            dt = np.dtype(f'{k}{w}')
            for form in (dt, dt.type):
                r = jaxext.signed_to_unsigned(form)
                out.append(Outcome('jaxext.signed_to_unsigned', f'{k}{w} is mapped to uint{w} ({type(form).__name__})', Result('proved' if np.dtype(r) == np.dtype(f'uint{w}') else 'refuted', 'execution')))
            h = jaxext.huge_value(np.zeros(3, dt))
            out.append(Outcome('jaxext.huge_value', f'largest value of {k}{w} arrays of numpy', Result('proved' if int(h) == int(np.iinfo(dt).max) else 'refuted', 'execution')))
    return out


def exec_describe_error():
    """all error codes (a finite domain), by execution"""
    from bartz import debug
    names = [f.__name__ for f in debug.check_functions]
    out = [Outcome('debug.describe_error', 'the five conditions are reported', Result('proved' if sorted(names) == sorted(debug_c.NAMES) else 'refuted', 'execution'))]
    for e in range(2 ** len(names)):
        ok = list(debug.describe_error(e)) == [n for i, n in enumerate(names) if e >> i & 1]
        out.append(Outcome('debug.describe_error', f'code {e}', Result('proved' if ok else 'refuted', 'execution')))
    return out


EXECS = {'signed_to_unsigned': exec_signed_to_unsigned, 'batch_size': exec_batch_size, 'tree_depths': exec_tree_depths,
         'describe_error': exec_describe_error}
LEMMAS = {}

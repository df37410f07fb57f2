"""Per property: the units (contracts / lemmas) it rests on.  Plain data, no imports."""
TRUSTED = ['z3 4.x / cvc5 1.1.2', 'the JAX tracer (jaxpr extraction with symbolic dimensions) and XLA lowering of each primitive',
           'semantics of JAX primitives in dv/prims.py', 'schematic lemmas on finite sums, powers of two and heap recursion in dv/prove.py and dv/theory.py',
           'contracts of jax.random.{randint,uniform,normal,gamma}, jnp.searchsorted, lax.sort in dv/ext.py and dv/prims.py']
ASSUME = ['floating point is read as exact real arithmetic', 'array sizes below 2**24', '32-bit mode (jax_enable_x64 off)']
SMALL = ['mcmcstep.split_range', 'mcmcstep.ancestor_variables', 'mcmcstep.fully_used_variables', 'mcmcstep.choose_variable', 'mcmcstep.choose_split',
         'mcmcstep.choose_leaf', 'mcmcstep.choose_leaf_parent', 'mcmcstep.growable_leaves', 'mcmcstep.randint_masked', 'mcmcstep.categorical', 'grove.is_actual_leaf', 'grove.is_leaves_parent']
# proposals: the functions behind sample_moves; the remaining integer types of the larger ones are in the checks of C10, C11, C17 and C23
MOVES = ['mcmcstep.sample_moves@0', 'mcmcstep.sample_moves@7', 'mcmcstep.grow_move@0', 'mcmcstep.grow_move@7', 'mcmcstep.prune_move@0', 'mcmcstep.prune_move@7', 'mcmcstep.randint_exclude@0'] + SMALL
STAGE = 'mcmcstep.accept_moves_and_sample_leaves'


def stage(view, n):
    return [f'{STAGE}#{view}@{k}' for k in range(n)]


ONE = [f'mcmcstep.accept_move_and_sample_leaves@{k}' for k in range(6)]
STEP = ['mcmcstep.step@0', 'mcmcstep.step@1', 'mcmcstep.step@2', 'mcmcstep.step@3', f'{STAGE}#frame']
CNT = ['mcmcstep.count_datapoints_per_leaf']
RES = ['mcmcstep.sum_resid']
INIT = [f'mcmcstep.init@{k}' for k in range(4)] + ['exec:batch_size']
CUT = ['cutpoint indices are below 2**31 - 1']
AUTO = ['contract of jaxext.autobatch towards its callers (decided by the check of C08)']
PROPS = {
    'C01': dict(units=['grove.traverse_tree', 'grove.traverse_forest']),
    'C02': dict(units=['grove.traverse_tree', 'grove.traverse_forest', 'grove.evaluate_forest@0', 'grove.evaluate_forest@1', 'grove.evaluate_forest@2', 'grove.evaluate_forest@3', 'mcmcloop.evaluate_trace'], assume=AUTO),
    'C03': dict(units=['grove.is_actual_leaf', 'grove.is_leaves_parent', 'grove.make_tree', 'grove.tree_depth', 'exec:tree_depths'],
                bounded=['grove.tree_depths (pure Python loop building a table): executed for every length 2**d, d <= 16']),
    'C04': dict(units=['prepcovars.bin_predictors'], assume=AUTO),
    'C05': dict(units=[f'prepcovars.quantilized_splits_from_matrix@{k}' for k in range(12)] + [f'jaxext.unique@{k}' for k in range(3)], assume=AUTO + ['finite predictors of magnitude below a quarter of the largest float']),
    'C06': dict(units=['prepcovars.uniform_splits_from_matrix'], assume=['contract of jnp.linspace (evenly spaced grid) in dv/ext.py']),
    'C07': dict(units=[f'jaxext.unique@{k}' for k in range(3)]),
    'C09': dict(units=['jaxext.minimal_unsigned_dtype', 'jaxext.huge_value', 'jaxext.ensure_unsigned', 'exec:signed_to_unsigned'],
                note='Values up to 2**64 - 1, arrays of every shape; the map between types has a finite domain and is executed on all of it.'),
    'C10': dict(units=[f'mcmcstep.sample_moves@{k}' for k in range(8)] + [f'mcmcstep.grow_move@{k}' for k in range(8)] + ['mcmcstep.split_range', 'mcmcstep.ancestor_variables', 'mcmcstep.fully_used_variables', 'mcmcstep.choose_variable', 'mcmcstep.choose_split', 'mcmcstep.choose_leaf'] + [f'mcmcstep.randint_exclude@{k}' for k in range(4)],
                assume=['cutpoint indices are below 2**31 - 1']),
    'C11': dict(units=[f'mcmcstep.sample_moves@{k}' for k in range(8)] + ['mcmcstep.grow_move', 'mcmcstep.prune_move', 'mcmcstep.choose_leaf', 'mcmcstep.choose_leaf_parent', 'mcmcstep.growable_leaves', 'mcmcstep.randint_masked', 'mcmcstep.categorical', 'grove.is_actual_leaf', 'grove.is_leaves_parent'],
                assume=['cutpoint indices are below 2**31 - 1']),
    'C22': dict(units=['mcmcloop.run_mcmc@0', 'mcmcloop.run_mcmc@1'], assume=['at most 2**20 burn-in and saved iterations, n_skip between 1 and 2**9']),
    'C26': dict(units=[f'mcmcstep.step#C26@{k}' for k in range(4)] + ['mcmcloop.run_mcmc@0', 'mcmcloop.run_mcmc@1'],
                assume=['distinct terms of the key algebra are distinct keys (no collisions of the random number generator)', 'at most 2**20 burn-in and saved iterations, n_skip between 1 and 2**9']),
    'C23': dict(units=['mcmcstep.randint_masked', 'mcmcstep.categorical'] + [f'mcmcstep.randint_exclude@{k}' for k in range(4)]),
    'C12': dict(units=stage('C12', 4) + STEP + ONE + MOVES, assume=CUT),
    'C13': dict(units=stage('C13', 4) + STEP + ONE + MOVES + INIT, assume=CUT),
    'C14': dict(units=stage('C14', 3) + STEP + ONE + CNT + MOVES + INIT, assume=CUT),
    'C15': dict(units=stage('C15', 4) + STEP + ONE + RES + MOVES + INIT, assume=CUT),
    'C16': dict(units=stage('C16', 4) + stage('C16b', 3) + STEP + ONE + CNT + RES, assume=CUT),
    'C17': dict(units=stage('C17', 2) + stage('C14', 3) + STEP + ONE + CNT + ['mcmcstep.compute_partial_ratio'] + [f'mcmcstep.{f}@{k}' for f in ('sample_moves', 'grow_move', 'prune_move') for k in (0, 3, 7)] + SMALL, assume=CUT),
    'C18': dict(units=stage('C18', 2) + ONE + CNT + RES, assume=CUT),
    'C19': dict(units=stage('C19', 2) + ONE + CNT + RES, assume=CUT),
    'C20': dict(units=[f'mcmcstep.step#C20@{k}' for k in range(4)] + [f'{STAGE}#frame']),
    'C21': dict(units=[f'mcmcstep.{f}@{k}' for f in ('count_datapoints_per_leaf', 'sum_resid') for k in range(6)]),
    'C25': dict(units=INIT, assume=CUT, bounded=['mcmcstep._choose_suffstat_batch_size (pure Python): executed for 0 <= n <= 5000 on both platforms']),
    'C08': dict(units=[f'jaxext.autobatch@{k}' for k in range(8)], depths=(),
                assume=['the integer part of math.sqrt(n) is exact for sizes below 2**24', 'the batched function is lane-wise and computes what it computes (an uninterpreted function per output element)'],
                note='The whole body of autobatch runs on symbolic sizes; loops over candidate divisors are read as one arbitrary iteration (their bodies share no state, which is checked on the source). '
                     'Four patterns of axes and pytrees, with any sizes and byte bounds.'),
    'C24': dict(units=[f'BART.gbart@{k}' for k in range(6)] + [f'BART.gbart#affine@{k}' for k in range(4)], depths=(),
                assume=['jnp.linalg.lstsq: residual >= 0 and rank; with the same matrix, a right-hand side times a gives the residual times a**2 and the same rank', 'gammainccinv > 0 (scipy)',
                        'the sampler, the binning of predictors and evaluate_trace are unknown functions here (their contracts are in the other checks); the sampler leaves the predictors as they are'],
                note='The constructor, predict and the lazily computed predictions run as they are on symbolic data; floats are read as exact reals.'),
    'C28': dict(units=['debug.check_tree', 'debug.check_forest', 'debug.check_trace', 'debug.tree_actual_depth', 'debug.forest_depth_distr', 'grove.is_actual_leaf', 'exec:tree_depths', 'exec:describe_error'],
                bounded=['grove.tree_depths (pure Python loop building a table): executed for every length 2**d, d <= 16'],
                note='describe_error has a finite domain (32 codes) and is executed on all of it.'),
    'C27': dict(units=stage('C27', 4) + STEP + ONE, assume=CUT),
}

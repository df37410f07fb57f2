"""Contract of bartz.mcmcloop.evaluate_trace."""
from dv.fw import *
from dv.fw import Contract, Item, register
from dv.theory import *
from .grove_c import tree_dims, DTS


@register
class EvaluateTrace(Contract):
    name = 'mcmcloop.evaluate_trace'

    def variants(self):
        return DTS[:2]

    def dims(self, E, v):
        D, H = tree_dims(E)
        return NS(D=D, H=H, p=E.var('p', 1), n=E.var('n', 1), T=E.var('T', 1, 2 ** 20), K=E.var('K', 1, 2 ** 20))

    def args(self, d, v):
        return dict(trace=dict(leaf_trees=Spec((d.K, d.T, 2 * d.H), 'float32'), var_trees=Spec((d.K, d.T, d.H), v[1]), split_trees=Spec((d.K, d.T, d.H), v[2]),
                               sigma2=Spec((d.K,), 'float32')), X=Spec((d.p, d.n), v[0]))

    def requires(self, c, A):
        p = c.z(A.X.shape[0])
        t = A.trace
        return [Item('axes of decision nodes are valid', lambda k, t_, i: Implies(t['split_trees'](k, t_, i) != 0, t['var_trees'](k, t_, i) < p), trig=t['var_trees'])]

    def ensures(self, c, A, out):
        t = A.trace
        H = c.z(t['split_trees'].shape[2])
        rt = Routes(c, 3, lambda k, u, i: (lambda v: A.X(v, i), lambda m: t['var_trees'](k, u, m), lambda m: t['split_trees'](k, u, m), H))
        K, T_, n = t['split_trees'].shape[0], t['split_trees'].shape[1], A.X.shape[1]
        return [Item('row k is the sum over the trees of iteration k of the reached leaf values',
                     lambda k, i: out(k, i) == c.sum(T_, lambda u: t['leaf_trees'](k, u, rt(k, u, i)), R), dims=(K, n)),
                Item('shape', lambda: bv(tuple(map(str, out.shape)) == (str(K), str(n))))]

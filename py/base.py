"""Common parts of the Python-layer entries: every entry builds objects of the repository's package,
runs their methods on symbolic contents and compares with an independent specification."""
import numpy as np, itertools
import pysym as S
from pysym import Env, D, T, U, fun, fsqrt, lift, val, grads, vmap, cut, Violation, Inconclusive
CASES = []
def entry(prop, *quick, thorough=()):
    """registers a function (env, nn, **params) once per parameter dictionary"""
    def deco(f):
        for tier, ps in (("quick", quick or ({},)), ("thorough", thorough)):
            for p in ps:
                CASES.append((prop, f.__name__[2:], f, p, tier))
        return f
    return deco
def grid(**k):
    """all combinations of parameter values"""
    ks = list(k); return [dict(zip(ks, v)) for v in itertools.product(*k.values())]
class Tag:
    n = 0
def tensor(env, nn, dt, shape, tile, name=None, distr=None):
    """a tensor with the given tiling, arbitrary contents if named"""
    tr = nn.tensor.TensorTraits(shape, tile); t = getattr(nn.tensor, "Tensor_" + dt)(tr, [0] * tr.grid.nelems if distr is None else distr, Tag.n); Tag.n = t.next_tag
    if name: env.fill(t, name)
    return t
def moments(env, nn, dt, shape, tile, name, grad=True, required=True):
    v = tensor(env, nn, dt, shape, tile, name); g = tensor(env, nn, dt, shape, tile, name + "g") if grad else None
    return nn.tensor.TensorMoments(v, g, required)
def fillg(env, t, name): return env.fill(t, name)
def old(t): return t.data.copy()
def arr(*shape): return np.empty(shape, object)
def check_grads(env, pairs, spec):
    """spec: list of (name, tensor, content before, adjoint)"""
    for name, t, before, adj in spec: env.eq(name, t, before + adj)

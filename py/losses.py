from base import *
from layers import combos
LSH = [dict(shape=(2,), tile=(2,)), dict(shape=(3, 2), tile=(3, 1)), dict(shape=(3, 3), tile=(3, 2)), dict(shape=(2, 2, 2), tile=(2, 2, 1)), dict(shape=(2, 1, 3), tile=(2, 1, 2)), dict(shape=(1, 2), tile=(1, 2))]
LABELS = {"spread": lambda i, n, V: i % V, "rev": lambda i, n, V: (V - 1 - i) % V, "last": lambda i, n, V: V - 1, "first": lambda i, n, V: 0}
def labelled(env, t, kind, V):
    n = int(np.prod(t.shape, dtype=int)); a = np.empty(tuple(t.shape), object)
    for k, i in enumerate(np.ndindex(*t.shape)): a[i] = LABELS[kind](k, n, V)
    return a
def ce_spec(dx, lab, scale):
    r = 0
    for i in np.ndindex(*lab.shape):
        Z = dx[(slice(None),) + i]; s = 0
        for z in Z: s = s + fun("exp", z)
        r = r + scale * (fun("log", s) - Z[lab[i]])
    return r
@entry("C26", *combos(LSH, grid(dt=["fp32", "fp64"], redux=[False, True], scale=["sym", "default"], labels=["spread", "rev", "last"])))
def e_cross_entropy(env, nn, shape, tile, dt, redux, scale, labels):
    x = moments(env, nn, dt, shape, tile, "x"); sc = env.var("scale") if scale == "sym" else None
    loss, tag = nn.loss.CrossEntropy.generate_simple(x, Tag.n, redux=redux, **({} if sc is None else dict(scale=sc))); sc = 1 if sc is None else sc
    env.check("labels shape", loss.y.shape == list(shape[1:])); lab = labelled(env, loss.y, labels, shape[0]); loss.y.data = lab.copy()
    X = old(x.value); v0 = env.fill(loss.val, "val")[()]; tot = v0
    for k in range(3):       # the value accumulates over calls, the gradient does not; new logits and labels each time
        dx = lift(X); r = ce_spec(dx, lab, sc); loss.calc_async(); tot = tot + r.v
        env.eq("value after call %d" % (k + 1), loss.val, S._sc(tot)); env.eq("gradient of call %d" % (k + 1), x.grad, grads([(S._sc(r), S._sc(env.num(1)))], [dx])[0])
        env.eq("logits", x.value, X); env.check("labels unchanged", (loss.y.data == lab).all())
        out = np.zeros((1,), object); loss.get_val(out); env.eq("get_val", out, np.array([tot], object))
        X = env.fill(x.value, "x%d" % k); lab = labelled(env, loss.y, ["rev", "spread", "first"][k], shape[0]); loss.y.data = lab.copy()
@entry("C26", *combos(LSH[:4], grid(dt=["fp32", "fp64"], redux=[False, True], nograd=[False, True])))
def e_cross_entropy_value_only(env, nn, shape, tile, dt, redux, nograd):
    """the gradient is not required: not touched, and may be absent"""
    x = moments(env, nn, dt, shape, tile, "x", not nograd, False); g0 = None if nograd else old(x.grad); sc = env.var("scale")
    loss, tag = nn.loss.CrossEntropy.generate_simple(x, Tag.n, redux=redux, scale=sc); lab = labelled(env, loss.y, "spread", shape[0]); loss.y.data = lab.copy(); v0 = env.fill(loss.val, "val")[()]
    X = old(x.value); r = ce_spec(X, lab, sc); loss.calc_async(); env.eq("value", loss.val, S._sc(v0 + r)); env.eq("logits", x.value, X)
    if not nograd: env.eq("gradient that is not required", x.grad, g0)
FSH = [dict(shape=(), tile=()), dict(shape=(3,), tile=(2,)), dict(shape=(2, 3), tile=(1, 2)), dict(shape=(2, 2, 3), tile=(2, 1, 2)), dict(shape=(1,), tile=(1,))]
@entry("C26", *combos(FSH, grid(dt=["fp32", "fp64"], req=[True, False])))
def e_frob(env, nn, shape, tile, dt, req):
    x = moments(env, nn, dt, shape, tile, "x", True, req); loss, tag = nn.loss.Frob.generate_simple(x, Tag.n)
    X = old(x.value)
    for k in range(2):
        Y = env.fill(loss.y, "y%d" % k); dx = lift(X); r = 0
        for i in np.ndindex(*shape): d = dx[i] - Y[i]; r = r + d * d * (1 / env.num(2))
        loss.calc_async(); env.eq("value", loss.val, S._sc(r.v)); env.eq("gradient", x.grad, grads([(S._sc(r), S._sc(env.num(1)))], [dx])[0])
        env.eq("input", x.value, X); env.eq("target", loss.y, Y); X = env.fill(x.value, "x%d" % k)

from base import *
from layers import lin_spec, combos
from models import cutn, adjcut, wrap_layers, gpt_config, gpt2_spec, make_ids
from losses import ce_spec, labelled
class Recorder:
    """an optimizer that notes what it is given and then moves the parameters to arbitrary new values"""
    def __init__(s, env, model): s.env, s.model, s.seen = env, model, []
    def step(s):
        s.seen.append([(p.value.data.copy(), p.grad.data.copy()) for p in s.model.parameters])
        for i, p in enumerate(s.model.parameters):
            s.env.fill(p.value, "w%d_%d" % (len(s.seen), i))
            if len(s.seen) % 2: s.env.fill(p.grad, "junk%d_%d" % (len(s.seen), i))   # optimizers may change or invalidate the gradients they have used
def training(env, nn, model, loss, xs, ys, epochs, forward, loss_spec, lastonly=None):
    """xs, ys: [batch][minibatch] tensors; forward(parameters, input) -> output; loss_spec(output, target) -> value"""
    wrap_layers(nn, model.layers); start = [(env.fill(p.value, "w0_%d" % i), env.fill(p.grad, "g0_%d" % i)) for i, p in enumerate(model.parameters)]
    for a in model.activations[1:]:
        if a.value.dtype not in ("int64", "bool"): env.fill(a.value, "av%d" % a.value.tag)
    opt = Recorder(env, model); pl = nn.pipeline.Pipeline(xs, ys, model, opt, loss, epochs); X = [[t.data.copy() for t in b] for b in xs]; Y = [[t.data.copy() for t in b] for b in ys]
    pl.train_async()
    env.check("one optimizer step per batch and epoch", len(opt.seen) == epochs * len(xs)); env.check("one recorded loss per batch and epoch", len(pl.loss_hist) == epochs * len(xs))
    for k, rec in enumerate(opt.seen):
        b = k % len(xs); dp = [lift(v) for v, _ in rec]; tot = 0; add = [0 for _ in rec]
        for x, y in zip(X[b], Y[b]):
            r = loss_spec(forward(dp, x), y); tot, last = tot + r.v, r.v
            for i, a in enumerate(grads([(S._sc(r), S._sc(env.num(1)))], dp)): add[i] = add[i] + a
        for i, a in enumerate(add): env.eq("step %d: gradient of parameter %d" % (k + 1, i), rec[i][1], a)
        if k == 0:
            for i, (v, _) in enumerate(start): env.eq("parameter %d before the first step" % i, rec[i][0], v)
        env.eq("recorded loss of step %d" % (k + 1), np.array([pl.loss_hist[k]], object), np.array([tot], object), known=lastonly and len(X[b]) > 1 and ("is that of the last minibatch", np.array([last], object)) or None, rest=lastonly == "rest")
    for i, p in enumerate(model.parameters): env.check("parameters changed only by the optimizer", all(a == b for a, b in zip(p.value.data.reshape(-1), np.array([env_last(env, len(opt.seen), i, p)], object).reshape(-1))))
    for bs, cs in ((xs, X), (ys, Y)):
        for b, c in zip(bs, cs):
            for t, v in zip(b, c): env.check("data unchanged", all(p is q or p == q for p, q in zip(t.data.reshape(-1), v.reshape(-1))))
def env_last(env, n, i, p):
    if not env.sym: return p.value.data
    a = np.empty(p.value.data.shape, object)
    for k in np.ndindex(*a.shape): a[k] = T(S.L.t_cut(("w%d_%d" % (n, i) + "_" + "_".join(map(str, k))).encode(), 0))
    return a
def mb(env, nn, dt, shape, tile, n, name): return [[tensor(env, nn, dt, shape, tile, name and "%s%d_%d" % (name, b, m)) for m in range(k)] for b, k in enumerate(n)]
BATCHES = [dict(n=(1,), epochs=1), dict(n=(2,), epochs=2), dict(n=(2, 1), epochs=1), dict(n=(1, 2), epochs=2), dict(n=(3, 1), epochs=1), dict(n=(), epochs=1)]
def ce_like(scale): return lambda out, y: ce_spec(out, y, scale)
@entry("C29", *combos(grid(model=["linear", "relu"], nl=[2, 3], redux=[False, True]), BATCHES), thorough=combos(grid(model=["linear", "relu"], nl=[3], redux=[False]), [dict(n=(3, 3), epochs=3), dict(n=(1, 4, 2), epochs=2)]))
def e_train_cross_entropy(env, nn, model, nl, redux, n, epochs):
    x = moments(env, nn, "fp32", (2, 2), (2, 1), "x", False, False)
    m = nn.model.DeepLinear(x, "R", 1, 2, 2, nl, Tag.n) if model == "linear" else nn.model.DeepReLU(x, "R", 1, 2, 2, nl, 3, Tag.n, False)
    y = m.activations[-1]; C = y.value.shape[0]; Tag.n = 1000; sc = env.var("scale", 1)
    loss, tag = nn.loss.CrossEntropy.generate_simple(y, Tag.n, redux=redux, scale=sc); Tag.n = tag
    env.fill(loss.val, "junkval"); xs = mb(env, nn, "fp32", (2, 2), (2, 1), n, "d"); ys = mb(env, nn, "int64", (2,), (1,), n, None) if n else []
    for b, l in enumerate(ys):
        for k, t in enumerate(l): t.data = labelled(env, t, ["spread", "rev", "last", "first"][(b + k) % 4], C)
    def fw(p, x):
        a = lift(x); st = len(p) // nl
        for i in range(nl):
            a = cutn(lin_spec(a, p[st * i], "R", False, 1, p[st * i + 1] if st == 2 else None))
            if model == "relu" and i < nl - 1: a = cutn(vmap(lambda v: fun("pos", v), a))
        return a
    training(env, nn, m, loss, xs, ys, epochs, fw, ce_like(sc))
@entry("C29", *combos(grid(model=["linear", "relu"], nl=[2], side=["L", "R"], lastonly=["report", "rest"]), BATCHES))
def e_train_frob(env, nn, model, nl, side, lastonly, n, epochs):
    x = moments(env, nn, "fp32", (2, 2), (1, 2), "x"); m = nn.model.DeepLinear(x, side, 1, 2, 1, nl, Tag.n) if model == "linear" else nn.model.DeepReLU(x, side, 1, 2, 1, nl, 3, Tag.n, False); y = m.activations[-1]; Tag.n = 1000
    loss, tag = nn.loss.Frob.generate_simple(y, Tag.n); Tag.n = tag; xs = mb(env, nn, "fp32", (2, 2), (1, 2), n, "d"); ys = mb(env, nn, "fp32", tuple(y.value.shape), tuple(y.value.basetile_shape), n, "t")
    def fw(p, x):
        a = lift(x); st = len(p) // nl
        for i in range(nl):
            a = cutn(lin_spec(a, p[st * i], side, False, 1, p[st * i + 1] if st == 2 else None))
            if model == "relu" and i < nl - 1: a = cutn(vmap(lambda v: fun("pos", v), a))
        return a
    def ls(out, t):
        r = 0
        for i in np.ndindex(*t.shape): d = out[i] - t[i]; r = r + d * d * (1 / env.num(2))
        return r
    training(env, nn, m, loss, xs, ys, epochs, fw, ls, lastonly)
@entry("C29", *combos(grid(redux=[False, True], flash=[False, True]), [dict(n=(2,), epochs=1), dict(n=(1, 2), epochs=1)]))
def e_train_gpt2(env, nn, redux, flash, n, epochs):
    ids, pos = make_ids(env, nn, 2, 1, 2, 3); TM = nn.tensor.TensorMoments; x = TM(ids, None, False)
    m = nn.model.GPT2Model(x, TM(pos, None, False), gpt_config(nn, redux, flash, "relu", 1, 1, vocab=3, seq=2), Tag.n); Tag.n = 5000; y = m.activations[-1]; sc = env.var("scale", 1)
    loss, tag = nn.loss.CrossEntropy.generate_simple(y, Tag.n, redux=redux, scale=sc); Tag.n = tag; env.fill(loss.val, "junkval")
    xs = mb(env, nn, "int64", (2, 1), (2, 1), n, None); ys = mb(env, nn, "int64", (2, 1), (2, 1), n, None)
    for b, (l, q) in enumerate(zip(xs, ys)):
        for k, (t, u) in enumerate(zip(l, q)): t.data = np.array([[(b + k) % 3], [(2 * b + k + 1) % 3]], object); u.data = np.array([[(b + 2 * k) % 3], [(k + 2) % 3]], object)
    training(env, nn, m, loss, xs, ys, epochs, lambda p, i: gpt2_spec(p, i, pos.data, 1, 1, "relu", 1e-5), ce_like(sc))

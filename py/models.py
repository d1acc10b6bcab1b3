from base import *
from layers import lin_spec, ln_spec, att_run, MASKS, combos
def cutn(a):
    """abstracts the values of a layer output, and its adjoints, by fresh variables shared with the code"""
    r = vmap(cut, a)
    for x in r.reshape(-1): x.cutadj = True
    return r
def adjcut(a):
    for x in a.reshape(-1): x.cutadj = True
    return a
def sublayers(l, BaseLayer):
    return [v for v in vars(l).values() if isinstance(v, BaseLayer)]
def wrap_layers(nn, layers, seen=None):
    """cuts the contents of every layer output after its forward pass and of its gradient before its backward pass"""
    BL = nn.layer.BaseLayer; seen = set() if seen is None else seen
    for l in layers:
        if id(l) in seen: continue
        seen.add(id(l)); wrap_layers(nn, sublayers(l, BL), seen)
        def fw(l=l, f=l.forward_async):
            f()
            for t in l.activations_output: docut(t.value)
        def bw(l=l, f=l.backward_async):
            for t in l.activations_output: docut(t.grad)
            f()
        l.forward_async, l.backward_async = fw, bw
def docut(t):
    if t is not None and S.ENV.sym and t.data.size: t.data = vmap(lambda v: cut(v) if isinstance(v, T) else v, t.data)
def params(env, model):
    """arbitrary contents for all parameters; returns [(tensor moments, value, gradient before, lifted value)]"""
    out = []
    for k, p in enumerate(model.parameters): out.append((p, env.fill(p.value, "p%d" % k), env.fill(p.grad, "p%dg" % k)))
    return [(p, v, g, lift(v)) for p, v, g in out]
def check_model(env, nn, model, spec, xs=()):
    """spec: function(list of lifted parameters, lifted inputs) -> lifted output"""
    ls = [p for l in model.layers for p in l.parameters]
    env.check("model parameters are the parameters of its layers", [id(p) for p in model.parameters] == [id(p) for p in ls] and len(set(map(id, ls))) == len(ls))
    wrap_layers(nn, model.layers); P = params(env, model)
    X = [old(x.value) for x in xs]; dx = [lift(v) for v in X]
    out = spec([p[3] for p in P], dx)
    for k in range(2):   # a second pass over the same model must not see anything of the first
        model.clear_activations_grads(); X0 = [old(x.grad) if x.grad is not None else None for x in xs]
        if k == 0: model.forward_async(); env.eq("output", model.activations[-1].value, val(out)); G = env.fill(model.activations[-1].grad, "yg")
        else: model.forward_async(); env.eq("output of the second pass", model.activations[-1].value, val(out)); model.activations[-1].grad.data = G.copy()
        model.backward_async()
        r = grads([(out, G)], [p[3] for p in P] + dx)
        for i, ((p, v, g, _), a) in enumerate(zip(P, r)): env.eq("parameter %d grad" % i, p.grad, g + a + (a if k else 0)); env.eq("parameter %d" % i, p.value, v)
        for x, x0, a in zip(xs, X0, r[len(P):]):
            if x0 is not None and x.grad_required: env.eq("input grad", x.grad, x0 + a)
DL = [dict(side="R", shape=(2, 2), tile=(1, 2), ndim=1), dict(side="L", shape=(2, 3), tile=(2, 2), ndim=1), dict(side="R", shape=(2, 1, 2), tile=(2, 1, 1), ndim=2), dict(side="L", shape=(2, 1, 2), tile=(1, 1, 1), ndim=2)]
@entry("C25", *combos(DL[:2], grid(nl=[2, 3], xg=[False, True])))  # several contracted dimensions would need a multi-dimensional bias in the last layer, which Linear refuses
def e_deep_linear(env, nn, side, shape, tile, ndim, nl, xg):
    x = moments(env, nn, "fp32", shape, tile, "x", xg, xg); m = nn.model.DeepLinear(x, side, ndim, 3, 2, nl, Tag.n)
    def spec(p, dx):
        a = dx[0] if dx else lift(x.value.data)
        for i in range(nl): a = cutn(lin_spec(a, p[2 * i], side, False, ndim if i == 0 else 1, p[2 * i + 1] if len(p) == 2 * nl else None))
        return a
    check_model(env, nn, m, spec, [x])
@entry("C25", *combos(DL, grid(nl=[2, 3], xg=[False, True], bias=[False, True])))
def e_deep_relu(env, nn, side, shape, tile, ndim, nl, xg, bias):
    x = moments(env, nn, "fp32", shape, tile, "x", xg, xg); m = nn.model.DeepReLU(x, side, ndim, 2, 1, nl, 3, Tag.n, bias)
    def spec(p, dx):
        a = dx[0]
        for i in range(nl):
            a = cutn(lin_spec(a, p[(2 if bias else 1) * i], side, False, ndim if i == 0 else 1, p[2 * i + 1] if bias else None))
            if i < nl - 1: a = cutn(vmap(lambda v: fun("pos", v), a))
        return a
    check_model(env, nn, m, spec, [x])
def gpt_config(nn, redux=False, flash=False, act="gelutanh", nh=1, layers=1, emb=2, inner=2, vocab=3, seq=2, et=1):
    return nn.model.GPT2Config(vocab, 1, emb, et, seq, inner, 2, 1e-5, layers, nh, 1, act, flash, redux)
@entry("C25", *grid(act=["relu", "gelu", "gelutanh"], redux=[False, True]))
def e_gpt2_mlp(env, nn, act, redux):
    from nntile.model.gpt2 import GPT2MLP
    x = moments(env, nn, "fp32", (2, 2, 1), (1, 2, 1), "x"); m = GPT2MLP(x, gpt_config(nn, redux, act=act, inner=3), Tag.n)
    def spec(p, dx):
        a = cutn(lin_spec(dx[0], p[0], "R", False, 1, p[1])); a = cutn(vmap(lambda v: fun({"relu": "pos"}.get(act, act), v), a)); return cutn(lin_spec(a, p[2], "R", False, 1, p[3]))
    check_model(env, nn, m, spec, [x])
def gpt2_spec(p, ids, pos, nl, nh, act, eps):
    p = list(p); take = lambda: p.pop(0)
    def emb(w, ix):
        r = arr(w.shape[0], *ix.shape)
        for i in np.ndindex(*r.shape): r[i] = w[i[0], ix[i[1:]]]
        return cutn(r)
    wte, wpe = take(), take(); a = cutn(emb(wte, ids) + emb(wpe, pos)[:, :, None]); mask = MASKS["causal"](ids.shape[0])
    for _ in range(nl):
        h = cutn(ln_spec(a, take(), take(), 0, eps)); k = ["wq", "wk", "wv", "bq", "bk", "bv", "w", "b"]; q = {n: take() for n in k}
        h = cutn(att_run([h, h, h], q, nh, mask)); a = cutn(a + h)
        h = cutn(ln_spec(a, take(), take(), 0, eps)); w1, b1, w2, b2 = take(), take(), take(), take()
        h = cutn(lin_spec(h, w1, "R", False, 1, b1)); h = cutn(vmap(lambda v: fun({"relu": "pos"}.get(act, act), v), h)); h = cutn(lin_spec(h, w2, "R", False, 1, b2)); a = cutn(a + h)
    a = cutn(ln_spec(a, take(), take(), 0, eps)); y = cutn(lin_spec(a, take(), "R", False, 1, None))
    if p: raise Violation("the model has more parameters than GPT-2")
    return y
def make_ids(env, nn, seq, batch, st, vocab):
    ids = tensor(env, nn, "int64", (seq, batch), (st, 1)); ids.data = np.array([[(2 * i + j) % vocab for j in range(batch)] for i in range(seq)], object)
    pos = tensor(env, nn, "int64", (seq,), (st,)); pos.data = np.array(list(range(seq)), object); return ids, pos
@entry("C25", *combos(grid(flash=[False, True], redux=[False, True]), [dict(nh=1, nl=1, act="gelutanh", seq=2, st=2, batch=1), dict(nh=2, nl=1, act="relu", seq=2, st=1, batch=2), dict(nh=1, nl=2, act="gelu", seq=2, st=1, batch=1)]), thorough=combos(grid(flash=[False, True], redux=[False]), [dict(nh=2, nl=2, act="gelutanh", seq=3, st=1, batch=2, emb=4)]))
def e_gpt2(env, nn, flash, redux, nh, nl, act, seq, st, batch, emb=2):
    ids, pos = make_ids(env, nn, seq, batch, st, 3); TM = nn.tensor.TensorMoments
    m = nn.model.GPT2Model(TM(ids, None, False), TM(pos, None, False), gpt_config(nn, redux, flash, act, nh, nl, seq=seq, emb=emb), Tag.n)
    check_model(env, nn, m, lambda p, dx: gpt2_spec(p, ids.data, pos.data, nl, nh, act, 1e-5))
def mlp_spec(a, w1, w2, side): a = cutn(lin_spec(a, w1, side, False, 1, None)); a = cutn(vmap(lambda v: fun("gelu", v), a)); return cutn(lin_spec(a, w2, side, False, 1, None))
def mixer_spec(x, p, eps=1e-5):
    g1, b1, w1, w2, g2, b2, w3, w4 = p; h = cutn(ln_spec(x, g1, b1, 2, eps)); h = adjcut(mlp_spec(h, w1, w2, "R") + x)
    k = cutn(ln_spec(h, g2, b2, 2, eps)); return adjcut(mlp_spec(k, w3, w4, "L") + h)
class One:
    """a layer seen as a model"""
    def __init__(s, lay, x): s.layers, s.parameters, s.activations, s.lay = [lay], lay.parameters, [x, lay.y], lay
    def clear_activations_grads(s):
        g = [(p, p.grad.data) for p in s.parameters]; s.lay.clear_gradients()
        for p, d in g: p.grad.data = d
    def forward_async(s): s.lay.forward_async()
    def backward_async(s): s.lay.backward_async()
@entry("C25", *combos(grid(side=["L", "R"]), [dict(shape=(2, 2, 1), tile=(2, 2, 1)), dict(shape=(2, 1, 3), tile=(2, 1, 3)), dict(shape=(1, 2, 2), tile=(1, 1, 2))]))
def e_mixer_mlp(env, nn, side, shape, tile):
    x = moments(env, nn, "fp32", shape, tile, "x"); lay, tag = nn.layer.MixerMlp.generate_simple(x, side, Tag.n)
    check_model(env, nn, One(lay, x), lambda p, dx: mlp_spec(dx[0], p[0], p[1], side), [x])
@entry("C25", *grid(shape=[(1, 1, 2), (2, 1, 2), (2, 2, 2), (1, 2, 3)]))
def e_mixer(env, nn, shape):
    x = moments(env, nn, "fp32", shape, shape, "x"); lay, tag = nn.layer.Mixer.generate_simple(x, Tag.n)
    check_model(env, nn, One(lay, x), lambda p, dx: cutn(mixer_spec(dx[0], p)), [x])
@entry("C25", *grid(n=[1, 2], shape=[(2, 1, 2), (2, 2, 3)]))
def e_mlp_mixer(env, nn, n, shape):
    x = moments(env, nn, "fp32", shape, shape, "x", False, False); m = nn.model.MlpMixer(x, 2, n, 3, Tag.n)
    def spec(p, dx):
        a = cutn(lin_spec(dx[0], p[0], "L", False, 1, None)); q = p[1:]
        for _ in range(n): a = cutn(mixer_spec(a, q[:8])); q = q[8:]
        a = cutn((a.sum(axis=0) / shape[0]).T); return cutn(lin_spec(a, q[0], "R", False, 1, None))
    check_model(env, nn, m, spec, [x])

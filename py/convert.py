"""C32: models built from PyTorch modules (stand-ins holding only the parameters, in the order and
with the names of the real modules) compute the modules' function; writing back returns the parameters."""
from base import *
from layers import ln_spec, softmax_spec, MASKS, combos
from models import cutn, adjcut, wrap_layers, gpt_config
class Module:
    def __init__(s, env, tag, specs): s.l = [(n, S.FakeTorchTensor(env.array(tag + n.replace(".", "_"), sh))) for n, sh in specs]
    def named_parameters(s): return list(s.l)
    def parameters(s): return [p for _, p in s.l]
    def lifted(s): return {n: lift(p.arr) for n, p in s.l}
def same_params(env, what, a, b):
    for (n, p), (m, q) in zip(a.l, b.l): env.eq(what + " " + n, p.arr, q.arr)
def forward(env, nn, m, x, data, what, want):
    wrap_layers(nn, m.layers)
    if x.value.dtype == "int64": x.value.data = data
    else: x.value.data = data.copy()
    m.forward_async(); env.eq(what, m.activations[-1].value, val(want))
def gpt2_names(nl, n, vocab, pos, inner):
    r = [("transformer.wte.weight", (vocab, n)), ("transformer.wpe.weight", (pos, n))]
    for l in range(nl):
        h = "transformer.h.%d." % l
        r += [(h + "ln_1.weight", (n,)), (h + "ln_1.bias", (n,)), (h + "attn.c_attn.weight", (n, 3 * n)), (h + "attn.c_attn.bias", (3 * n,)), (h + "attn.c_proj.weight", (n, n)), (h + "attn.c_proj.bias", (n,)), (h + "ln_2.weight", (n,)), (h + "ln_2.bias", (n,)), (h + "mlp.c_fc.weight", (n, inner)), (h + "mlp.c_fc.bias", (inner,)), (h + "mlp.c_proj.weight", (inner, n)), (h + "mlp.c_proj.bias", (n,))]
    return r + [("transformer.ln_f.weight", (n,)), ("transformer.ln_f.bias", (n,)), ("lm_head.weight", (vocab, n))]
def gpt2_torch(p, ids, nl, nh, act, eps):
    """HuggingFace GPT2LMHeadModel; activations as [feature, position, batch]"""
    s, nb = ids.shape; n = p["transformer.wte.weight"].shape[1]; hs = n // nh; A = {"relu": "pos"}.get(act, act)
    we = arr(n, s, nb); wp = arr(n, s)
    for k, i, b in np.ndindex(n, s, nb): we[k, i, b] = p["transformer.wte.weight"][ids[i, b], k]
    for k, i in np.ndindex(n, s): wp[k, i] = p["transformer.wpe.weight"][i, k]
    h = cutn(cutn(we) + cutn(wp)[:, :, None])
    def lin(x, w, b): # Conv1D: y = x W + b over the features
        r = arr(w.shape[1], s, nb)
        for j, i, k in np.ndindex(*r.shape):
            t = b[j] if b is not None else 0
            for q in range(w.shape[0]): t = t + x[q, i, k] * w[q, j]
            r[j, i, k] = t
        return r
    for l in range(nl):
        g = lambda k: p["transformer.h.%d.%s" % (l, k)]
        x = cutn(ln_spec(h, g("ln_1.weight"), g("ln_1.bias"), 0, eps)); qkv = lin(x, g("attn.c_attn.weight"), g("attn.c_attn.bias")); a = arr(n, s, nb); M = MASKS["causal"](s)
        for b in range(nb):
            for e in range(nh):
                q, k, v = (qkv[o * n + e * hs:o * n + (e + 1) * hs, :, b] for o in range(3)); Z = k.T.dot(q) * (1.0 / hs ** 0.5); a[e * hs:(e + 1) * hs, :, b] = v.dot(softmax_spec(Z, M))
        h = cutn(h + cutn(lin(a, g("attn.c_proj.weight"), g("attn.c_proj.bias"))))
        x = cutn(ln_spec(h, g("ln_2.weight"), g("ln_2.bias"), 0, eps)); x = cutn(lin(x, g("mlp.c_fc.weight"), g("mlp.c_fc.bias"))); x = cutn(vmap(lambda v: fun(A, v), x)); h = cutn(h + cutn(lin(x, g("mlp.c_proj.weight"), g("mlp.c_proj.bias"))))
    h = cutn(ln_spec(h, p["transformer.ln_f.weight"], p["transformer.ln_f.bias"], 0, eps)); return cutn(lin(h, p["lm_head.weight"].T, None))
@entry("C32", *combos(grid(flash=[False, True], redux=[False, True]), [dict(nh=1, nl=1, n=2, inner=3, vocab=3, pos=2, s=2, st=2, nb=1, act="relu"), dict(nh=2, nl=1, n=2, inner=2, vocab=2, pos=3, s=2, st=1, nb=2, act="gelutanh"), dict(nh=2, nl=2, n=2, inner=2, vocab=3, pos=2, s=2, st=1, nb=1, act="gelu"), dict(nh=2, nl=1, n=4, inner=4, vocab=4, pos=4, s=2, st=1, nb=1, act="relu"), dict(nh=3, nl=1, n=3, inner=2, vocab=3, pos=3, s=3, st=1, nb=1, act="relu")]), thorough=grid(flash=[False, True], redux=[False], nh=[2], nl=[2], n=[4], inner=[3], vocab=[5], pos=[4], s=[3], st=[1], nb=[2], act=["gelutanh"]))
def e_gpt2(env, nn, flash, redux, nh, nl, n, inner, vocab, pos, s, st, nb, act):
    t = Module(env, "t_", gpt2_names(nl, n, vocab, pos, inner)); cfg = nn.model.GPT2Config(vocab, 1, n, 1, pos, inner, 2, 1e-5, nl, nh, 1, act, flash, redux)
    m, tag = nn.model.GPT2Model.from_torch(t, nb, 1, s, st, cfg, 0); ids = np.array([[(2 * i + j) % vocab for j in range(nb)] for i in range(s)], object)
    env.check("one parameter per PyTorch parameter (three per fused projection)", len(m.parameters) == len(t.l) + 4 * nl)
    u = Module(env, "u_", gpt2_names(nl, n, vocab, pos, inner)); m.to_torch(u); same_params(env, "written back", u, t)
    forward(env, nn, m, m.activations[0], ids, "output", gpt2_torch(t.lifted(), ids, nl, nh, act, 1e-5)); same_params(env, "written back", u, t)
@entry("C32", *grid(act=["relu", "gelu", "gelutanh"], redux=[False, True], emb=[2, 3], inner=[2, 3]))
def e_gpt2_mlp(env, nn, act, redux, emb, inner):
    from nntile.model.gpt2 import GPT2MLP
    t = Module(env, "t_", [("c_fc.weight", (emb, inner)), ("c_fc.bias", (inner,)), ("c_proj.weight", (inner, emb)), ("c_proj.bias", (emb,))]); x = moments(env, nn, "fp32", (emb, 2, 1), (1, 2, 1), "x")
    m, tag = GPT2MLP.from_torch(t, x, gpt_config(nn, redux, act=act, emb=emb, inner=inner), Tag.n); p = t.lifted(); X = old(x.value)
    h = cutn(np.tensordot(p["c_fc.weight"].T, lift(X), 1) + p["c_fc.bias"].reshape(-1, 1, 1)); h = cutn(vmap(lambda v: fun({"relu": "pos"}.get(act, act), v), h)); forward(env, nn, m, x, X, "output", cutn(np.tensordot(p["c_proj.weight"].T, h, 1) + p["c_proj.bias"].reshape(-1, 1, 1)))
@entry("C32", *grid(bias=[False, True], nl=[2, 3], d=[2, 3], h=[2, 3], c=[2, 3]))
def e_deep_relu(env, nn, bias, nl, d, h, c):
    dims = [d] + [h] * (nl - 1) + [c]; sp = []
    for i in range(nl): sp += [("%d.weight" % (2 * i), (dims[i + 1], dims[i]))] + ([("%d.bias" % (2 * i), (dims[i + 1],))] if bias else [])
    t = Module(env, "t_", sp); m, tag = nn.model.DeepReLU.from_torch(t, 2, c, "relu", Tag.n); p = t.lifted(); X = env.array("x", (d, 2)); a = lift(X)
    for i in range(nl):
        a = p["%d.weight" % (2 * i)].dot(a); a = cutn(a + p["%d.bias" % (2 * i)][:, None] if bias else a)
        if i < nl - 1: a = cutn(vmap(lambda v: fun("pos", v), a))
    forward(env, nn, m, m.activations[0], X, "output", a)
def mixer_names(nl, chan, init, patch, classes):
    r = [("mixer_sequence.0.weight", (patch, init))]
    for l in range(1, nl + 1):
        h = "mixer_sequence.%d." % l; r += [(h + "norm_1.weight", (patch,)), (h + "norm_1.bias", (patch,)), (h + "mlp_1.0", (4 * chan, chan)), (h + "mlp_1.2", (chan, 4 * chan)), (h + "norm_2.weight", (patch,)), (h + "norm_2.bias", (patch,)), (h + "mlp_2.0", (4 * patch, patch)), (h + "mlp_2.2", (patch, 4 * patch))]
    return r + [("classification.weight", (classes, patch))]
@entry("C32", *combos(grid(nl=[1, 2]), [dict(chan=2, init=3, patch=2, classes=3, nb=1), dict(chan=1, init=2, patch=2, classes=2, nb=2), dict(chan=2, init=2, patch=3, classes=3, nb=1), dict(chan=3, init=1, patch=1, classes=2, nb=1)]))
def e_mlp_mixer(env, nn, nl, chan, init, patch, classes, nb):
    t = Module(env, "t_", mixer_names(nl, chan, init, patch, classes)); m, tag = nn.model.MlpMixer.from_torch(t, nb, classes, Tag.n)
    u = Module(env, "u_", mixer_names(nl, chan, init, patch, classes)); m.to_torch(u); same_params(env, "written back", u, t)
    X = env.array("x", (chan, nb, init)); p = t.lifted(); gelu = lambda a: cutn(vmap(lambda v: fun("gelu", v), a))
    h = cutn(lift(X).dot(p["mixer_sequence.0.weight"].T))
    for l in range(1, nl + 1):
        g = lambda k: p["mixer_sequence.%d.%s" % (l, k)]; k = cutn(ln_spec(h, g("norm_1.weight"), g("norm_1.bias"), 2, 1e-5))
        k = cutn(np.tensordot(g("mlp_1.2"), gelu(cutn(np.tensordot(g("mlp_1.0"), k, 1))), 1)); h = adjcut(k + h)
        k = cutn(ln_spec(h, g("norm_2.weight"), g("norm_2.bias"), 2, 1e-5)); k = cutn(gelu(cutn(k.dot(g("mlp_2.0").T))).dot(g("mlp_2.2").T)); h = cutn(adjcut(k + h))
    a = cutn((h.sum(axis=0) / chan).T); forward(env, nn, m, m.activations[0], X, "output", cutn(p["classification.weight"].dot(a)))

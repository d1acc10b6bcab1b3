from base import *
def lin_spec(X, W, side, trans, ndim, b):
    n, w = X.ndim, W.ndim
    if side == "L": Y = np.tensordot(X, W, axes=(list(range(n - ndim, n)) if not trans else list(range(ndim)), list(range(ndim))))
    else: Y = np.tensordot(W, X, axes=(list(range(w - ndim, w)), list(range(ndim)) if not trans else list(range(n - ndim, n))))
    if b is not None: Y = Y + (b if side == "L" else b.reshape((-1,) + (1,) * (Y.ndim - 1)))
    return Y
LIN = [dict(side=s, tr=t) for s in "LR" for t in (0, 1)]
SH = [dict(shape=(2, 3), tile=(1, 2), ndim=1, add=[2], addt=[1]), dict(shape=(2, 1, 3), tile=(2, 1, 2), ndim=2, add=[2], addt=[2]), dict(shape=(3, 2, 2), tile=(2, 2, 1), ndim=1, add=[3], addt=[2]), dict(shape=(3, 2), tile=(3, 2), ndim=1, add=[2, 2], addt=[2, 1])]
def combos(*ls): return [dict((k, v) for d in t for k, v in d.items()) for t in itertools.product(*ls)]
OPT = [dict(), dict(bias=True), dict(redux=True, bias=True), dict(tf32=True, dt="fp32"), dict(f16=True, dt="fp32"), dict(xgrad=False, bias=True), dict(wreq=False, bias=True), dict(xreq=False, breq=False, bias=True), dict(tf32=True, f16=True, dt="fp64"), dict(f16=True, dt="fp32", bias=True, xreq=False), dict(tf32=True, redux=True, dt="fp32", bias=True)]
@entry("C25", *combos(LIN, SH, OPT[:3]), *combos(LIN, SH[:3], OPT[3:]))
def e_linear(env, nn, side, tr, shape, tile, ndim, add, addt, bias=False, redux=False, tf32=False, f16=False, dt="fp64", xgrad=True, xreq=True, wreq=True, breq=True):
    if len(add) > 1: bias = False
    x = moments(env, nn, dt, shape, tile, "x", xgrad, xgrad and xreq)
    lay, tag = nn.layer.Linear.generate_simple(x, side, nn.tensor.trans if tr else nn.tensor.notrans, ndim, list(add), list(addt), Tag.n, bias, fp32_fast_tf32=tf32, fp32_convert_fp16=f16, redux=redux)
    w = lay.w; w.grad_required = wreq; W, W0 = env.fill(w.value, "w"), env.fill(w.grad, "wg"); b = lay.b if bias else None
    env.check("bias present", (lay.b is not None) == bias); env.check("parameters", lay.parameters == ([w, b] if bias else [w]))
    if bias: b.grad_required = breq; B, B0 = env.fill(b.value, "b"), env.fill(b.grad, "bg")
    X = old(x.value); X0 = old(x.grad) if xgrad else None
    dX, dW = lift(X), lift(W); dB = lift(B) if bias else None
    Y = lin_spec(dX, dW, side, tr, ndim, dB)
    lay.forward_async()
    env.eq("y", lay.y.value, val(Y)); env.eq("x.value", x.value, X); env.eq("w.value", w.value, W)
    env.check("y shape", list(Y.shape) == lay.y.value.shape)
    G = env.fill(lay.y.grad, "yg"); lay.backward_async()
    gX, gW = grads([(Y, G)], [dX, dW]); D.tape
    if xgrad: env.eq("x.grad", x.grad, X0 + gX if xreq else X0)
    env.eq("w.grad", w.grad, W0 + gW if wreq else W0)
    if bias: env.eq("b.grad", b.grad, B0 + grads([(Y, G)], [dB])[0] if breq else B0); env.eq("b.value", b.value, B)
    env.eq("x.value", x.value, X); env.eq("w.value", w.value, W)
SHT = [dict(shape=(3,), tile=(2,)), dict(shape=(2, 3), tile=(2, 2)), dict(shape=(2, 1, 2), tile=(1, 1, 2)), dict(shape=(), tile=())]
@entry("C25", *combos(grid(f=["relu", "gelu", "gelutanh"], dt=["fp32", "fp64"], req=[True, False]), SHT))
def e_act(env, nn, f, dt, req, shape, tile):
    x = moments(env, nn, dt, shape, tile, "x", req, req); X = old(x.value); X0 = old(x.grad) if req else None
    lay, tag = nn.layer.Act.generate_simple(x, f, Tag.n)
    name = {"relu": "pos"}.get(f, f); dx = lift(X); Y = vmap(lambda v: fun(name, v), dx)
    lay.forward_async(); env.eq("y", lay.y.value, val(Y)); env.eq("x.value", x.value, X)
    G = env.fill(lay.y.grad, "yg"); lay.backward_async()
    if req: env.eq("x.grad", x.grad, X0 + grads([(Y, G)], [dx])[0])
    env.eq("x.value", x.value, X)
@entry("C25", *combos(grid(dt=["fp32", "fp64"], alias=[False, True]), SHT))
def e_add(env, nn, dt, shape, tile, alias):
    x = moments(env, nn, dt, shape, tile, "x"); y = x if alias else moments(env, nn, dt, shape, tile, "y"); X, Y, X0, Y0 = old(x.value), old(y.value), old(x.grad), old(y.grad)
    from nntile.layer.add import Add
    lay, tag = Add.generate_simple(x, y, Tag.n); lay.forward_async(); env.eq("res", lay.res.value, X + Y); env.eq("x.value", x.value, X); env.eq("y.value", y.value, Y)
    G = env.fill(lay.res.grad, "g"); lay.backward_async(); env.eq("x.grad", x.grad, X0 + G + (G if alias else 0)); alias or env.eq("y.grad", y.grad, Y0 + G); env.eq("x.value", x.value, X); env.eq("y.value", y.value, Y)
@entry("C25", *combos(grid(dt=["fp32", "fp64"], redux=[False, True]), [dict(shape=(2, 3), tile=(2, 2), axis=0), dict(shape=(2, 3), tile=(1, 2), axis=1), dict(shape=(2, 3, 2), tile=(2, 2, 1), axis=0), dict(shape=(2, 3, 2), tile=(2, 2, 1), axis=1), dict(shape=(2, 3, 2), tile=(1, 2, 1), axis=2)]))
def e_add_slice(env, nn, dt, redux, shape, tile, axis):
    x = moments(env, nn, dt, shape, tile, "x"); y = moments(env, nn, dt, shape[:axis] + shape[axis + 1:], tile[:axis] + tile[axis + 1:], "y"); X, Y, X0, Y0 = old(x.value), old(y.value), old(x.grad), old(y.grad)
    lay, tag = nn.layer.AddSlice.generate_simple(x, y, axis, Tag.n, redux=redux); lay.forward_async(); env.eq("u", lay.u.value, X + np.expand_dims(Y, axis)); env.eq("x.value", x.value, X); env.eq("y.value", y.value, Y)
    G = env.fill(lay.u.grad, "g"); lay.backward_async(); env.eq("x.grad", x.grad, X0 + G); env.eq("y.grad", y.grad, Y0 + G.sum(axis=axis)); env.eq("x.value", x.value, X)
@entry("C25", *combos(grid(dt=["fp32", "fp64"], labels=["spread", "same", "rev"]), [dict(ish=(3,), itile=(2,), axis=0, emb=3, et=2, wt=1), dict(ish=(3,), itile=(2,), axis=1, emb=2, et=2, wt=2), dict(ish=(2, 2), itile=(2, 1), axis=0, emb=3, et=2, wt=2), dict(ish=(2, 2), itile=(1, 2), axis=1, emb=2, et=2, wt=1), dict(ish=(2, 2), itile=(1, 2), axis=2, emb=3, et=3, wt=3)]))
def e_embedding(env, nn, dt, labels, ish, itile, axis, emb, et, wt):
    V = 4; x = tensor(env, nn, "int64", ish, itile); n = int(np.prod(ish)); lab = {"spread": [k % V for k in range(n)], "same": [2] * n, "rev": [V - 1 - k % 3 for k in range(n)]}[labels]
    x.data = np.array(lab, object).reshape(ish)
    lay, tag = nn.layer.Embedding.generate_simple(x, getattr(nn.tensor, "Tensor_" + dt), axis, V, emb, et, wt, Tag.n); W, W0 = env.fill(lay.w.value, "w"), env.fill(lay.w.grad, "wg"); dW = lift(W)
    Y = np.empty(ish[:axis] + (emb,) + ish[axis:], object)
    for i in np.ndindex(*Y.shape): Y[i] = dW[i[axis], x.data[i[:axis] + i[axis + 1:]]]
    lay.forward_async(); env.eq("y", lay.y.value, val(Y)); G = env.fill(lay.y.grad, "g"); lay.backward_async(); env.eq("w.grad", lay.w.grad, W0 + grads([(Y, G)], [dW])[0]); env.eq("w.value", lay.w.value, W)
def ln_spec(X, gam, bet, axis, eps):
    l = X.shape[axis]; mean = X.sum(axis=axis) / l if X.ndim > 1 else S._sc(X.sum(axis=axis) / l)
    C = X - np.expand_dims(mean, axis); var = (C * C).sum(axis=axis) / l if X.ndim > 1 else S._sc((C * C).sum() / l)
    inv = vmap(lambda v: 1 / fsqrt(v + eps), var); sh = [1] * X.ndim; sh[axis] = l
    return C * np.expand_dims(inv, axis) * gam.reshape(sh) + bet.reshape(sh)
@entry("C25", *combos(grid(dt=["fp32", "fp64"], redux=[False, True]), [dict(shape=(2, 2), tile=(1, 2), axis=0), dict(shape=(2, 3), tile=(2, 2), axis=1), dict(shape=(2, 2, 1), tile=(1, 2, 1), axis=1), dict(shape=(1, 2, 2), tile=(1, 2, 1), axis=2)]))
def e_layer_norm(env, nn, dt, redux, shape, tile, axis):
    x = moments(env, nn, dt, shape, tile, "x"); X, X0 = old(x.value), old(x.grad); eps = env.var("eps", 1)
    lay, tag = nn.layer.LayerNorm.generate_simple(x, axis, eps, Tag.n, redux=redux)
    env.eq("gamma starts at 1", lay.gamma.value, env.consts((shape[axis],), 1)); env.eq("beta starts at 0", lay.beta.value, env.consts((shape[axis],), 0))
    g, b, g0, b0 = env.fill(lay.gamma.value, "gam"), env.fill(lay.beta.value, "bet"), env.fill(lay.gamma.grad, "gg"), env.fill(lay.beta.grad, "bg")
    dX, dg, db = lift(X), lift(g), lift(b); Y = ln_spec(dX, dg, db, axis, eps)
    lay.forward_async(); env.eq("y", lay.y.value, val(Y)); env.eq("x.value", x.value, X)
    G = env.fill(lay.y.grad, "yg"); lay.backward_async(); aX, ag, ab = grads([(Y, G)], [dX, dg, db])
    env.eq("beta.grad", lay.beta.grad, b0 + ab); env.eq("gamma.grad", lay.gamma.grad, g0 + ag); env.eq("x.grad", x.grad, X0 + aX); env.eq("x.value", x.value, X); env.eq("gamma", lay.gamma.value, g)
@entry("C25", *grid(dt=["fp32", "fp64"], shape=[(2, 2), (3, 2, 1), (2, 3, 2), (4,)]))
def e_gap(env, nn, dt, shape):
    if len(shape) == 1: return
    x = moments(env, nn, dt, shape, shape, "x"); X, X0 = old(x.value), old(x.grad); lay, tag = nn.layer.GAP.generate_simple(x, Tag.n) if len(shape) == 3 else (None, 0)
    if lay is None: return
    dX = lift(X); Y = (dX.sum(axis=0) / shape[0]).T; lay.forward_async(); env.eq("y", lay.y.value, val(Y)); env.eq("x.value", x.value, X)
    G = env.fill(lay.y.grad, "g"); lay.backward_async(); env.eq("x.grad", x.grad, X0 + grads([(Y, G)], [dX])[0])
@entry("C25", *grid(to16=[True, False], shape=[(3,), (2, 3)], rest=[False, True]))
def e_convert(env, nn, to16, shape, rest):
    x = moments(env, nn, "fp32" if to16 else "fp16", shape, tuple(2 for _ in shape), "x"); X, X0 = old(x.value), old(x.grad)
    lay, tag = (nn.layer.FP32_to_FP16 if to16 else nn.layer.FP16_to_FP32).generate_simple(x, Tag.n); lay.forward_async(); env.eq("y", lay.y.value, X); G = env.fill(lay.y.grad, "g"); lay.backward_async(); env.eq("x.grad", x.grad, X0 + G, known=("is the new gradient alone", G), rest=rest)
def softmax_spec(Z, mask):
    """softmax over the first dimension; masked entries are 0"""
    E = vmap(lambda v: fun("exp", v), Z)
    if mask is not None:
        for i in np.ndindex(*Z.shape):
            if not mask[i[0], i[1]]: E[i] = 0 * E[i]
    return E / E.sum(axis=0)[None]
def _proj(w, x):
    nh, hs, n = w.shape; _, s, nb = x.shape; r = arr(hs, s, nb, nh)
    for h, i, b, e in np.ndindex(*r.shape):
        t = 0
        for k in range(n): t = t + w[e, h, k] * x[k, i, b]
        r[h, i, b, e] = t
    return r
MASKS = {"none": None, "causal": lambda s: np.triu(np.ones((s, s), bool)), "all": lambda s: np.ones((s, s), bool), "chess": lambda s: np.array([[(i + j) % 2 == 0 for j in range(s)] for i in range(s)]), "low": lambda s: np.tril(np.ones((s, s), bool))}
ATT = [dict(n=2, s=2, nb=1, nh=1, tile=(1, 1, 1), ht=1), dict(n=2, s=2, nb=1, nh=2, tile=(2, 2, 1), ht=1), dict(n=2, s=2, nb=2, nh=2, tile=(2, 1, 1), ht=2)]
def attention(env, nn, cls, dt, n, s, nb, nh, tile, ht, mask, bias, redux, tf32, cross):
    xs = [moments(env, nn, dt, (n, s, nb), tile, "xq")]
    if cross: xs += [moments(env, nn, dt, (n + 1, s, nb), (2,) + tile[1:], "xk"), moments(env, nn, dt, (1, s, nb), (1,) + tile[1:], "xv")]
    else: xs *= 3
    M = MASKS[mask](s) if MASKS[mask] else None; mt = None
    if M is not None: mt = tensor(env, nn, "bool", (s, s), (tile[1], tile[1])); mt.data = M.astype(object)
    lay, tag = cls.generate_simple(xs[0], xs[1], xs[2], nh, ht, Tag.n, bias, mt, redux=redux, fp32_fast_tf32=tf32)
    ps = {"wq": lay.w_q, "wk": lay.w_k, "wv": lay.w_v, "w": lay.w}
    if bias: ps.update(bq=lay.in_proj_bias_q, bk=lay.in_proj_bias_k, bv=lay.in_proj_bias_v, b=lay.out_proj_bias)
    env.check("every parameter is listed once", sorted(map(id, lay.parameters)) == sorted(map(id, ps.values())))
    P0 = {k: (env.fill(t.value, k), env.fill(t.grad, k + "g")) for k, t in ps.items()}; dp = {k: lift(v[0]) for k, v in P0.items()}
    uniq = xs if cross else xs[:1]; X0 = [(old(x.value), old(x.grad)) for x in uniq]; dx = [lift(v) for v, _ in X0]; sx = dx if cross else dx * 3
    Y = att_run(sx, dp, nh, M)
    lay.forward_async(); env.eq("y", lay.y.value, val(Y))
    for x, (v, _) in zip(uniq, X0): env.eq("x.value", x.value, v)
    G = env.fill(lay.y.grad, "yg"); lay.backward_async(); ks = list(dp); r = grads([(Y, G)], [dp[k] for k in ks] + dx)
    for k, g in zip(ks, r): env.eq(k + ".grad", ps[k].grad, P0[k][1] + g); env.eq(k + ".value", ps[k].value, P0[k][0])
    for x, (v, g0), g in zip(uniq, X0, r[len(ks):]): env.eq("x.grad", x.grad, g0 + g); env.eq("x.value", x.value, v)
def att_run(x, p, nh, M):
    n, s, nb = x[0].shape; hs = n // nh
    def proj(w, x, b): r = _proj(w, x); return r if b is None else r + b[:, None, None, :]
    Q, K, V = proj(p["wq"], x[0], p.get("bq")), proj(p["wk"], x[1], p.get("bk")), proj(p["wv"], x[2], p.get("bv"))
    Y = arr(n, s, nb)
    for b in range(nb):
        B = []
        for e in range(nh): Z = K[:, :, b, e].T.dot(Q[:, :, b, e]) * (1.0 / hs ** 0.5); B.append(V[:, :, b, e].dot(softmax_spec(Z, M)))
        for m in range(s):
            for i in range(n):
                t = 0
                for e in range(nh):
                    for h in range(hs): t = t + p["w"][i, e, h] * B[e][h, m]
                Y[i, m, b] = t + p["b"][i] if "b" in p else t
    return Y
AOPT = [dict(bias=False), dict(bias=True), dict(bias=True, redux=True), dict(tf32=True, bias=False, dt="fp32"), dict(cross=True, bias=True, dt="fp32")]
DEF = dict(redux=False, tf32=False, cross=False, dt="fp64")
@entry("C25", *combos([DEF], ATT, grid(mask=["none", "causal", "chess"]), AOPT), *combos([DEF], [dict(n=2, s=3, nb=1, nh=1, tile=(2, 2, 1), ht=1), dict(n=4, s=2, nb=1, nh=2, tile=(2, 1, 1), ht=1), dict(n=3, s=3, nb=1, nh=3, tile=(3, 2, 1), ht=2)], grid(mask=["causal", "low"]), AOPT[1:2]), thorough=combos([DEF], [dict(n=2, s=4, nb=1, nh=1, tile=(2, 2, 1), ht=1), dict(n=4, s=3, nb=1, nh=2, tile=(2, 2, 1), ht=2), dict(n=3, s=3, nb=2, nh=3, tile=(3, 2, 1), ht=2)], grid(mask=["none", "causal", "chess", "low"]), AOPT))
def e_attention(env, nn, **k): attention(env, nn, nn.layer.Attention, **k)
FATT = [dict(n=2, s=2, nb=1, nh=1, tile=(1, 1, 1), ht=1), dict(n=2, s=2, nb=1, nh=2, tile=(2, 2, 1), ht=1), dict(n=2, s=2, nb=2, nh=2, tile=(2, 1, 1), ht=2), dict(n=4, s=2, nb=1, nh=2, tile=(2, 1, 1), ht=1)]
@entry("C25", *combos([DEF], FATT, grid(mask=["all", "causal", "chess"]), AOPT), *combos([DEF], [dict(n=2, s=3, nb=1, nh=1, tile=(2, 1, 1), ht=1)], grid(mask=["causal", "low"]), AOPT[1:2]), thorough=combos([DEF], [dict(n=2, s=4, nb=1, nh=1, tile=(2, 2, 1), ht=1), dict(n=4, s=3, nb=1, nh=2, tile=(2, 3, 1), ht=2)], grid(mask=["all", "causal", "chess", "low"]), AOPT))
def e_flash_attention(env, nn, **k): attention(env, nn, nn.layer.FlashAttention, **k)

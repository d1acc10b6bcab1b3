"""C31: operations of nntile.tensor: the result, in every offered precision, is that of the core
operation of that name on the same operands; operands of different precision are refused."""
from base import *
from layers import combos
F = ("fp32", "fp64")
A, B, C3 = ((2, 3), (1, 2)), ((3,), (2,)), ((2, 3, 2), (2, 2, 1))
def sl(sh, axis): return (drop(sh[0], axis), drop(sh[1], axis))
def drop(t, k): return tuple(t[:k]) + tuple(t[k + 1:])
def ms(sh, axis): s, b = sl(sh, axis); return ((2,) + s, (2,) + b)
class Sig:
    """one operation: keyword operands with their shapes; the core operation they are defined by; who is written"""
    def __init__(s, name, operands, call, core, writes, types=F, pos=()): s.name, s.operands, s.call, s.core, s.writes, s.types, s.pos = name, operands, call, core, writes, types, pos
OPS = {}
def op(name, operands, call, writes, core=None, types=F, pos=(), base=None):
    """operands: {name: (shape, tile)}; call: function(namespace of operands and symbols) -> positional arguments in documented order"""
    OPS[name] = Sig(base or name, operands, call, core or call, writes, types, pos)
U1 = lambda n: op(n + "_async", {"x": A}, lambda o: [o.x], ["x"], base=n)
for n in ("relu", "drelu", "gelu", "dgelu", "gelutanh_inplace", "dgelutanh", "sqrt_inplace"): U1(n) if n != "sqrt_inplace" else op("sqrt_inplace_async", {"x": A}, lambda o: [o.x], ["x"], pos=["x"], base="sqrt_inplace")
for n in ("relu_forward", "gelutanh", "prod", "maximum"): op(n + "_async", {"x": A, "y": A}, lambda o: [o.x, o.y], ["y"], base=n)
op("sqrt_async", {"x": A, "y": A}, lambda o: [o.x, o.y], ["y"], pos=["x"], base="sqrt")
for n in ("relu_backward", "gelu_backward", "gelutanh_backward"): op(n + "_async", {"x": A, "dy": A, "dx": A}, lambda o: [o.x, o.dy, o.dx], ["dx"], base=n)
op("gemm_async", {"A": ((2, 3), (1, 2)), "B": ((4, 3), (2, 2)), "C": ((2, 4), (1, 2))}, lambda o: [o.alpha, o.NN.notrans, o.A, o.NN.trans, o.B, o.beta, o.C, 1, 0, o.redux], ["C"], types=("fp32", "fp64", "fp16"), base="gemm")
op("gemm_ex_async", {"A": ((3, 2, 2), (2, 1, 1)), "B": ((3, 4, 2), (2, 2, 1)), "C": ((2, 4, 2), (1, 2, 1))}, lambda o: [o.alpha, o.NN.trans, o.A, o.NN.notrans, o.B, o.beta, o.C, 1, 1, o.redux], ["C"], types=("fp32",), base="gemm_ex")
op("fill_async", {"x": A}, lambda o: [o.alpha, o.x], ["x"], base="fill")
op("clear_async", {"x": A}, lambda o: [o.x], ["x"], base="clear")
for ax in (0, 1, 2):
    op("sum_slice_async/%d" % ax, {"x": C3, "y": sl(C3, ax)}, lambda o, ax=ax: [o.alpha, o.x, o.beta, o.y, ax, o.redux], ["y"], base="sum_slice")
    op("norm_slice_async/%d" % ax, {"x": C3, "y": sl(C3, ax)}, lambda o, ax=ax: [o.alpha, o.x, o.beta, o.y, ax, o.hredux], ["y"], base="norm_slice")
    op("add_slice_async/%d" % ax, {"s": sl(C3, ax), "x": C3}, lambda o, ax=ax: [o.alpha, o.s, o.beta, o.x, ax], ["x"], base="add_slice")
    op("add_slice3_async/%d" % ax, {"s": sl(C3, ax), "x": C3, "y": C3}, lambda o, ax=ax: [o.alpha, o.s, o.beta, o.x, o.y, ax], ["y"], base="add_slice3")
    op("prod_slice_async/%d" % ax, {"s": sl(C3, ax), "x": C3}, lambda o, ax=ax: [o.s, o.alpha, o.x, ax], ["x"], base="prod_slice")
    f = ((C3[0][ax],), (C3[1][ax],))
    op("prod_fiber_async/%d" % ax, {"f": f, "x": C3}, lambda o, ax=ax: [o.f, o.alpha, o.x, ax], ["x"], base="prod_fiber")
    op("prod_fiber3_async/%d" % ax, {"f": f, "x": C3, "y": C3}, lambda o, ax=ax: [o.f, o.alpha, o.x, o.y, ax], ["y"], base="prod_fiber3")
    op("sumprod_slice_async/%d" % ax, {"a": C3, "b": C3, "y": sl(C3, ax)}, lambda o, ax=ax: [o.alpha, o.a, o.b, o.beta, o.y, ax, o.redux], ["y"], base="sumprod_slice")
    op("sumprod_fiber_async/%d" % ax, {"a": C3, "b": C3, "y": f}, lambda o, ax=ax: [o.alpha, o.a, o.b, o.beta, o.y, ax, o.redux], ["y"], base="sumprod_fiber")
    op("maxsumexp_async/%d" % ax, {"x": C3, "m": ms(C3, ax)}, lambda o, ax=ax: [o.x, o.m, ax, o.mredux], ["m"], base="maxsumexp")
    op("softmax_async/%d" % ax, {"m": ms(C3, ax), "x": C3, "y": C3}, lambda o, ax=ax: [o.m, o.x, o.alpha, o.y, ax], ["y"], pos=["m"], base="softmax")
    op("softmax_inplace_async/%d" % ax, {"m": ms(C3, ax), "x": C3}, lambda o, ax=ax: [o.m, o.alpha, o.x, ax], ["x"], pos=["m"], base="softmax_inplace")
for ax, bn in ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (0, 2)):
    f = ((C3[0][ax],) + C3[0][3 - bn:], (C3[1][ax],) + C3[1][3 - bn:])
    op("sum_fiber_async/%d%d" % (ax, bn), {"x": C3, "y": f}, lambda o, ax=ax, bn=bn: [o.alpha, o.x, o.beta, o.y, ax, bn, o.redux], ["y"], base="sum_fiber")
    op("add_fiber_async/%d%d" % (ax, bn), {"f": f, "x": C3}, lambda o, ax=ax, bn=bn: [o.alpha, o.f, o.beta, o.x, ax, bn], ["x"], base="add_fiber")
op("pow_async", {"x": A}, lambda o: [o.alpha, 2, o.x], ["x"], base="pow")
op("add_async", {"x": A, "y": A}, lambda o: [o.alpha, o.x, o.beta, o.y], ["y"], base="add")
op("axpy_async", {"x": A, "y": A}, lambda o: [o.alpha, o.x, o.y], ["y"], base="axpy")
op("nrm2_async", {"x": A, "y": ((), ()), "tmp": ((2, 2), (1, 1))}, lambda o: [o.alpha, o.x, o.beta, o.y, o.tmp], ["y", "tmp"], base="nrm2")
op("hypot_async", {"x": A, "y": A}, lambda o: [o.alpha, o.x, o.beta, o.y], ["y"], base="hypot")
op("hypot_scalar_inverse_async", {"x": A}, lambda o: [o.alpha, o.beta, o.x], ["x"], base="hypot_scalar_inverse")
op("add_scalar_async", {"x": A}, lambda o: [o.alpha, o.beta, o.x], ["x"], base="add_scalar")
op("scal_async", {"x": A, "y": A}, lambda o: [o.alpha, o.x, o.y], ["y"], base="scal")
op("scal_inplace_async", {"x": A}, lambda o: [o.alpha, o.x], ["x"], base="scal_inplace")
op("addcdiv_async", {"nom": A, "den": A, "src": A}, lambda o: [o.alpha, o.beta, o.nom, o.den, o.src], ["src"], pos=["den"], base="addcdiv")
op("logsumexp_async", {"m": ((2, 2, 3), (2, 1, 2)), "l": A}, lambda o: [o.m, o.l], ["l"], pos=["m"], base="logsumexp")
for n in (0, 1, 2): op("transpose_async/%d" % n, {"src": A, "dst": A if n != 1 else ((3, 2), (2, 1))}, lambda o, n=n: [o.alpha, o.src, o.dst, n], ["dst"], base="transpose")
op("randn_async", {"x": A}, lambda o: [o.x, [1, 0], [4, 3], 77, o.alpha, o.beta], ["x"], base="randn")
for t in ("scatter", "gather", "copy"):
    one, many = ((2, 3), (2, 3)), A
    op(t + "_async", {"x": one if t == "scatter" else many, "y": one if t == "gather" else many}, lambda o: [o.x, o.y], ["y"], types=("fp32", "fp64", "int64") + (("bool",) if t != "copy" else ()), base=t)
op("copy_intersection_async", {"x": A, "y": ((3, 2), (2, 1))}, lambda o: [o.x, [1, 0], o.y, [0, 1]], ["y"], types=("fp32", "fp64", "int64"), base="copy_intersection")
for n in ("adam", "adamw"):
    for wd in ("z", "p"): op("fused_%s_step/%s" % (n, wd), {"p": A, "g": A, "m": A, "v": A}, lambda o, wd=wd: [o.p, o.g, o.m, o.v, o.lr, o.eps, o.b1, o.b2, 0 if wd == "z" else o.wd, 3], ["p", "m", "v"], core=lambda o, wd=wd: [3, o.b1, o.b2, o.eps, o.lr, 0 if wd == "z" else o.wd, o.g, o.m, o.v, o.p], pos=["v"], base=n + "_step")
# operands of a fixed type besides the floating-point ones: name starting with "i_" (labels) or "b_" (masks)
op("total_sum_accum_async", {"l": B, "x": ((3, 3), (3, 2)), "i_lab": B, "v": ((), ())}, lambda o: [o.alpha, o.l, o.x, o.i_lab, o.v], ["v"], base="total_sum_accum")
op("subtract_indexed_outputs_async", {"i_lab": B, "x": ((3, 3), (3, 2))}, lambda o: [o.alpha, o.i_lab, o.x], ["x"], base="subtract_indexed_outputs")
op("mask_scalar_async", {"b_m": ((2,), (1,)), "x": A}, lambda o: [o.b_m, o.alpha, o.x, 1], ["x"], base="mask_scalar")
op("embedding_async", {"i_ix": ((2, 2), (1, 2)), "w": ((3, 4), (1, 4)), "e": ((2, 3, 2), (1, 2, 2))}, lambda o: [o.i_ix, o.w, o.e, 1], ["e"], base="embedding")
op("embedding_backward_async", {"i_ix": ((2, 2), (1, 2)), "e": ((2, 3, 2), (1, 2, 2)), "w": ((3, 4), (1, 4))}, lambda o: [o.i_ix, o.e, o.w, 1, o.redux], ["w"], base="embedding_backward")
Q, M4, S2 = ((2, 2, 1, 2), (2, 1, 1, 1)), ((2, 2), (1, 1)), ((2, 2, 1, 2), (1, 1, 1, 1))
op("flash_maxsumexp_async", {"Q": Q, "K": Q, "b_mask": M4, "m": ((2, 2, 1, 2), (2, 1, 1, 1)), "tmp": S2}, lambda o: [o.Q, o.K, o.b_mask, o.m, o.tmp, o.mredux, 0], ["m", "tmp"], base="flash_maxsumexp")
op("flash_softmax_gemm_async", {"Q": Q, "K": Q, "V": Q, "b_mask": M4, "m": ((2, 2, 1, 2), (2, 1, 1, 1)), "dst": Q, "tmp": S2}, lambda o: [o.Q, o.K, o.V, o.b_mask, o.m, o.dst, o.tmp, o.redux, 0], ["dst", "tmp"], pos=["m"], base="flash_softmax_gemm")
op("flash_softmax_gemm_backward_async", {"Q": Q, "dQ": Q, "K": Q, "dK": Q, "V": Q, "dV": Q, "b_mask": M4, "m": ((2, 2, 1, 2), (2, 1, 1, 1)), "g": Q, "tmp": S2, "tmpg": S2, "sp": ((2, 1, 2), (1, 1, 1))}, lambda o: [o.Q, o.dQ, o.K, o.dK, o.V, o.dV, o.b_mask, o.m, o.g, o.tmp, o.tmpg, o.sp, o.redux, 0], ["dQ", "dK", "dV", "tmp", "tmpg", "sp"], pos=["m"], base="flash_softmax_gemm_backward")
for n, a, b in (("fp32_to_fp16", "fp32", "fp16"), ("fp16_to_fp32", "fp16", "fp32")): pass
class NS: pass
def operands(env, nn, sig, dt, tag, odd=None):
    """the operands with arbitrary contents (identical for equal tag); odd = (operand, its precision)"""
    o = NS(); o.NN = nn.tensor
    for k, (s, t) in sig.operands.items():
        d = "int64" if k.startswith("i_") else "bool" if k.startswith("b_") else dt
        x = tensor(env, nn, odd[1] if odd and odd[0] == k else d, s, t); setattr(o, k, x)
        if x.dtype == "int64": x.data = np.array([(2 * i + 1) % 3 for i in range(x.nelems)], object).reshape(tuple(s))
        elif x.dtype == "bool": x.data = np.array([(i % 3) != 1 for i in range(x.nelems)], object).reshape(tuple(s))
        else: env.fill(x, k, kind=1 if k in sig.pos else 0)
        if k in sig.writes: (x.set_reduction_maxsumexp if sig.name.endswith("maxsumexp") else x.set_reduction_hypot if sig.name == "norm_slice" else x.set_reduction_add)()
    for n, k in (("alpha", 0), ("beta", 1), ("lr", 1), ("eps", 1), ("b1", 2), ("b2", 2), ("wd", 1)): setattr(o, n, env.var("s_" + n, k))
    for r in ("redux", "hredux", "mredux"): setattr(o, r, tag)
    return o
def fn(nn, name): return getattr(nn.tensor, name.split("/")[0])
@entry("C31", *[dict(op=n, dt=d, redux=r) for n, s in OPS.items() for d in s.types for r in ((0, 1) if "redux" in s.call.__code__.co_names or "mredux" in s.call.__code__.co_names or "hredux" in s.call.__code__.co_names else (0,))])
def e_operation(env, nn, op, dt, redux):
    sig = OPS[op]; a = operands(env, nn, sig, dt, redux); b = operands(env, nn, sig, dt, redux)
    f = getattr(S.Ops, sig.name)
    if sig.name in ("nrm2",) or sig.name.startswith("flash"): n0 = len(env.names)
    fn(nn, op)(*sig.call(a)); calls = list(S.CALLS)
    if sig.name in ("nrm2",) or sig.name.startswith("flash"): del env.names[n0:]     # the contents of work buffers get the same arbitrary names
    f(*sig.core(b)); env.check("exactly one core operation", len(calls) == 1)
    for k in sig.operands: 
        if not (k.startswith("tmp") and k in sig.writes): env.eq(k, getattr(a, k), getattr(b, k).data)
@entry("C31", *[dict(op=n, dt=d, operand=k, other=e) for n, s in OPS.items() for d in s.types for k in s.operands if len(s.operands) > 1 for e in ("fp32", "fp64", "fp16", "int64", "bool") if e != ("int64" if k.startswith("i_") else "bool" if k.startswith("b_") else d) and not (e in s.types and [q for q in s.operands if q[:2] not in ("i_", "b_")] == [k])])
def e_mixed_precision(env, nn, op, dt, operand, other):
    sig = OPS[op]; o = operands(env, nn, sig, dt, 0, (operand, other)); before = {k: getattr(o, k).data.copy() for k in sig.operands}
    try: fn(nn, op)(*sig.call(o))
    except TypeError: pass
    else: raise Violation("%s accepted an operand of type %s among operands of type %s" % (op, other, dt))
    for k in sig.operands: env.check(k + " unchanged", all(x is y or x == y for x, y in zip(before[k].reshape(-1), getattr(o, k).data.reshape(-1))))
@entry("C31", *[dict(op=n, dt=d) for n, s in OPS.items() for d in ("fp32", "fp64", "fp16", "int64", "bool") if d not in s.types])
def e_unsupported_precision(env, nn, op, dt):
    sig = OPS[op]; o = operands(env, nn, sig, dt, 0)
    try: fn(nn, op)(*sig.call(o))
    except TypeError: pass
    else: raise Violation("%s accepted operands of type %s" % (op, dt))
@entry("C31", *grid(to16=[True, False]))
def e_conversion(env, nn, to16):
    from nntile.nntile_core import tensor as ct
    x = tensor(env, nn, "fp32" if to16 else "fp16", (2, 3), (1, 2), "x"); y = tensor(env, nn, "fp16" if to16 else "fp32", (2, 3), (1, 2)); (ct.fp32_to_fp16_async if to16 else ct.fp16_to_fp32_async)(x, y); env.eq("y", y, x.data)

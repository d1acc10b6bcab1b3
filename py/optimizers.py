import os, tempfile
from base import *
from layers import combos
PSH = [[((2, 3), (1, 2)), ((2,), (2,))], [((), ()), ((3,), (2,))], [((1, 1, 2), (1, 1, 1)), ((3,), (2,))]]
def make_params(env, nn, dt, which): return [moments(env, nn, dt, s, t, "p%d" % k) for k, (s, t) in enumerate(PSH[which])]
def hyper(env, names, kinds):
    """kind: z = 0, s = symbol in (0,1), p = positive symbol, else the number"""
    return {n: env.num(0) if k == "z" else env.var(n, 2) if k == "s" else env.var(n, 1) if k == "p" else k for n, k in zip(names, kinds)}
def step(env, opt, ps, k, spec, grad_kept=None):
    gs = [env.fill(p.grad, "g%d_%d" % (k, i)) for i, p in enumerate(ps)]; opt.step()
    for i, p in enumerate(ps): env.eq("parameter %d after step %d" % (i, k), p.value, spec(i, gs[i]))
def docut(t):
    if S.ENV.sym and t.alive: t.data = vmap(lambda v: cut(v) if isinstance(v, T) else v, t.data)
def run(env, opt, ps, spec, steps, first=1):
    """values reached after a step are abstracted by fresh symbols (shared by code and specification)"""
    for k in range(first, first + steps):
        step(env, opt, ps, k, spec); spec.cut()
        for t in S.Tensor.made: docut(t)
        if env.sym:   # equal by the assertion above: continue from the specification's form of the value
            for i, p in enumerate(ps): p.value.set(spec.p[i])
def kut(a): return vmap(cut, a) if S.ENV.sym and isinstance(a, np.ndarray) else cut(a) if S.ENV.sym and isinstance(a, T) else a
# ---- published recurrences
class SpecAdam:
    def __init__(s, env, ps, lr, b1, b2, eps, wd, decoupled, amsgrad=False):
        s.e, s.lr, s.b1, s.b2, s.eps, s.wd, s.dec, s.ams = env, lr, b1, b2, eps, wd, decoupled, amsgrad
        s.p = [old(p.value) for p in ps]; s.m = [0 for _ in ps]; s.r = [0 for _ in ps]; s.mx = [None for _ in ps]; s.t = [0 for _ in ps]
    def __call__(s, i, g):
        s.t[i] += 1; t = s.t[i]; lr = s.lr(t) if callable(s.lr) else s.lr; p = s.p[i]
        if s.dec: p = p - lr * s.wd * p
        else: g = g + s.wd * p
        s.m[i] = s.b1 * s.m[i] + (1 - s.b1) * g; v = s.b2 * s.r[i] * s.r[i] + (1 - s.b2) * g * g
        r = s.r[i] = vmap(fsqrt, v)     # square root of the second moment; sqrt is monotone: sqrt(max v) = max sqrt(v)
        if s.ams: r = s.mx[i] = r if s.mx[i] is None else vmap(S.fmax, r, s.mx[i])
        mh = s.m[i] / (1 - s.b1 ** t); p = s.p[i] = p - lr * mh / (r / fsqrt(1 - s.b2 ** t) + s.eps)
        return p
    def cut(s):
        for l in (s.p, s.m, s.r, s.mx): l[:] = [kut(x) for x in l]
class SpecSGD:
    def __init__(s, ps, lr, mom, nesterov, wd, damp):
        s.lr, s.mom, s.nes, s.wd, s.d = lr, mom, nesterov, wd, damp; s.p = [old(p.value) for p in ps]; s.b = [None for _ in ps]
    def __call__(s, i, g):
        g = g + s.wd * s.p[i]
        if s.mom is not None:
            s.b[i] = g if s.b[i] is None else s.mom * s.b[i] + (1 - s.d) * g
            g = g + s.mom * s.b[i] if s.nes else s.b[i]
        s.p[i] = s.p[i] - s.lr * g; return s.p[i]
    def cut(s):
        for l in (s.p, s.b): l[:] = [kut(x) for x in l]
DT = {"fp32": "float32", "fp64": "float64"}
def npdt(nn, dt): import nntile.optimizer.adam as A; return getattr(A.np, DT[dt])
@entry("C27", *grid(mom=["z", "s"], nesterov=[False, True], wd=["z", "p"], damp=["z", "s"], dt=["fp32", "fp64"], which=[0, 1]))
def e_sgd(env, nn, mom, nesterov, wd, damp, dt, which, steps=3):
    ps = make_params(env, nn, dt, which); h = hyper(env, ["lr", "momentum", "weight_decay", "damping"], ["p", mom, wd, damp])
    spec = SpecSGD(ps, h["lr"], None if mom == "z" else h["momentum"], nesterov, h["weight_decay"], h["damping"])
    opt = nn.optimizer.SGD(ps, h["lr"], Tag.n, h["momentum"], nesterov, h["weight_decay"], h["damping"], npdt(nn, dt)); run(env, opt, ps, spec, steps)
def make_adam(env, nn, ps, kind, h, dt, **k):
    if kind in ("adam", "amsgrad"): return nn.optimizer.Adam(ps, h["lr"], Tag.n, h["beta1"], h["beta2"], kind == "amsgrad", h["wd"], h["eps"], npdt(nn, dt))
    return getattr(nn.optimizer, kind)(ps, h["lr"], Tag.n, h["beta1"], h["beta2"], h["wd"], h["eps"], npdt(nn, dt), **k)
def adam_hyper(env, wd, eps): return hyper(env, ["lr", "beta1", "beta2", "wd", "eps"], ["p", "s", "s", wd, eps])
@entry("C27", *grid(kind=["adam", "amsgrad", "FusedAdam", "FusedAdamW"], wd=["z", "p"], dt=["fp32", "fp64"], which=[1], steps=[3]), thorough=grid(kind=["adam", "amsgrad", "FusedAdam", "FusedAdamW"], wd=["z", "p"], dt=["fp32"], which=[0], steps=[5]))
def e_adam(env, nn, kind, wd, dt, which, steps):
    ps = make_params(env, nn, dt, which); h = adam_hyper(env, wd, "p"); spec = SpecAdam(env, ps, h["lr"], h["beta1"], h["beta2"], h["eps"], h["wd"], kind == "FusedAdamW", kind == "amsgrad")
    opt = make_adam(env, nn, ps, kind, h, dt); run(env, opt, ps, spec, steps)
def ramp(start, full, n): return lambda t: start + (full - start) * ((t - 1) * (1 / env_num(n - 1))) if n > 1 and t < n else full
def env_num(x): return S.ENV.num(x)
@entry("C27", *grid(kind=["FusedAdam", "FusedAdamW"], n=[0, 1, 2, 3, 4], wd=["z", "p"]))
def e_warm_up(env, nn, kind, n, wd, steps=5):
    """learning rate from start_lr (first step) linearly to lr (step full_lr_iter and later)"""
    ps = [moments(env, nn, "fp32", (2,), (1,), "p")]; h = adam_hyper(env, wd, "p"); s0 = env.var("start_lr", 1)
    spec = SpecAdam(env, ps, ramp(s0, h["lr"], n), h["beta1"], h["beta2"], h["eps"], h["wd"], kind == "FusedAdamW"); opt = make_adam(env, nn, ps, kind, h, "fp32", start_lr=s0, full_lr_iter=n); run(env, opt, ps, spec, steps)
# ---- save and load
SAVE = [dict(kind="adam"), dict(kind="amsgrad"), dict(kind="FusedAdam"), dict(kind="FusedAdamW"), dict(kind="FusedAdam", warm=True), dict(kind="FusedAdamW", warm=True)]
@entry("C28", *combos(SAVE, grid(k=[0, 1, 2], dt=["fp32"], which=[0, 1], wd=["z", "p"])), *combos(SAVE[:4], grid(k=[1], dt=["fp64"], which=[0], wd=["p"])), thorough=combos(SAVE, grid(k=[3, 4], dt=["fp32"], which=[1], wd=["z", "p"])))
def e_resume(env, nn, kind, k, dt, which, wd, warm=False):
    """k steps, save, load into an optimizer created with other hyper-parameters, 2 more steps: like k+2 steps without the interruption"""
    ps = make_params(env, nn, dt, 2 * which); h = adam_hyper(env, wd, "p"); lr = h["lr"]; kw = {}
    if warm: s0 = env.var("start_lr", 1); lr = ramp(s0, lr, k + 2); kw = dict(start_lr=s0, full_lr_iter=k + 2)
    spec = SpecAdam(env, ps, lr, h["beta1"], h["beta2"], h["eps"], h["wd"], kind == "FusedAdamW", kind == "amsgrad")
    opt = make_adam(env, nn, ps, kind, h, dt, **kw); run(env, opt, ps, spec, k)
    if k == 0:    # nothing to save before the first step of the core implementation: its states are not written yet
        for t in opt.first_moments + opt.second_moments + getattr(opt, "max_second_moments", []): env.fill(t, "s%d" % t.tag)
    fd, path = tempfile.mkstemp(prefix="nsym_state_"); os.close(fd)
    try:
        opt.save_state(path); other = hyper(env, ["o_lr", "o_beta1", "o_beta2", "o_wd", "o_eps"], ["p", "s", "s", "p", "p"]); other = {n[2:]: v for n, v in other.items()}
        opt2 = make_adam(env, nn, ps, kind, other, dt, **(dict(start_lr=env.var("o_start", 1), full_lr_iter=7) if k % 2 and kind.startswith("Fused") else {}))
        for t in opt.first_moments + opt.second_moments: t.unregister()
        opt2.load_state(path)
    finally: os.unlink(path)
    env.check("step count", opt2.num_iter == k + 1); run(env, opt2, ps, spec, 2, first=k + 1)

"""Symbolic execution of the Python layer of NNTile.

The real modules of wrappers/python/nntile are imported and run; only the compiled extension
nntile_core is replaced.  Its tensors hold symbolic reals (class T, terms of the same engine and the
same decision procedure as the C++ checks) or, for the replay of a counterexample, Python floats.
Each core operation is replaced by its contract, i.e. by what the C++ checks of this framework
decide about it on every tiling."""
import ctypes, math, os, re, sys, types, subprocess, hashlib, importlib
from fractions import Fraction
import numpy as np
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NNTILE_REPO", "/repo")
WRAP = os.path.join(REPO, "wrappers/python/nntile")

class Violation(Exception): pass
class Inconclusive(Exception): pass

# ---------------------------------------------------------------- terms
L = None
def lib():
    global L
    if L is not None: return L
    e = os.path.join(V, "engine"); b = os.path.join(V, "build")
    src = [os.path.join(e, f) for f in ("pyterm.cpp", "term.cpp", "term.h")]
    k = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    so = os.path.join(b, "libpt-%s.so" % k)
    if not os.path.exists(so):
        os.makedirs(b, exist_ok=True); t = so + ".%d.%s" % (os.getpid(), os.urandom(3).hex())
        subprocess.run(["g++", "-std=c++17", "-O2", "-fPIC", "-shared", "-I" + e, src[0], src[1], "-o", t, "-lz3", "-lgmpxx", "-lgmp"], check=True)
        os.replace(t, so)
    L = ctypes.CDLL(so)
    L.t_float.argtypes = [ctypes.c_double, ctypes.c_int]
    L.t_var.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_double, ctypes.c_double]
    L.t_str.restype = ctypes.c_char_p; L.t_err.restype = ctypes.c_char_p; L.t_varname.restype = ctypes.c_char_p
    L.t_eval0.restype = ctypes.c_double; L.t_value.restype = ctypes.c_double
    return L

def _ck(h):
    if h < 0: raise Inconclusive("term engine: " + L.t_err().decode())
    return h

class T:
    __slots__ = ("h",)
    def __init__(s, h): s.h = _ck(h)
    def __reduce__(s): return (T, (s.h,))
    def __deepcopy__(s, m): return s
    def __add__(s, o): o = conv(o); return NotImplemented if o is None else T(L.t_add(s.h, o))
    __radd__ = __add__
    def __mul__(s, o): o = conv(o); return NotImplemented if o is None else T(L.t_mul(s.h, o))
    __rmul__ = __mul__
    def __sub__(s, o): o = conv(o); return NotImplemented if o is None else T(L.t_sub(s.h, o))
    def __rsub__(s, o): o = conv(o); return NotImplemented if o is None else T(L.t_sub(o, s.h))
    def __truediv__(s, o): o = conv(o); return NotImplemented if o is None else T(L.t_mul(s.h, _ck(L.t_inv(o))))
    def __rtruediv__(s, o): o = conv(o); return NotImplemented if o is None else T(L.t_mul(o, _ck(L.t_inv(s.h))))
    def __neg__(s): return s * -1
    def __pos__(s): return s
    def __abs__(s): return T(L.t_fun(b"abs", s.h))
    def __pow__(s, k):
        if isinstance(k, T):
            if not L.t_isconst(k.h): raise Inconclusive("symbolic exponent")
            k = L.t_eval0(k.h)
        k = float(k)
        if k == int(k): k = int(k); return T(L.t_pow(s.h, k)) if k >= 0 else 1 / T(L.t_pow(s.h, -k))
        if 2 * k == int(2 * k): return fsqrt(s) ** int(2 * k)
        raise Inconclusive("power %s of a symbol" % k)
    def sign(s):
        if L.t_isconst(s.h): v = L.t_eval0(s.h); return (v > 0) - (v < 0)
        if L.t_syntpos(s.h) or L.t_provepos(s.h) == 1: return 1
        n = s * -1
        if L.t_syntpos(n.h) or L.t_provepos(n.h) == 1: return -1
        return None
    def _cmp(s, o, f):
        g = (s - o).sign()
        if g is None: raise Inconclusive("branch on a symbolic comparison")
        return f(g)
    def __lt__(s, o): return s._cmp(o, lambda g: g < 0)
    def __le__(s, o): return s._cmp(o, lambda g: g <= 0)
    def __gt__(s, o): return s._cmp(o, lambda g: g > 0)
    def __ge__(s, o): return s._cmp(o, lambda g: g >= 0)
    # symbols stand for arbitrary, not special, values: only identical terms compare equal
    def __eq__(s, o):
        if o is None or isinstance(o, str): return False
        d = s - o; return isinstance(d, T) and bool(L.t_isconst(d.h)) and L.t_eval0(d.h) == 0
    def __ne__(s, o): return not s.__eq__(o)
    def __hash__(s): return s.h
    def __bool__(s): return s != 0
    def __float__(s):
        if L.t_isconst(s.h): return L.t_eval0(s.h)
        raise Inconclusive("a symbolic value is converted to float")
    def __repr__(s): return L.t_str(s.h, 8).decode()
    def sqrt(s): return fsqrt(s)

def conv(o):
    if isinstance(o, T): return o.h
    if isinstance(o, (bool, np.bool_)): return _ck(L.t_rat(b"1" if o else b"0"))
    if isinstance(o, (int, np.integer)): return _ck(L.t_rat(str(int(o)).encode()))
    if isinstance(o, Fraction): return _ck(L.t_rat(str(o).encode()))
    if isinstance(o, (float, np.floating)):
        if not math.isfinite(o): raise Inconclusive("infinite or NaN constant in symbolic arithmetic")
        return _ck(L.t_float(float(o), 1 if isinstance(o, np.float32) else 0))
    return None

class Undef:
    """content of a tensor that nothing has written"""
    def _bad(s, *a): raise Violation("uninitialised tensor content is used")
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = __abs__ = __float__ = __gt__ = __lt__ = __eq__ = __ne__ = _bad
    __hash__ = None
    def __repr__(s): return "U"
    def __reduce__(s): return (_undef, ())
    def __deepcopy__(s, m): return s
def _undef(): return U
U = Undef()
NINF = float("-inf")

# ---------------------------------------------------------------- elementary functions on T, float, dual numbers
def _gelu(x): return 0.5 * x * (1 + math.erf(x / math.sqrt(2)))
def _dgelu(x): return 0.5 * (1 + math.erf(x / math.sqrt(2))) + x * math.exp(-x * x / 2) / math.sqrt(2 * math.pi)
def _gt(x): return x / (1 + math.exp(-2 * math.sqrt(2 / math.pi) * x * (1 + 0.044715 * x * x)))
def _dgt(x, h=1e-5): return (_gt(x + h) - _gt(x - h)) / (2 * h)
FLOATFUN = {"gelu": _gelu, "dgelu": _dgelu, "gelutanh": _gt, "dgelutanh": _dgt, "pos": lambda x: max(x, 0.0), "ispos": lambda x: 1.0 if x > 0 else 0.0, "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "abs": abs}
DERIV = {"gelu": lambda x, y: fun("dgelu", x), "gelutanh": lambda x, y: fun("dgelutanh", x), "pos": lambda x, y: fun("ispos", x), "exp": lambda x, y: y, "log": lambda x, y: 1 / x, "sqrt": lambda x, y: 1 / (2 * y)}
_exp_cut, _cuts = {}, {}
def is_num(x): return isinstance(x, (int, float, np.number, bool, np.bool_))
def _sameval(a, b):
    if isinstance(a, T) and isinstance(b, T): return a.h == b.h
    return not isinstance(a, T) and not isinstance(b, T) and a is not U and b is not U and abs(float(a) - float(b)) <= 1e-4 * (1e-2 + abs(float(a)) + abs(float(b)))
def fun(name, x):
    if isinstance(x, D): v = fun(name, x.v); return D(v, [(x, DERIV[name](x.v, v))])
    if isinstance(x, T):
        if name == "exp":
            # exp of a sum is abstracted by a fresh positive variable per argument (code and
            # specification share it; equality over the abstraction implies equality)
            if L.t_isconst(x.h) and L.t_eval0(x.h) == 0: return T(_ck(L.t_rat(b"1")))
            if x.h not in _exp_cut: _exp_cut[x.h] = T(L.t_cut(b"_E%d" % len(_exp_cut), 1))
            return _exp_cut[x.h]
        return T(L.t_fun(name.encode(), x.h))
    if x is U: U._bad()
    x = float(x)
    if name == "exp" and x == NINF: return 0.0
    return FLOATFUN[name](x)
def fsqrt(x): return fun("sqrt", x)
def cut(x):
    """abstracts a term by a fresh variable (shared between code and specification)"""
    if isinstance(x, D): return D(cut(x.v), [(x, 1)])
    if not isinstance(x, T) or L.t_nterms(x.h) <= 1: return x
    if x.h not in _cuts: _cuts[x.h] = T(L.t_cut(b"_C%d" % len(_cuts), 1 if L.t_syntpos(x.h) else 0))
    return _cuts[x.h]
def vmap(f, *a):
    a = [x if isinstance(x, np.ndarray) else _sc(x) for x in a]   # numpy turns results of 0-dimensional arithmetic into scalars
    return np.frompyfunc(f, len(a), 1)(*a) if a[0].shape != () else _sc(f(*[x[()] for x in a]))
def _sc(v): r = np.empty((), object); r[()] = v; return r

# ---------------------------------------------------------------- specification side: reverse-mode differentiation
class D:
    tape = []
    __slots__ = ("v", "par", "k", "cutadj")
    def __init__(s, v, par=()): s.v = v; s.par = list(par); s.k = len(D.tape); s.cutadj = False; D.tape.append(s)
    @staticmethod
    def of(o): return o if isinstance(o, D) else None
    def __add__(s, o):
        if isinstance(o, D): return D(s.v + o.v, [(s, 1), (o, 1)])
        return D(s.v + o, [(s, 1)])
    __radd__ = __add__
    def __mul__(s, o):
        if isinstance(o, D): return D(s.v * o.v, [(s, o.v), (o, s.v)])
        return D(s.v * o, [(s, o)])
    __rmul__ = __mul__
    def __neg__(s): return s * -1
    def __sub__(s, o): return s + (-1) * o
    def __rsub__(s, o): return (-1) * s + o
    def inv(s): i = 1 / s.v; return D(i, [(s, -1 * i * i)])
    def __truediv__(s, o): return s * (o.inv() if isinstance(o, D) else 1 / o)
    def __rtruediv__(s, o): return s.inv() * o
    def __repr__(s): return "D(%r)" % (s.v,)
def lift(a): return vmap(lambda x: D(x), a)
def val(a): return vmap(lambda x: x.v if isinstance(x, D) else x, a)
def mark_cut_adj(a):
    for x in a.reshape(-1): x.cutadj = True
    return a
def grads(pairs, wanted):
    """pairs: [(array of D, array of adjoints)]; wanted: arrays of D; returns arrays of adjoints (additive)"""
    adj = {}
    for a, g in pairs:
        for x, y in zip(a.reshape(-1), g.reshape(-1)):
            adj[x.k] = adj[x.k] + y if x.k in adj else y
    for n in reversed(D.tape):
        g = adj.get(n.k)
        if g is None: continue
        if n.cutadj: g = adj[n.k] = cut(g)
        for p, d in n.par:
            c = g if (is_num(d) and d == 1) else g * d
            adj[p.k] = adj[p.k] + c if p.k in adj else c
    return [vmap(lambda x: adj.get(x.k, 0), a) for a in wanted]

# ---------------------------------------------------------------- environment: symbols or floats
class Env:
    def __init__(s, sym, assign=None, seed=1):
        s.sym = sym; s.assign = assign or {}; s.rng = np.random.RandomState(seed); s.names = []; s.log = []; s.checks = 0
        s.pending = []; s.known = {}; Tensor.made.clear()
        D.tape.clear(); _exp_cut.clear(); _cuts.clear()
    def var(s, name, kind=0, lo=0.0, hi=1.0):
        s.names.append(name)
        if s.sym: return T(L.t_var(name.encode(), kind, lo, hi))
        if name in s.assign: return float(s.assign[name])
        r = s.rng.uniform(-1, 1)
        return 0.25 + abs(r) if kind == 1 else lo + (hi - lo) * (0.02 + 0.48 * (r + 1)) if kind == 2 else r
    def array(s, name, shape, kind=0, lo=0.0, hi=1.0):
        a = np.empty(tuple(shape), object)
        for i in np.ndindex(*shape): a[i] = s.var(name + "_" + "_".join(map(str, i)), kind, lo, hi)
        return a
    def num(s, x): return T(conv(x)) if s.sym else float(x)
    def zeros(s, shape): a = np.empty(tuple(shape), object); a[...] = s.num(0); return a
    def consts(s, shape, x): a = np.empty(tuple(shape), object); a[...] = s.num(x); return a
    def fill(s, t, name, **k):
        """arbitrary contents for a tensor"""
        t.data = s.array(name, t.shape, **k); return t.data.copy()
    def eq(s, what, got, want, known=None, rest=False):
        """known: (label, value) of a known finding: a value other than `want` that equals it is reported under the label; rest: accept that value"""
        if rest and known is not None:
            g, w, k = (x.data if isinstance(x, Tensor) else x if isinstance(x, np.ndarray) else _sc(x) for x in (got, want, known[1]))
            if not all(_sameval(a, b) for a, b in zip(g.reshape(-1), w.reshape(-1))): want = k
            known = None
        got = got.data if isinstance(got, Tensor) else got
        got, want = (x if isinstance(x, np.ndarray) else _sc(x) for x in (got, want))
        if got.shape != want.shape: raise Violation("%s: shape %s instead of %s" % (what, got.shape, want.shape))
        for i in np.ndindex(*got.shape):
            a, b = got[i], want[i]; s.checks += 1
            if a is U: raise Violation("%s%s is never written" % (what, list(i)))
            s.pending.append((what + str(list(i)), a, b))
            if known is not None and not s.sym: s.known[what + str(list(i))] = (known[0], (known[1] if isinstance(known[1], np.ndarray) else _sc(known[1]))[i])
    def check(s, what, ok):
        s.checks += 1
        if not ok: raise Violation(what)
    def verdict(s, tol=2e-4):
        """list of (what, witness) of the comparisons that fail"""
        bad = []
        if not s.sym:
            for w, a, b in s.pending:
                a, b = float(a), float(b); near = lambda a, b: a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol * (1e-2 + abs(a) + abs(b))) or (math.isnan(a) and math.isnan(b))
                if not near(a, b): k = s.known.get(w); bad.append((w + (" " + k[0] if k and near(a, float(k[1])) else ""), (a, b)))
            s.pending = []; return bad
        n = len(s.pending); A, B, O = (ctypes.c_int * n)(), (ctypes.c_int * n)(), (ctypes.c_int * n)()
        idx = []
        for i, (w, a, b) in enumerate(s.pending):
            if (is_num(a) and not math.isfinite(a)) or (is_num(b) and not math.isfinite(b)):
                A[i] = B[i] = conv(0)
                if not (is_num(a) and is_num(b) and a == b): bad.append((w, {}))
                continue
            A[i], B[i] = conv(a), conv(b)
        r = L.t_prove(A, B, n, O)
        if r < 0: raise Inconclusive("z3 contradicts the term rewriting")
        nv = L.t_nvars(); vals = (ctypes.c_double * max(1, nv))()
        for i in range(n):
            if O[i]:
                k = L.t_witness(A[i], B[i], vals)
                bad.append((s.pending[i][0], {L.t_varname(j).decode(): vals[j] for j in range(nv)} if k else None))
        s.pending = []; return bad

# ---------------------------------------------------------------- the core extension, by contract
class TransOp:
    def __init__(s, n): s.n = n
    def __repr__(s): return s.n
notrans, trans = TransOp("notrans"), TransOp("trans")
class TileTraits:
    def __init__(s, shape):
        s.shape = [int(x) for x in shape]; s.ndim = len(s.shape); s.stride = []; n = 1
        for x in s.shape: s.stride.append(n); n *= x
        s.nelems = n
    def linear_to_index(s, k):
        if not 0 <= k < s.nelems: raise RuntimeError("linear_to_index")
        r = []
        for x in s.shape: r.append(k % x); k //= x
        return r
    def index_to_linear(s, ix):
        if len(ix) != s.ndim or any(not 0 <= a < b for a, b in zip(ix, s.shape)): raise RuntimeError("index_to_linear")
        return sum(a * b for a, b in zip(ix, s.stride))
class TensorTraits(TileTraits):
    def __init__(s, shape, basetile):
        super().__init__(shape); s.basetile_shape = [int(x) for x in basetile]
        if len(s.basetile_shape) != s.ndim or any(b <= 0 for b in s.basetile_shape) or any(x < 0 for x in s.shape): raise RuntimeError("invalid base tile")
        s.grid = TileTraits([-(-a // b) for a, b in zip(s.shape, s.basetile_shape)])
def _list(x):  # pybind converts C++ vectors to fresh lists
    return list(x)
class Tensor:
    made = []
    invalidate_is_noop = True
    def __init__(s, traits, distr, tag):
        if not isinstance(traits, TensorTraits): raise TypeError("TensorTraits")
        if len(distr) != traits.grid.nelems: raise RuntimeError("wrong distribution")
        s.tr = traits; s._distr = [int(x) for x in distr]; s.tag = tag; s.next_tag = tag + traits.grid.nelems
        s.data = np.empty(tuple(traits.shape), object); s.data[...] = U; s.redop = None; s.alive = True; s.cutval = False; Tensor.made.append(s)
    shape = property(lambda s: _list(s.tr.shape)); basetile_shape = property(lambda s: _list(s.tr.basetile_shape))
    stride = property(lambda s: _list(s.tr.stride)); ndim = property(lambda s: s.tr.ndim); nelems = property(lambda s: s.tr.nelems)
    grid = property(lambda s: s.tr.grid); distribution = property(lambda s: _list(s._distr))
    def set_reduction_add(s): s.redop = "add"
    def set_reduction_hypot(s): s.redop = "hypot"
    def set_reduction_maxsumexp(s): s.redop = "maxsumexp"
    def unregister(s): s.alive = False
    def wont_use(s): s.need()
    def invalidate_submit(s):
        s.need()
        if not Tensor.invalidate_is_noop: s.data = np.empty(s.data.shape, object); s.data[...] = U
    def print_scalar_async(s): pass
    def need(s):
        if not s.alive: raise RuntimeError("tensor is unregistered")
    def from_array(s, a):
        s.need(); a = getattr(a, "arr", a); a = np.asarray(a)
        if s.ndim == 0:
            if a.ndim != 1: raise RuntimeError("array.ndim() != 1")
            if a.shape != (1,): raise RuntimeError("array.shape()[0] != 1")
            s.data = _sc(s.elem(a[0])); return
        if list(a.shape) != s.shape: raise RuntimeError("array.shape()[i] != tensor.shape[i]")
        d = np.empty(a.shape, object)
        for i in np.ndindex(*a.shape): d[i] = s.elem(a[i])
        s.data = d
    def elem(s, x):
        if x is U or isinstance(x, T): return x
        return int(x) if s.dtype == "int64" else bool(x) if s.dtype == "bool" else float(x)
    def to_array(s, a):
        s.need(); b = getattr(a, "arr", a)
        if s.ndim == 0:
            if b.ndim != 1: raise RuntimeError("array.ndim() != 1")
            if b.shape != (1,): raise RuntimeError("array.shape()[0] != 1")
            b[0] = s.data[()]; return
        if list(b.shape) != s.shape: raise RuntimeError("array.shape()[i] != tensor.shape[i]")
        b[...] = s.data
    def set(s, d):
        s.need(); d = d if isinstance(d, np.ndarray) else _sc(d)
        if d.shape != tuple(s.shape): raise RuntimeError("shape")
        s.data = vmap(cut, d) if s.cutval and d.size else d.copy()
def _mk(dt): return type("Tensor_" + dt, (Tensor,), {"dtype": dt})
TYPES = {d: _mk(d) for d in ("fp32", "fp64", "fp16", "int64", "bool")}

def z0(x):
    return (isinstance(x, T) and bool(L.t_isconst(x.h)) and L.t_eval0(x.h) == 0) or (is_num(x) and x == 0)
def conf(ok, what):
    if not ok: raise RuntimeError(what)
def typ(ok, what):
    if not ok: raise TypeError("incompatible function arguments: " + what)
def same(*t):
    for x in t[1:]: conf(x.shape == t[0].shape and x.basetile_shape == t[0].basetile_shape, "operands differ in shape or base tile")
def reads(*ts):
    for t in ts:
        t.need()
        for x in t.data.reshape(-1):
            if x is U: raise Violation("an operation reads a tensor that was never written")
def upd(beta, old, new):
    """beta*old + new, old not read for beta = 0"""
    return new if z0(beta) else beta * old.data + new
def chk_redux(redux, t, kind):
    if redux and t.redop != kind: raise Violation("reduction requested on a tensor whose reduction is %s instead of %s" % (t.redop, kind))
def tot(a): return a.sum() if isinstance(a, np.ndarray) else a
def drop(l, axis): return l[:axis] + l[axis + 1:]
def bslice(d, axis): return np.expand_dims(d, axis)

class Ops:
    @staticmethod
    def gemm(alpha, ta, A, tb, B, beta, C, ndim, batch_ndim, redux=0):
        for q in (ta, tb):
            if not isinstance(q, TransOp): raise TypeError("TransOp")
        chk_redux(redux, C, "add")
        na, nb, b = A.ndim, B.ndim, batch_ndim
        conf(ndim >= 0 and b >= 0 and na >= b + ndim and nb >= b + ndim and C.ndim == na + nb - b - 2 * ndim, "gemm dimensions")
        def split(X, t, first):
            m = X.ndim - b; s = list(zip(X.shape, X.basetile_shape)); k = ndim
            lead = (t is trans) if first else (t is notrans)
            return (s[k:m], s[:k], s[m:], True) if lead else (s[:m - k], s[m - k:m], s[m:], False)
        fa, ka, ba, la = split(A, ta, True); fb, kb, bb, lb = split(B, tb, False)
        conf(ka == kb and ba == bb and list(zip(C.shape, C.basetile_shape)) == fa + fb + ba, "gemm shapes")
        reads(A, B)
        if not z0(beta): reads(C)
        p = lambda s: int(np.prod([x for x, _ in s], dtype=int))
        m, n, k, q = p(fa), p(fb), p(ka), p(ba)
        a = A.data.reshape((k, m, q) if la else (m, k, q)); bm = B.data.reshape((k, n, q) if lb else (n, k, q))
        r = np.empty((m, n, q), object)
        for i in range(m):
            for j in range(n):
                for e in range(q):
                    s = 0
                    for l in range(k): s = s + (a[l, i, e] if la else a[i, l, e]) * (bm[l, j, e] if lb else bm[j, l, e])
                    r[i, j, e] = alpha * s
        C.set(upd(beta, C, r.reshape(tuple(C.shape))))
    gemm_ex = gemm
    @staticmethod
    def inplace(name):
        def f(x): reads(x); x.set(vmap(lambda v: fun(name, v), x.data))
        return f
    @staticmethod
    def fwd(name):
        def f(x, y): same(x, y); reads(x); y.set(vmap(lambda v: fun(name, v), x.data))
        return f
    @staticmethod
    def bwd(name):
        def f(x, dy, dx): same(x, dy, dx); reads(x, dy, dx); dx.set(dx.data + dy.data * vmap(lambda v: fun(name, v), x.data))
        return f
    def fill(val, x): a = np.empty(tuple(x.shape), object); a[...] = val; x.set(a)
    def clear(x): Ops.fill(0 if x.dtype in ("int64", "bool") else T(conv(0)) if L is not None and ENV.sym else 0.0, x)
    def sum_slice(alpha, x, beta, y, axis, redux=0):
        conf(0 <= axis < x.ndim and y.shape == drop(x.shape, axis) and y.basetile_shape == drop(x.basetile_shape, axis), "sum_slice shapes"); chk_redux(redux, y, "add")
        reads(x); z0(beta) or reads(y); y.set(upd(beta, y, alpha * x.data.sum(axis=axis)))
    def sum_fiber(alpha, x, beta, y, axis, batch_ndim, redux=0):
        conf(0 <= axis < x.ndim - batch_ndim and y.shape == [x.shape[axis]] + x.shape[x.ndim - batch_ndim:] and y.basetile_shape == [x.basetile_shape[axis]] + x.basetile_shape[x.ndim - batch_ndim:], "sum_fiber shapes"); chk_redux(redux, y, "add")
        reads(x); z0(beta) or reads(y)
        y.set(upd(beta, y, alpha * x.data.sum(axis=tuple(i for i in range(x.ndim - batch_ndim) if i != axis))))
    def norm_slice(alpha, x, beta, y, axis, redux=0):
        conf(0 <= axis < x.ndim and y.shape == drop(x.shape, axis) and y.basetile_shape == drop(x.basetile_shape, axis), "norm_slice shapes"); chk_redux(redux, y, "hypot")
        reads(x); z0(beta) or reads(y); s = (alpha * alpha) * (x.data * x.data).sum(axis=axis)
        if not z0(beta): s = s + (beta * beta) * y.data * y.data
        y.set(vmap(fsqrt, s))
    def pow(alpha, e, x): reads(x); x.set(vmap(lambda v: alpha * v ** e, x.data))
    def _mse(x, m, axis):
        reads(x, m); conf(m.shape == [2] + drop(x.shape, axis) and m.basetile_shape == [2] + drop(x.basetile_shape, axis), "maxsumexp shapes")
        r = m.data.copy(); r[0] = vmap(lambda v: 0, r[0]); r[1] = r[1] + vmap(lambda v: fun("exp", v), x.data).sum(axis=axis); m.set(r)
    def maxsumexp(x, m, axis, redux=0): conf(0 <= axis < x.ndim, "axis"); chk_redux(redux, m, "maxsumexp"); Ops._mse(x, m, axis)
    def _sm(m, x, alpha, axis):
        conf(m.shape == [2] + drop(x.shape, axis) and m.basetile_shape == [2] + drop(x.basetile_shape, axis), "softmax shapes"); reads(m, x)
        return alpha * (vmap(lambda v: fun("exp", v), x.data) / bslice(m.data[1], axis))
    def softmax(m, x, alpha, y, axis): same(x, y); y.set(Ops._sm(m, x, alpha, axis))
    def softmax_inplace(m, alpha, x, axis): x.set(Ops._sm(m, x, alpha, axis))
    def logsumexp(m, l): conf(m.shape == [2] + l.shape and m.basetile_shape == [2] + l.basetile_shape, "logsumexp shapes"); reads(m); l.set(vmap(lambda s: fun("log", s), m.data[1]))
    def _copy(x, y): conf(x.shape == y.shape, "shapes differ"); reads(x); y.set(x.data)
    def copy(x, y): Ops._copy(x, y)
    def scatter(x, y): conf(x.grid.nelems == 1, "source of scatter must be one tile"); Ops._copy(x, y)
    def gather(x, y): conf(y.grid.nelems == 1, "destination of gather must be one tile"); Ops._copy(x, y)
    def copy_intersection(x, xo, y, yo):
        conf(x.ndim == y.ndim == len(xo) == len(yo), "ndim"); r = y.data.copy()
        for i in np.ndindex(*x.shape):
            j = tuple(a + b - c for a, b, c in zip(i, xo, yo))
            if all(0 <= q < n for q, n in zip(j, y.shape)): r[j] = x.data[i]
        y.set(r)
    def randn(x, start, shape, seed, mean, dev):
        conf(len(start) == x.ndim and len(shape) == x.ndim, "randn"); a = np.empty(tuple(x.shape), object)
        for i in np.ndindex(*x.shape): a[i] = mean + dev * ENV.var("rnd%d_%s_%s" % (seed, "_".join(str(p + q) for p, q in zip(i, start)), "_".join(map(str, shape))))
        x.set(a)
    def prod(x, y): same(x, y); reads(x, y); y.set(x.data * y.data)
    def add(alpha, x, beta, y): same(x, y); z0(alpha) or reads(x); z0(beta) or reads(y); y.set(upd(beta, y, alpha * x.data if not z0(alpha) else vmap(lambda v: 0, x.data)))
    def axpy(alpha, x, y):
        same(x, y); reads(x, y)
        if isinstance(alpha, Tensor): conf(alpha.ndim == 0, "alpha"); reads(alpha); alpha = alpha.data[()]
        y.set(y.data + alpha * x.data)
    def nrm2(alpha, x, beta, y, tmp):
        conf(y.ndim == 0 and tmp.shape == x.grid.shape and all(b == 1 for b in tmp.basetile_shape), "nrm2 shapes"); reads(x); z0(beta) or reads(y)
        s = (alpha * alpha) * tot(x.data * x.data)
        if not z0(beta): s = s + beta * beta * y.data[()] * y.data[()]
        tmp.set(ENV.array("nrm2tmp%d" % len(ENV.names), tmp.shape)); y.set(_sc(fsqrt(s)))
    def normalize(gb, x, y, l, eps, axis): raise Inconclusive("normalize")
    def add_slice(alpha, s, beta, x, axis):
        conf(0 <= axis < x.ndim and s.shape == drop(x.shape, axis) and s.basetile_shape == drop(x.basetile_shape, axis), "add_slice shapes"); reads(s); z0(beta) or reads(x)
        x.set(upd(beta, x, np.broadcast_to(alpha * bslice(s.data, axis), tuple(x.shape))))
    def add_slice3(alpha, s, beta, x, y, axis):
        conf(0 <= axis < x.ndim and s.shape == drop(x.shape, axis) and s.basetile_shape == drop(x.basetile_shape, axis), "add_slice3 shapes"); same(x, y); reads(s, x)
        y.set(beta * x.data + alpha * bslice(s.data, axis))
    def add_fiber(alpha, f, beta, x, axis, batch_ndim):
        conf(0 <= axis < x.ndim - batch_ndim and f.shape == [x.shape[axis]] + x.shape[x.ndim - batch_ndim:] and f.basetile_shape == [x.basetile_shape[axis]] + x.basetile_shape[x.ndim - batch_ndim:], "add_fiber shapes"); reads(f); z0(beta) or reads(x)
        d = f.data.reshape([1] * axis + [x.shape[axis]] + [1] * (x.ndim - batch_ndim - axis - 1) + x.shape[x.ndim - batch_ndim:])
        x.set(upd(beta, x, np.broadcast_to(alpha * d, tuple(x.shape))))
    def prod_slice(s, alpha, x, axis):
        conf(0 <= axis < x.ndim and s.shape == drop(x.shape, axis) and s.basetile_shape == drop(x.basetile_shape, axis), "prod_slice shapes"); reads(s, x); x.set(alpha * bslice(s.data, axis) * x.data)
    def _fib(f, x, axis): conf(0 <= axis < x.ndim and f.shape == [x.shape[axis]] and f.basetile_shape == [x.basetile_shape[axis]], "fiber shapes"); reads(f, x); return f.data.reshape([x.shape[i] if i == axis else 1 for i in range(x.ndim)])
    def prod_fiber(f, alpha, x, axis): x.set(alpha * Ops._fib(f, x, axis) * x.data)
    def prod_fiber3(f, alpha, x, y, axis): same(x, y); y.set(alpha * Ops._fib(f, x, axis) * x.data)
    def add_scalar(alpha, beta, x): reads(x); x.set(beta * x.data + alpha)
    def sqrt(x, y): same(x, y); reads(x); y.set(vmap(fsqrt, x.data))
    def sqrt_inplace(x): reads(x); x.set(vmap(fsqrt, x.data))
    def maximum(x, y): same(x, y); reads(x, y); y.set(vmap(fmax, x.data, y.data))
    def addcdiv(alpha, eps, nom, den, src): same(nom, den, src); reads(nom, den, src); src.set(src.data + alpha * nom.data / (den.data + eps))
    def sumprod_slice(alpha, a, b, beta, y, axis, redux=0):
        same(a, b); conf(0 <= axis < a.ndim and y.shape == drop(a.shape, axis) and y.basetile_shape == drop(a.basetile_shape, axis), "sumprod_slice shapes"); chk_redux(redux, y, "add"); reads(a, b); z0(beta) or reads(y)
        y.set(upd(beta, y, alpha * (a.data * b.data).sum(axis=axis)))
    def sumprod_fiber(alpha, a, b, beta, y, axis, redux=0):
        same(a, b); conf(0 <= axis < a.ndim and y.shape == [a.shape[axis]] and y.basetile_shape == [a.basetile_shape[axis]], "sumprod_fiber shapes"); chk_redux(redux, y, "add"); reads(a, b); z0(beta) or reads(y)
        y.set(upd(beta, y, alpha * (a.data * b.data).sum(axis=tuple(i for i in range(a.ndim) if i != axis))))
    def total_sum_accum(alpha, lse, src, labels, val):
        typ(isinstance(labels, TYPES["int64"]), "labels"); conf(lse.shape == src.shape[1:] == labels.shape and val.ndim == 0 and lse.basetile_shape == labels.basetile_shape == src.basetile_shape[1:] and src.basetile_shape[0] >= src.shape[0], "total_sum_accum shapes"); reads(lse, src, labels, val)
        s = val.data[()]
        for i in np.ndindex(*lse.shape): s = s + alpha * (lse.data[i] - src.data[(labels.data[i],) + i])
        val.set(_sc(s))
    def subtract_indexed_outputs(v, labels, dst):
        typ(isinstance(labels, TYPES["int64"]), "labels"); conf(labels.shape == dst.shape[1:] and labels.basetile_shape == dst.basetile_shape[1:] and dst.basetile_shape[0] >= dst.shape[0], "subtract_indexed_outputs shapes"); reads(labels, dst); r = dst.data.copy()
        for i in np.ndindex(*labels.shape): k = (labels.data[i],) + i; r[k] = r[k] - v
        dst.set(r)
    def scal(alpha, x, y): same(x, y); reads(x); y.set(alpha * x.data)
    def scal_inplace(alpha, x): reads(x); x.set(alpha * x.data)
    def mask_scalar(mask, val, x, batch_ndim):
        k = x.ndim - batch_ndim; typ(isinstance(mask, TYPES["bool"]), "mask"); conf(mask.shape == x.shape[:k] and mask.basetile_shape == x.basetile_shape[:k], "mask shapes"); reads(mask, x); r = x.data.copy()
        for i in np.ndindex(*x.shape):
            if not mask.data[i[:k]]: r[i] = NINF if is_num(val) and val == NINF else (T(conv(val)) if ENV.sym else float(val))
        x.set(r)
    def embedding(index, vocab, embed, axis):
        typ(isinstance(index, TYPES["int64"]), "index"); conf(embed.ndim == index.ndim + 1 and vocab.ndim == 2 and 0 <= axis < embed.ndim and drop(embed.shape, axis) == index.shape and drop(embed.basetile_shape, axis) == index.basetile_shape and embed.shape[axis] == vocab.shape[0] and embed.basetile_shape[axis] % vocab.basetile_shape[0] == 0 and vocab.basetile_shape[1] >= vocab.shape[1], "embedding shapes"); reads(index, vocab)
        r = np.empty(tuple(embed.shape), object)
        for i in np.ndindex(*embed.shape): r[i] = vocab.data[i[axis], index.data[i[:axis] + i[axis + 1:]]]
        embed.set(r)
    def embedding_backward(index, embed, vocab, axis, redux=0):
        chk_redux(redux, vocab, "add")
        typ(isinstance(index, TYPES["int64"]), "index"); conf(embed.ndim == index.ndim + 1 and vocab.ndim == 2 and 0 <= axis < embed.ndim and drop(embed.shape, axis) == index.shape and drop(embed.basetile_shape, axis) == index.basetile_shape and embed.shape[axis] == vocab.shape[0] and embed.basetile_shape[axis] % vocab.basetile_shape[0] == 0 and vocab.basetile_shape[1] >= vocab.shape[1], "embedding shapes"); reads(index, embed, vocab)
        r = vocab.data.copy()
        for i in np.ndindex(*embed.shape): k = (i[axis], index.data[i[:axis] + i[axis + 1:]]); r[k] = r[k] + embed.data[i]
        vocab.set(r)
    def hypot(alpha, x, beta, y):
        same(x, y); reads(x); z0(beta) or reads(y); s = (alpha * alpha) * x.data * x.data
        if not z0(beta): s = s + (beta * beta) * y.data * y.data
        y.set(vmap(fsqrt, s))
    def hypot_scalar_inverse(eps, alpha, x): reads(x); x.set(vmap(lambda v: 1 / fsqrt(eps * eps + alpha * alpha * v * v), x.data))
    def _adam(w):
        def f(k, b1, b2, eps, lr, wd, g, m, v, p):
            same(g, m, v, p); conf(isinstance(k, (int, np.integer)), "num_iter"); reads(g, p)
            if k != 1: reads(m, v)
            gd, pd = g.data, p.data
            if not z0(wd):
                if w: pd = pd - lr * wd * pd
                else: gd = gd + wd * pd
            md = (1 - b1) * gd if k == 1 else b1 * m.data + (1 - b1) * gd
            vd = vmap(fsqrt, (1 - b2) * gd * gd if k == 1 else (1 - b2) * gd * gd + b2 * v.data * v.data)
            m.set(md); v.set(vd)
            p.set(pd - lr / (1 - b1 ** k) * md / (vd / fsqrt(1 - b2 ** k) + eps))
        return f
    def transpose(alpha, src, dst, ndim):
        n = src.ndim; conf(0 <= ndim <= n and dst.ndim == n and dst.shape == src.shape[ndim:] + src.shape[:ndim] and dst.basetile_shape == src.basetile_shape[ndim:] + src.basetile_shape[:ndim], "transpose shapes"); reads(src)
        dst.set(alpha * src.data.transpose(list(range(ndim, n)) + list(range(ndim))))
    def fp32_to_fp16(x, y): typ(isinstance(x, TYPES["fp32"]) and isinstance(y, TYPES["fp16"]), "types"); same(x, y); reads(x); y.set(x.data)
    def fp16_to_fp32(x, y): typ(isinstance(x, TYPES["fp16"]) and isinstance(y, TYPES["fp32"]), "types"); same(x, y); reads(x); y.set(x.data)
    # flash attention: dense masked attention (C15)
    def _logits(Q, K, mask):
        h, s, B, H = Q.shape; r = np.empty((s, s, B, H), object)
        for k in range(s):
            for m in range(s):
                for b in range(B):
                    for e in range(H):
                        if not mask.data[k, m]: r[k, m, b, e] = NINF; continue
                        a = 0
                        for j in range(h): a = a + K.data[j, k, b, e] * Q.data[j, m, b, e]
                        r[k, m, b, e] = a * (1.0 / h ** 0.5) if ENV.sym else float(a) / h ** 0.5
        return r
    def _flash_ok(Q, K, V, mask, mse, tmp):
        for t in (K, V): same(Q, t)
        h, s, B, H = Q.shape; bt = Q.basetile_shape
        typ(isinstance(mask, TYPES["bool"]), "mask"); conf(bt[0] == h and mask.shape == [s, s] and mask.basetile_shape == [bt[1], bt[1]] and s % bt[1] == 0, "flash mask shapes")
        conf(mse.shape == [2, s, B, H] and mse.basetile_shape == [2] + bt[1:] and tmp.shape == [s, s, B, H] and tmp.basetile_shape == [bt[1], bt[1]] + bt[2:], "flash shapes")
    def flash_maxsumexp(Q, K, mask, mse, tmp, redux=0, tf32=0):
        Ops._flash_ok(Q, K, K, mask, mse, tmp); chk_redux(redux, mse, "maxsumexp"); reads(Q, K, mask, mse)
        r = mse.data.copy(); r[0] = vmap(lambda v: 0, r[0]); r[1] = r[1] + vmap(lambda v: fun("exp", v), Ops._logits(Q, K, mask)).sum(axis=0)
        mse.set(r); tmp.set(ENV.array("fl%d" % len(ENV.names), tmp.shape))
    def _flash_a(Q, K, mask, mse): return vmap(cut, vmap(lambda v: fun("exp", v), Ops._logits(Q, K, mask)) / mse.data[1][None])
    def flash_softmax_gemm(Q, K, V, mask, mse, dst, tmp, redux=0, tf32=0):
        Ops._flash_ok(Q, K, V, mask, mse, tmp); same(Q, dst); chk_redux(redux, dst, "add"); reads(Q, K, V, mask, mse)
        A = Ops._flash_a(Q, K, mask, mse); r = np.empty(tuple(dst.shape), object)
        for j, m, b, e in np.ndindex(*dst.shape): r[j, m, b, e] = (V.data[j, :, b, e] * A[:, m, b, e]).sum()
        dst.set(r); tmp.set(ENV.array("fl%d" % len(ENV.names), tmp.shape))
    def flash_softmax_gemm_backward(Q, dQ, K, dK, V, dV, mask, mse, g, tmp, tmpg, sps, redux=0, tf32=0):
        Ops._flash_ok(Q, K, V, mask, mse, tmp); same(Q, dQ, dK, dV, g); same(tmp, tmpg); conf(sps.shape == mse.shape[1:] and sps.basetile_shape == mse.basetile_shape[1:], "flash shapes")
        for t in (dQ, dK, dV, sps): chk_redux(redux, t, "add")
        reads(Q, K, V, mask, mse, g); h, s, B, H = Q.shape; A = Ops._flash_a(Q, K, mask, mse); c = 1.0 / h ** 0.5
        dq, dk, dv = (np.zeros(tuple(Q.shape), object) for _ in range(3)); sp = np.zeros((s, B, H), object)
        for b in range(B):
            for e in range(H):
                G, a = g.data[:, :, b, e], A[:, :, b, e]
                dA = V.data[:, :, b, e].T.dot(G); sp[:, b, e] = (a * dA).sum(axis=0); dS = a * (dA - sp[:, b, e][None])
                for k in range(s):
                    for m in range(s):
                        if not mask.data[k, m]: dS[k, m] = 0 * dS[k, m]
                dv[:, :, b, e] = G.dot(a.T); dk[:, :, b, e] = c * Q.data[:, :, b, e].dot(dS.T); dq[:, :, b, e] = c * K.data[:, :, b, e].dot(dS)
        dQ.set(dq); dK.set(dk); dV.set(dv); sps.set(sp)
        for t in (tmp, tmpg): t.set(ENV.array("fl%d" % len(ENV.names), t.shape))
def fmax(a, b):
    if isinstance(a, T) or isinstance(b, T):
        a, b = T(conv(a)), T(conv(b))
        if a == b: return a
        if a.h > b.h: a, b = b, a     # max(a,b) = max(b,a): one canonical form
        return a + fun("pos", b - a)
    return max(a, b)
Ops.adam_step = staticmethod(Ops._adam(False)); Ops.adamw_step = staticmethod(Ops._adam(True))
for n, f in (("relu", "pos"), ("gelu", "gelu"), ("dgelu", "dgelu"), ("drelu", "ispos"), ("dgelutanh", "dgelutanh"), ("gelutanh_inplace", "gelutanh")): setattr(Ops, n, staticmethod(Ops.inplace(f)))
for n, f in (("relu_forward", "pos"), ("gelutanh", "gelutanh")): setattr(Ops, n, staticmethod(Ops.fwd(f)))
for n, f in (("relu_backward", "ispos"), ("gelu_backward", "dgelu"), ("gelutanh_backward", "dgelutanh")): setattr(Ops, n, staticmethod(Ops.bwd(f)))

ENV = None
def set_env(e):
    global ENV
    ENV = e

class CoreTensorModule(types.ModuleType):
    """nntile.nntile_core.tensor: exactly the functions that the real extension binds"""
    def __init__(s, name, bound):
        super().__init__(name); s.__dict__["_bound"] = bound
        for d, c in TYPES.items(): s.__dict__["Tensor_" + d] = c
        s.__dict__["TensorTraits"] = TensorTraits
        d = types.ModuleType(name + ".distributions")
        def block_cyclic(tensor_grid, mpi_grid, start_rank, max_rank):
            r = []; sh = list(tensor_grid); mg = list(mpi_grid)
            for k in range(int(np.prod(sh, dtype=int))):
                ix, q = [], k
                for x in sh: ix.append(q % x); q //= x
                o, st = 0, 1
                for a, b in zip(ix, mg): o += (a % b) * st; st *= b
                r.append((o + start_rank) % max_rank)
            return r
        d.block_cyclic = block_cyclic; s.__dict__["distributions"] = d
    def __getattr__(s, name):
        if name.startswith("__"): raise AttributeError(name)
        if name not in s._bound: raise AttributeError("module 'nntile.nntile_core.tensor' has no attribute '%s'" % name)
        m = re.match(r"(\w+?)(_async)?(?:_(fp64|fp32|fp16|int64|bool))?$", name); m2 = re.match(r"(\w+?)_(?:async_)?(fp64|fp32|fp16|int64|bool)$", name)
        if name in ("fp32_to_fp16_async", "fp16_to_fp32_async"): base, dt = name[:-6], None
        elif m2: base, dt = m2.group(1), m2.group(2)
        else: base, dt = m.group(1), None
        op = getattr(Ops, base, None)
        if op is None: raise Inconclusive("operation %s has no contract here" % base)
        def call(*a, **k):
            if k: raise TypeError("core functions take positional arguments")
            for i, x in enumerate(a):
                want = OTHER[base][1] if base in OTHER and OTHER[base][0] == i else dt
                if isinstance(x, Tensor) and want is not None and x.dtype != want:
                    raise TypeError("incompatible function arguments: %s given a Tensor_%s" % (name, x.dtype))
                if x is None: raise TypeError("incompatible function arguments: None given to %s" % name)
            CALLS.append(name)
            return op(*a)
        return call
CALLS = []
# operands whose type is fixed
OTHER = {"embedding": (0, "int64"), "embedding_backward": (0, "int64"), "total_sum_accum": (3, "int64"), "subtract_indexed_outputs": (1, "int64"), "mask_scalar": (0, "bool"), "flash_maxsumexp": (2, "bool"), "flash_softmax_gemm": (3, "bool"), "flash_softmax_gemm_backward": (6, "bool")}

# numpy and torch as seen by the repository's modules
class DType:
    def __init__(s, real): s.real = real
    def __call__(s, x=0): return x if isinstance(x, T) else s.real(x)
    def __eq__(s, o): return o is s.real or (isinstance(o, DType) and o.real is s.real)
    def __hash__(s): return hash(s.real)
def _obj(dt): return dt is None or dt in (np.float32, np.float64, float) or isinstance(dt, DType)
class NP(types.ModuleType):
    def __init__(s):
        super().__init__("numpy"); s.__dict__["float32"] = DType(np.float32); s.__dict__["float64"] = DType(np.float64)
    def __getattr__(s, n): return getattr(np, n)
    def sqrt(s, x): return fsqrt(x) if isinstance(x, T) else np.sqrt(x)
    def power(s, a, b): return a ** b if isinstance(a, T) else np.power(a, b)
    def exp(s, x): return fun("exp", x) if isinstance(x, T) else np.exp(x)
    def zeros(s, shape, dtype=None, order="C"):
        if not _obj(dtype): return np.zeros(shape, dtype, order)
        a = np.empty(shape, object, order=order); a[...] = 0.0; return a
    def empty(s, shape, dtype=None, order="C"): return s.zeros(shape, dtype, order)
    def ones(s, shape, dtype=None, order="C"): return np.ones(shape, dtype.real if isinstance(dtype, DType) else dtype, order)
    def array(s, x, dtype=None, order="K", copy=True):
        if isinstance(x, np.ndarray) and x.dtype == object and _obj(dtype): return np.array(x, dtype=object, order=order)
        return np.array(x, dtype=dtype.real if isinstance(dtype, DType) else dtype, order=order)
class FakeTorchTensor:
    def __init__(s, arr): s.arr = np.array(arr, dtype=object)
    def to(s, *a, **k): return s
    def cpu(s): return s
    def detach(s): return s
    def clone(s): return FakeTorchTensor(s.arr)
    def numpy(s): return s.arr
    def reshape(s, *sh): return FakeTorchTensor(s.arr.reshape(*sh))
    def copy_(s, o): s.arr[...] = np.broadcast_to(getattr(o, "arr", o), s.arr.shape); return s
    @property
    def T(s): return FakeTorchTensor.view(s.arr.T)
    @staticmethod
    def view(a): r = FakeTorchTensor.__new__(FakeTorchTensor); r.arr = a; return r
    @property
    def shape(s): return s.arr.shape
    @property
    def data(s): return s
    @data.setter
    def data(s, o): s.arr = np.array(getattr(o, "arr", o), dtype=object)
    def __getitem__(s, i): return FakeTorchTensor.view(s.arr[i])
    def __setitem__(s, i, o): s.arr[i] = getattr(o, "arr", o)
    def float(s): return s
class NoGrad:
    def __enter__(s): return s
    def __exit__(s, *a): return False
class FakeTorch(types.ModuleType):
    def __init__(s):
        super().__init__("torch")
        s.__dict__.update(float32="float32", float64="float64", float16="float16", bfloat16="bfloat16", Tensor=FakeTorchTensor)
    def tensor(s, a, dtype=None): return FakeTorchTensor(getattr(a, "arr", a))
    def from_numpy(s, a): return FakeTorchTensor.view(a)
    def no_grad(s): return NoGrad()
    def is_tensor(s, x): return isinstance(x, FakeTorchTensor)

def load():
    """imports the repository's package on top of the contracts"""
    lib()
    cc = open(os.path.join(WRAP, "nntile_core.cc")).read(); cc = re.sub(r"//[^\n]*|/\*.*?\*/", "", cc, flags=re.S)
    bound = set(re.findall(r'\bdef\(\s*"(\w+)"', cc))
    q = re.search(r'def\(\s*"invalidate_submit"\s*,\s*&Tensor<T>::(\w+)', cc)
    Tensor.invalidate_is_noop = not (q and q.group(1) == "invalidate_submit")
    for k in [k for k in sys.modules if k == "nntile" or k.startswith("nntile.")]: del sys.modules[k]
    core = types.ModuleType("nntile.nntile_core"); ct = CoreTensorModule("nntile.nntile_core.tensor", bound)
    st = types.ModuleType("nntile.nntile_core.starpu")
    for f in ("init", "pause", "resume", "wait_for_all", "restrict_cuda", "restrict_cpu", "restrict_restore", "profiling_init", "profiling_enable", "profiling_disable"): setattr(st, f, lambda *a: None)
    st.Config = lambda *a: None
    core.tensor, core.starpu, core.tile = ct, st, types.ModuleType("nntile.nntile_core.tile")
    core.TransOp, core.trans, core.notrans = TransOp, trans, notrans
    sys.modules["nntile.nntile_core"], sys.modules["nntile.nntile_core.tensor"], sys.modules["nntile.nntile_core.starpu"] = core, ct, st
    shim_np, shim_torch = NP(), FakeTorch()
    sys.modules["torch"] = shim_torch
    sys.path.insert(0, os.path.dirname(WRAP)); sys.dont_write_bytecode = True
    try: nn = importlib.import_module("nntile")
    finally: sys.path.pop(0)
    if not os.path.realpath(nn.__file__).startswith(os.path.realpath(WRAP)): raise RuntimeError("wrong package: " + nn.__file__)
    for k, m in list(sys.modules.items()):
        if k.startswith("nntile.") and m is not None and getattr(m, "__file__", "") and str(m.__file__).startswith(WRAP):
            for a, v in list(vars(m).items()):
                if v is np: setattr(m, a, shim_np)
    return nn

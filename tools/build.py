"""Builds the symbolic executor and the bitcode/native programs of the harnesses from /repo's
current working tree.  Everything goes to /verif/build (ignored by git)."""
import os, re, sys, hashlib, subprocess, glob, fcntl, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NNTILE_REPO", "/repo")
B = os.path.join(V, "build")
CLANG = "/usr/bin/clang++-18"
NM = "/usr/bin/llvm-nm-18"
LINK = "/usr/bin/llvm-link-18"
JOBS = 8

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stderr[-6000:]))
    return r.stdout

def hfile(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()

def lock():
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def engine():
    """Compile the executor if needed."""
    src = [os.path.join(V, "engine", x) for x in ("interp.cpp", "term.cpp", "interp_exec.inc", "term.h")]
    key = hashlib.sha256("".join(hfile(s) for s in src).encode()).hexdigest()[:16]
    out = os.path.join(B, "nsym-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(B, exist_ok=True)
    objs = []
    def comp(s):
        o = os.path.join(B, os.path.basename(s) + "." + key + "." + str(os.getpid()) + "." + os.urandom(3).hex() + ".o")
        sh(["g++", "-std=c++17", "-O2", "-I/usr/lib/llvm-18/include", "-I" + os.path.join(V, "engine"), "-c", s, "-o", o])
        return o
    with ThreadPoolExecutor(2) as ex:
        objs = list(ex.map(comp, src[:2]))
    tmp = out + ".%d" % os.getpid()
    sh(["g++", "-o", tmp] + objs + ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-lgmpxx", "-lgmp", "-ldl"])
    os.replace(tmp, out)
    for o in objs:
        os.unlink(o)
    return out

INC = None
def gen():
    """Generated headers and configured sources (what CMake does for this configuration)."""
    g = os.path.join(B, "gen")
    os.makedirs(os.path.join(g, "nntile"), exist_ok=True)
    put(os.path.join(g, "nntile", "defs.h"), "#pragma once\n#define NNTILE_USE_CBLAS\n")
    # operations and task types declared by the headers
    names, cls = [], []
    for h in sorted(glob.glob(os.path.join(REPO, "include/nntile/starpu", "*.hh"))):
        s = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(h).read(), flags=re.S)
        n = os.path.basename(h)[:-3]
        if not re.search(r"\bvoid\s+restrict_where\s*\(", s) or n == "config":
            continue
        for m in re.finditer(r"\bextern\s+Codelet\s+([^;]+);", s):
            for c in m.group(1).split(","):
                cls.append((n, c.strip(), len(names)))
        names.append(n)
    t = "static const CL g_cl[]={" + ",".join("{&nntile::starpu::%s::%s,%d,\"%s::%s\"}" % (n, c, i, n, c) for n, c, i in cls) + "};\n"
    t += "static const OPS g_op[]={" + ",".join("{&nntile::starpu::%s::restrict_where,&nntile::starpu::%s::restore_where,\"%s\"}" % (n, n, n) for n in names) + "};\n"
    put(os.path.join(g, "codelets.inc"), t)
    # recording stand-ins for the CPU kernels (explicit specialisations, signatures taken from the headers)
    t = ""
    for h in sorted(glob.glob(os.path.join(REPO, "include/nntile/kernel", "*", "cpu.hh"))):
        s = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(h).read(), flags=re.S)
        n = os.path.basename(os.path.dirname(h))
        body = ""
        for m in re.finditer(r"(template\s*<\s*typename\s+T\s*>\s*)?void\s+(cpu\w*)\s*\(([^;{]*)\)\s*noexcept\s*;", s):
            ps = [re.sub(r"\s+", " ", x).strip() for x in m.group(3).split(",")]
            for ty in ("fp32_t", "fp64_t"):
                args, caps = [], ""
                for i, x in enumerate(ps):
                    q = re.match(r"(.*?)(\w+)$", x)
                    pt, nm = q.group(1).strip(), q.group(2)
                    args.append(re.sub(r"\bT\b", ty, pt) + " a%d" % i)
                    if pt == "Index":
                        caps += "rt_cap(a%d);" % i
                    elif re.sub(r"\s", "", pt) == "constIndex*" and any(re.match(r"Index\s+ndim$", y) for y in ps):
                        caps += "for(Index k=0;k<a%d;k++) rt_cap(a%d[k]);" % ([j for j, y in enumerate(ps) if re.match(r"Index\s+ndim$", y)][0], i)
                body += ("template<> " if m.group(1) else "") + "void %s%s(%s) noexcept { rt_cap_begin(\"%s\"); %s }\n" % (m.group(2), "<%s>" % ty if m.group(1) else "", ", ".join(args), n, caps)
                if not m.group(1):
                    break
        t += "#include \"nntile/kernel/%s/cpu.hh\"\nnamespace nntile { namespace kernel { namespace %s {\n%s} } }\n" % (n, n, body)
    put(os.path.join(g, "kernels.inc"), t)
    # recording stand-ins for the tensor operations (definitions of the templates the headers declare)
    t = "namespace nntile { namespace tensor {\n"
    for h in sorted(glob.glob(os.path.join(REPO, "include/nntile/tensor", "*.hh"))):
        s = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(h).read(), flags=re.S)
        n = os.path.basename(h)[:-3]
        if n in ("tensor", "traits", "distributions"):
            continue
        body = ""
        for m in re.finditer(r"(template\s*<([^<>]*)>\s*)?void\s+(\w+)\s*\(([^;{]*)\)\s*;", s):
            depth, ps, cur = 0, [], ""
            for ch in m.group(4):
                depth += (ch in "<({") - (ch in ">)}")
                if ch == "," and depth == 0:
                    ps.append(cur); cur = ""
                else:
                    cur += ch
            ps = [re.sub(r"\s+", " ", x.split("=")[0]).strip() for x in ps + [cur] if x.strip()]
            ps = [(re.sub(r"(?<=[&\s*>])\w+$", "", x) if re.search(r"[&*>\s]\s*\w+$", x) else x).strip() + " a%d" % i for i, x in enumerate(ps)]
            tp = re.findall(r"typename\s+(\w+)", m.group(2) or "")
            body += "%svoid %s(%s){ rec_begin(\"%s\"); %s%s}\n" % ("template<%s> " % m.group(2).strip() if m.group(1) else "", m.group(3), ", ".join(ps), m.group(3),
                "".join("rec_type<%s>(); " % x for x in tp), "".join("rec_arg(a%d); " % i for i in range(len(ps))))
        t += "#ifndef REAL_%s\n%s#endif\n" % (n, body)
    put(os.path.join(g, "tensorops.inc"), t + "} }\n")
    # CUDA implementations, one file each, and a header that declares them
    t = ""
    for p in sorted(glob.glob(os.path.join(REPO, "src/kernel", "*", "cuda.cu"))):
        n = os.path.basename(os.path.dirname(p))
        if n not in CUDA_OUT:
            put(os.path.join(g, "cuda_src", "cuda_%s.cc" % n), cuda_src(p))
            t += "".join('#include "nntile/kernel/%s/%s.hh"\n' % (n, x) for x in ("cpu", "cuda"))
    put(os.path.join(g, "cudadecl.inc"), t)
    return g

# CUDA sources that are not encoded: relies on the threads of a warp running in lockstep, or half precision only
CUDA_OUT = ("maxsumexp", "fp16_to_fp32", "fp32_to_fp16")
def cuda_src(p):
    """the text of a CUDA source with kernel<<<grid,block,...>>>(args) written as a call of rt_launch (rt/cudastub)"""
    s = re.sub(r"//[^\n]*|/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), open(p).read(), flags=re.S)
    out, pos = "", 0
    for m in re.finditer(r"(\(\s*[\w:]+\s*(?:<[^<>;]*>)?\s*\)|[\w:]+\s*(?:<[^<>;()]*>)?)\s*<<<(.*?)>>>\s*\(", s, flags=re.S):
        i, d = m.end(), 1
        while d:
            d += (s[i] == "(") - (s[i] == ")")
            i += 1
        out += s[pos:m.start()] + "rt_launch(%s,[=]{ %s(%s); })" % (m.group(2), m.group(1), s[m.end():i - 1])
        pos = i
    return '#line 1 "%s"\n' % p + out + s[pos:] + "\n"

def uniq(p):
    """a temporary name next to p that no other thread or process uses"""
    return "%s.%d.%d.%s.tmp" % (p, os.getpid(), threading.get_ident(), os.urandom(4).hex())

def put(p, s):
    if os.path.exists(p) and open(p).read() == s:
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    t = uniq(p)
    with open(t, "w") as f:
        f.write(s)
    os.replace(t, p)

def headers_hash():
    h = hashlib.sha256()
    h.update(hfile(os.path.join(B, "gen", "codelets.inc")).encode())
    h.update(hfile(os.path.join(B, "gen", "kernels.inc")).encode())
    h.update(hfile(os.path.join(B, "gen", "tensorops.inc")).encode())
    for root in (os.path.join(REPO, "include"), os.path.join(V, "rt")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".hh", ".h", ".in")):
                    h.update(f.encode()); h.update(hfile(os.path.join(d, f)).encode())
    return h.hexdigest()

def concrete_src(p):
    if not p.endswith(".in"):
        return p
    s = open(p).read().replace("@CBLAS_H_NAME@", "cblas.h").replace("@CBLAS_INT_TYPE@", "int")
    out = os.path.join(B, "gen", "src", os.path.relpath(p, REPO).replace("/", "_")[:-3])
    put(out, s)
    return out

BCFLAGS = ["-std=c++17", "-fno-pic", "-fno-pie", "-O1", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
           "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-include", "cmath", "-fno-builtin-memcmp", "-fno-threadsafe-statics"]
NATFLAGS = ["-std=c++17", "-O1", "-g", "-c", "-DNSYM_NATIVE", "-w", "-include", "cmath", "-ffp-contract=off"]

class Builder:
    def __init__(self):
        self.gen = gen()
        self.hh = headers_hash()
        self.inc = ["-I" + self.gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "rt"), "-I/usr/include/starpu/1.4"]
        self.cache = os.path.join(B, "cache")
        os.makedirs(self.cache, exist_ok=True)
        self.failed = {}

    def compile(self, src, native=False, defs=()):
        s = concrete_src(src)
        flags = (NATFLAGS if native == 1 else NATFLAGS + ["-fsanitize=address", "-fno-omit-frame-pointer"] if native else BCFLAGS) + list(defs)
        if os.path.basename(src).startswith("cuda_") and not native:
            flags = flags + ["-O0"]  # constants are not folded
        bind = os.path.join(REPO, "wrappers/python/nntile/nntile_core.cc")
        key = hashlib.sha256((hfile(s) + s + self.hh + " ".join(flags) + (hfile(bind) if os.path.basename(src).startswith("bind") else "")).encode()).hexdigest()[:24]
        out = os.path.join(self.cache, key + (".o" if native else ".bc"))
        if not os.path.exists(out):
            tmp = uniq(out)
            extra = ["-I" + os.path.dirname(src)]
            pre = ["-I" + os.path.join(V, "rt", "pystub"), "-I" + REPO] if os.path.basename(src).startswith("bind") else ["-I" + os.path.join(V, "rt", "cudastub")] if os.path.basename(src).startswith("cuda") else []
            try:
                sh([CLANG] + flags + pre + self.inc + extra + [s, "-o", tmp])
            except Exception as x:
                # CUDA that the stand-in of rt/cudastub does not cover: its kernel stays undefined, paths that launch it are cut
                if not os.path.basename(src).startswith("cuda_"):
                    raise
                self.failed[src] = str(x)[-200:]
                put(tmp + ".cc", "")
                sh([CLANG] + flags + [tmp + ".cc", "-o", tmp]); os.unlink(tmp + ".cc")
                return tmp
            os.replace(tmp, out)
        return out

    def symbols(self, obj):
        o = sh([NM, obj])
        und, de = set(), set()
        for l in o.splitlines():
            p = l.split()
            if len(p) < 2:
                continue
            if p[-2] == "U":
                und.add(p[-1])
            elif p[-2] in "TWVDBRSiCtdbru":
                de.add(p[-1])
        return und, de

    def locate(self, sym, dem):
        """source file(s) of /repo that should define an undefined nntile symbol"""
        m = re.search(r"nntile::(kernel|starpu|tile|tensor|layer|model|optimizer)::", dem)
        if not m:
            return []
        layer = m.group(1)
        rest = dem[m.end():]
        rest = re.split(r"[<(]", rest)[0]
        parts = rest.split("::")
        root = os.path.join(REPO, "src", layer)
        cands = []
        cu = os.path.join(B, "gen", "cuda_src", "cuda_%s.cc" % parts[0])
        if layer == "kernel" and parts[-1].startswith("cuda") and os.path.exists(cu):
            cands = [cu]
        elif layer == "kernel":
            cands = sorted(glob.glob(os.path.join(root, parts[0], "*.cc")) + glob.glob(os.path.join(root, parts[0], "*.cc.in")))
        else:
            names = list(dict.fromkeys([parts[0], parts[0].replace("_async", ""), {"TensorTraits": "traits", "TileTraits": "traits"}.get(parts[0], parts[0])]))
            for n in names:
                for e in (".cc", ".cc.in"):
                    p = os.path.join(root, n + e)
                    if os.path.exists(p):
                        cands.append(p)
        if cands:
            return cands
        # fall back to a textual search for a definition
        last = re.sub(r"\[.*", "", parts[-1])
        pat = re.compile(r"\b%s\s*(<[^;{}()]*>)?\s*\(" % re.escape(last))
        for p in sorted(glob.glob(os.path.join(root, "**", "*.cc"), recursive=True) + glob.glob(os.path.join(root, "**", "*.cc.in"), recursive=True) + glob.glob(os.path.join(REPO, "src", "*.cc"))):
            t = open(p, errors="replace").read()
            if pat.search(t) and (len(parts) < 2 or parts[0] in t):
                cands.append(p)
        return cands[:6]

    def init_src(self, objs):
        """generated rt_init_all(): init() of every codelet file of the program (what Context does)"""
        names = []
        for s in objs:
            m = re.match(re.escape(os.path.join(REPO, "src", "starpu")) + r"/(\w+)\.cc(\.in)?$", s)
            if m and os.path.exists(os.path.join(REPO, "include/nntile/starpu", m.group(1) + ".hh")):
                h = open(os.path.join(REPO, "include/nntile/starpu", m.group(1) + ".hh")).read()
                if re.search(r"\bvoid\s+init\s*\(\s*\)", h):
                    names.append(m.group(1))
        names.sort()
        t = "".join('#include "nntile/starpu/%s.hh"\n' % n for n in names)
        t += 'extern "C" void rt_init_all(void){\n' + "".join("  nntile::starpu::%s::init();\n" % n for n in names) + "}\n"
        p = os.path.join(B, "gen", "init", "init_" + hashlib.sha256(t.encode()).hexdigest()[:16] + ".cc")
        put(p, t)
        return p

    def closure(self, harness, defs=()):
        """bitcode files of the harness and of every repository source it (transitively) needs"""
        objs = {}
        tried = set()
        und, de = set(), set()
        work = [harness, os.path.join(V, "rt", "model.cpp")]
        init = None
        while True:
            while work:
                with ThreadPoolExecutor(JOBS) as ex:
                    res = list(ex.map(lambda s: self.compile(s, defs=defs if s == harness else ()), work))
                for s, o in zip(work, res):
                    objs[s] = o
                with ThreadPoolExecutor(JOBS) as ex:
                    for u, d in ex.map(lambda s: self.symbols(objs[s]), work):
                        und |= u; de |= d
                miss = sorted(x for x in und - de if "nntile" in x and x not in tried)
                tried |= set(miss)
                work = []
                if miss:
                    dems = sh(["c++filt"], input="\n".join(miss)).splitlines()
                    for s, d in zip(miss, dems):
                        for f in self.locate(s, d):
                            if f not in objs and f not in work:
                                work.append(f)
            if "rt_init_all" not in und:
                break
            n = self.init_src(objs)
            if n == init:
                break
            if init:
                del objs[init]
            init = n
            work = [n]
            de.discard("rt_init_all")
        return objs

    def link(self, objs, name):
        out = os.path.join(self.cache, "link-" + hashlib.sha256("|".join(sorted(objs.values())).encode()).hexdigest()[:24] + ".bc")
        if not os.path.exists(out):
            tmp = uniq(out)
            sh([LINK, "-o", tmp] + list(objs.values()))
            os.replace(tmp, out)
        return out

    def native(self, objs, harness, entry, defs=()):
        """the same program compiled natively with AddressSanitizer, for replay"""
        out = os.path.join(self.cache, "nat-" + entry + "-" + hashlib.sha256(("|".join(sorted(objs.values())) + " ".join(defs) + open(os.path.join(V, "rt", "native.cpp")).read()).encode()).hexdigest()[:20])
        if os.path.exists(out):
            return out
        with ThreadPoolExecutor(JOBS) as ex:
            os_ = list(ex.map(lambda s: self.compile(s, native=2, defs=defs if s == harness else ()), list(objs)))
        nat = self.compile(os.path.join(V, "rt", "native.cpp"), native=2, defs=["-DNSYM_ENTRY=" + entry])
        tmp = uniq(out)
        sh([CLANG, "-fsanitize=address", "-o", tmp] + os_ + [nat, "-lm", "-lpthread"])
        os.replace(tmp, out)
        return out

if __name__ == "__main__":
    print(engine())

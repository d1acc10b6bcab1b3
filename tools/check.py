#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property: builds the bitcode of the harnesses and of the repository code they reach
from /repo's current tree, runs the symbolic executor, replays every counterexample natively
(AddressSanitizer build of the same sources) and writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed."""
import signal, sys, os, re, json, time, subprocess, argparse, threading, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS, MODES
from concurrent.futures import ThreadPoolExecutor
V = build.V
KF = os.path.join(V, "known_findings.txt")

def known(prop):
    """known-findings file: 'known: property=<id> | entry=<regex> | msg=<regex> | picks=<regex> | text'"""
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                d = {"text": l}
                for part in l.split(" | ")[1:]:
                    k, _, v = part.partition("=")
                    if k in ("entry", "msg", "picks"):
                        d[k] = v
                    else:
                        d["what"] = part
                out.append(d)
    return out

def matches(kf, entry, msg, picks):
    p = " ".join("%s=%s" % (a, b) for a, b in picks)
    return re.search("^(?:%s)$" % kf.get("entry", ".*"), entry) and re.search(kf.get("msg", ""), msg) and re.search(kf.get("picks", ""), p)

class Run:
    def __init__(self, spec, tier):
        self.spec = spec
        self.h = os.path.join(V, "harness", spec["h"])
        self.mode = spec.get("mode", "SEQ")
        self.defs = ["-DMODE=%d" % MODES[self.mode], "-DDEEP=%d" % (1 if tier == "thorough" else 0)] + spec.get("defs", [])
        src = open(self.h).read()
        ents = re.findall(r"^\s*(?:T?SCENARIO|INPLACE|FORWARD|BACKWARD|FSC|KSC|BSC|INPL|SRCDST|BACKW|ADAM)\((\w+)[,)]", src, re.M) + re.findall(r"^\s*ENTRY\((\w+)\)", src, re.M)
        self.entries = ["e_" + e for e in dict.fromkeys(ents) if re.fullmatch(spec.get("only", ".*"), e) and not re.fullmatch(spec.get("skip", "$^"), e)]

def replay_text(c, env):
    return "".join("pick %s %s\n" % (a, b) for a, b in c["picks"]) + "".join("val %s %s\n" % (k, v) for k, v in env.items())

def native_run(exe, path, garbage, tmo=60):
    env = dict(os.environ, NSYM_REPLAY=path, NSYM_GARBAGE=str(garbage), ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=tmo)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    out = p.stdout.decode(errors="replace")
    if "NSYM-DIVERGED" in out or "NSYM-ASSUME-FALSE" in out:
        return None, out
    if p.returncode == 1 and "NSYM-FAIL" in out:
        return True, re.findall(r"NSYM-FAIL: (.*)", out)[0]
    if p.returncode == 99 or "AddressSanitizer" in out:
        m = re.search(r"AddressSanitizer: ([^\n]*)", out)
        f = re.search(r"#\d+ \S+ in (nntile::[^\n(]*)", out)
        return True, "AddressSanitizer: " + (m.group(1)[:80] if m else "error") + (" in " + f.group(1) if f else "")
    if p.returncode < 0:
        return True, "crashed with signal %d" % -p.returncode
    return False, out[-300:]

class Res: pass
def hard_run(cmd, limit):
    """runs the executor in a process group of its own, ended as a whole at the limit"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True); r = Res()
    try: r.stdout = p.communicate(timeout=limit)[0]
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        r.stdout = p.communicate()[0] + b" (ended at its time limit)"
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay")
    ap.add_argument("--keep-log", action="store_true")
    a = ap.parse_args()
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1); P = PROPS[a.prop]
    if "py" in P:
        import pycheck
        return pycheck.main(a.prop, P, a.tier, seed, known(a.prop))
    deadline = t0 + (540 if a.tier == "quick" else 6 * 3600)
    eng = build.engine(); b = build.Builder()
    if a.replay:
        r = json.load(open(a.replay))
        run = Run(r["spec"], r["tier"]); objs = b.closure(run.h, run.defs); exe = b.native(objs, run.h, r["entry"], run.defs)
        with tempfile.NamedTemporaryFile("w", suffix=".txt") as f:
            f.write(r["input"]); f.flush(); ok, d = native_run(exe, f.name, r["garbage"])
        print(d); return 1 if ok else 0
    runs = [Run(s, a.tier) for s in P["runs"]]
    with ThreadPoolExecutor(3) as ex:
        objss = list(ex.map(lambda r: b.closure(r.h, r.defs), runs))
    work = []
    for r, o in zip(runs, objss):
        bc = b.link(o, "x")
        for e in r.entries:
            work.append((r, o, bc, e))
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="nsym-")
    kfs = known(a.prop)
    stats = {k: 0 for k in ("paths", "completed", "killed", "truncated", "unsupported", "instr", "queries", "unknown", "solver_s", "checks", "checks_syntactic", "checks_solver", "checks_unknown", "checks_z3", "candidates", "obligations", "errs")}
    funcs, per, notes, cands, vac = set(), {}, [], [], []
    for f, x in sorted(b.failed.items()): notes.append("not encoded, does not compile with the stand-in: %s: %s" % (os.path.basename(f), x))
    lk = threading.Lock()
    def one(w):
        r, o, bc, e = w
        tag = e + ("" if r.mode == "SEQ" else "/" + r.mode)
        lg = os.path.join(tmp, tag.replace("/", "_") + "_" + os.path.basename(r.h) + ".log")
        tm = min(r.spec.get("time", 60) if a.tier == "quick" else r.spec.get("ttime", 900), max(5, deadline - time.time()))
        p = hard_run([eng, bc, "--entry", e, "--log", lg, "--jobs", "4", "--time", str(tm), "--seed", str(seed), "--rlimit", str(r.spec.get("rlimit", 3000000))], tm * 1.3 + 40)
        reach, cs, nt, sm = {}, [], {}, None
        if os.path.exists(lg):
            for l in open(lg, errors="replace"):
                try: d = json.loads(l)
                except Exception: continue
                k = d.get("k")
                if k == "cand": cs.append(d)
                elif k == "reach": reach[d["tag"]] = reach.get(d["tag"], 0) + 1
                elif k == "summary": sm = d
                elif k != "note":
                    q = k + ": " + d.get("msg", "") + " " + d.get("loc", "")[:80]
                    nt[q] = nt.get(q, 0) + 1
            if not a.keep_log: os.unlink(lg)
        with lk:
            per[tag] = {"paths": sm["paths"] if sm else 0, "reached": sum(reach.values()), "checks": sm["checks"] if sm else 0, "solver_s": sm["solver_s"] if sm else 0, "incomplete": (sm["truncated"] + sm["unsupported"] + sm["errs"]) if sm else -1}
            if sm:
                for k in stats: stats[k] += sm.get(k, 0)
                funcs.update(sm["functions"])
            else: notes.append("%s: executor failed: %s" % (tag, p.stdout.decode(errors="replace")[-200:]))
            for q, n in nt.items(): notes.append("%s: %s (x%d)" % (tag, q, n))
            if not reach: vac.append(tag)
            for c in cs: cands.append((w, c))
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, work))
    # ---- replay of the counterexamples on the real code
    groups = {}
    for w, c in cands:
        groups.setdefault((w[3], w[0].mode, c["msg"]), []).append((w, c))
    viol, kfound, unconf = [], {}, []
    exes = {}
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    tried = 0
    for key in sorted(groups):
        lst = groups[key]; w = lst[0][0]; r = w[0]
        un = [(x, c) for x, c in lst if not any(matches(k, w[3], c["msg"], c["picks"]) for k in kfs)]
        kn = [(x, c) for x, c in lst if any(matches(k, w[3], c["msg"], c["picks"]) for k in kfs)]
        for which, sub in (("unlisted", un), ("known", kn)):
            if not sub: continue
            if which == "unlisted" and len(viol) >= 3: continue
            if time.time() > t0 + (780 if a.tier == "quick" else 7 * 3600): notes.append("replay stopped by the time limit"); continue
            ek = (r.h, tuple(r.defs), w[3])
            try:
                if ek not in exes: exes[ek] = b.native(w[1], r.h, w[3], r.defs)
            except Exception as x:
                notes.append("native build failed: %s" % str(x)[-300:]); continue
            done = set()
            sub = sorted(sub, key=lambda y: len(y[1]["picks"]))
            pick = sub[:4] + sub[4::max(1, len(sub) // 4)][:4]
            for _, c in pick:
                stop = False
                for env in c["envs"] or [{}]:
                    for g in (0, 1, 2):
                        tried += 1
                        txt = replay_text(c, env)
                        f = os.path.join(tmp, "r.txt"); open(f, "w").write(txt)
                        ok, d = native_run(exes[ek], f, g)
                        if ok:
                            if which == "known":
                                for i, k in enumerate(kfs):
                                    if matches(k, w[3], c["msg"], c["picks"]) : kfound[i] = d; done.add(i)
                                stop = True
                            else:
                                rp = os.path.join(V, "replays", "%s-%s-%s-%d.json" % (a.prop, w[3], r.mode, len(viol)))
                                json.dump({"property": a.prop, "spec": r.spec, "tier": a.tier, "entry": w[3], "msg": c["msg"], "detail": c.get("detail", ""), "loc": c.get("loc", ""), "input": txt, "garbage": g, "native": d}, open(rp, "w"), indent=1)
                                viol.append((rp, c["msg"], d)); stop = True
                            break
                    if stop: break
                if stop and (which == "unlisted" or len(done) == len(kfs)): break
            else:
                if which == "unlisted": unconf.append((w[3] + "/" + r.mode, key[2], sub[0][1].get("detail", "")[:200], sub[0][1]["picks"]))
    for i, k in enumerate(kfs):
        if i in kfound: print("KNOWN-FINDING: property=%s %s" % (a.prop, k.get("what", k["text"])))
    for rp, m, d in viol:
        print("violated: %s -- %s" % (m, d)); print("VIOLATION property=%s replay=%s" % (a.prop, rp))
    for e, m, d, p in unconf[:20]:
        print("not confirmed natively (not reported): %s: %s %s %s" % (e, m, d, p))
    for n in notes[:20]: print("note:", n)
    if vac: print("note: no path reached the end of", " ".join(vac))
    wall = time.time() - t0
    complete = stats["truncated"] == 0 and stats["unsupported"] == 0 and stats["errs"] == 0 and stats["unknown"] == 0 and not vac
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "other", "wall_s": round(wall, 1), "violations": len(viol),
          "coverage": {"explanation": "Path-complete symbolic execution of the compiled (LLVM IR) implementation, numeric values as symbolic reals, every comparison of the property decided for all values on the path (canonical term equality, else z3). Bounds: " + P["bounds"],
                       "bounds": P["bounds"], "paths": stats["paths"], "paths_completed": stats["completed"], "paths_cut": stats["truncated"], "paths_unsupported": stats["unsupported"],
                       "assertions": stats["checks"], "assertions_by_term_rewriting": stats["checks_syntactic"], "assertions_equal_terms_confirmed_by_z3": stats["checks_z3"], "assertions_by_solver": stats["checks_solver"], "assertions_unknown": stats["checks_unknown"],
                       "solver_queries": stats["queries"], "solver_unknown": stats["unknown"], "solver_s": round(stats["solver_s"], 2), "instructions": stats["instr"], "no_overflow_obligations": stats["obligations"],
                       "candidates": stats["candidates"], "native_replays": tried, "not_confirmed": [list(map(str, u)) for u in unconf[:30]],
                       "exhaustive_within_bounds": complete, "entries": per, "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
                       "samples": [{"entry": w[3], "mode": w[0].mode, "checks": per.get(w[3] + ("" if w[0].mode == "SEQ" else "/" + w[0].mode))} for w in work[:3]],
                       "notes": notes[:60], "vacuous_entries": vac, "build_s": round(tbuild, 1)},
          "assumptions": P.get("assumptions", []) + ["StarPU is replaced by the model in rt/model.cpp", "floating-point values are mathematical reals unless stated", "malloc does not fail"]}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", a.prop + ".json"), "w"), indent=1)
    shutil.rmtree(tmp, ignore_errors=not a.keep_log) if not a.keep_log else print("logs in", tmp)
    print("%s %s: %d paths, %d assertions (%d rewriting, %d solver), %d candidates, %d violations, %.0f s%s" % (a.prop, a.tier, stats["paths"], stats["checks"], stats["checks_syntactic"], stats["checks_solver"], stats["candidates"], len(viol), wall, "" if complete else " (exploration incomplete: %d cut, %d unsupported, %d unknown)" % (stats["truncated"], stats["unsupported"], stats["unknown"])))
    if viol: return 1
    if work and len(vac) == len(per): print("ERROR: nothing was explored"); return 2
    return 0
if __name__ == "__main__":
    sys.exit(main())

"""Checks of the Python layer: symbolic execution of the repository's Python code (tools/pysym.py),
one process per case, counterexamples re-run with concrete numbers before they are reported."""
import sys, os, json, time, traceback, ctypes, signal
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["layers", "models", "losses", "optimizers", "training", "wrappers", "convert"]

def run_case(case, sym, assign, seed):
    """returns (kind, list of (what, witness), checks)"""
    import pysym as S, base
    prop, name, f, p, tier = case
    S.L.t_reset(1, 8000); env = S.Env(sym, assign, seed); S.set_env(env); base.Tag.n = 0; S.CALLS.clear()
    bad = []
    try:
        f(env, NN, **p)
    except S.Inconclusive as e: return "inconclusive", [(str(e), None)], env.checks
    except S.Violation as e: bad = [(str(e), {})]
    except RecursionError as e: return "inconclusive", [("recursion", None)], env.checks
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        rep = [x for x in tb if os.path.realpath(x.filename).startswith(os.path.realpath(S.WRAP))]
        if not rep: return "internal", [("%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:])), None)], env.checks
        bad = [("raised %s: %s" % (type(e).__name__, str(e)[:160]), {})]
    if sym and not bad:
        try: bad = env.verdict()
        except S.Inconclusive as e: return "inconclusive", [(str(e), None)], env.checks
    elif not sym:
        try: bad = bad or env.verdict()
        except S.Inconclusive as e: return "inconclusive", [(str(e), None)], env.checks
    return "done", bad, env.checks

NN = None
def start(tier):
    global NN
    sys.setrecursionlimit(20000)
    sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "py"))
    import pysym as S
    NN = S.load()
    import base
    for m in FILES:
        if os.path.exists(os.path.join(V, "py", m + ".py")): __import__(m)
    return S, base

def case_name(c): return c[1] + "(" + ",".join("%s=%s" % (k, str(v).replace(" ", "")) for k, v in c[3].items()) + ")"
def funcs_of(S):
    """functions of the repository executed by the current process, by profiling"""
    seen = set(); root = os.path.realpath(S.WRAP)
    def prof(fr, ev, arg):
        if ev == "call":
            fn = fr.f_code.co_filename
            if fn.startswith(root): seen.add(os.path.relpath(fn, root) + ":" + getattr(fr.f_code, "co_qualname", fr.f_code.co_name))
    sys.setprofile(prof); return seen

def child(S, case, w, seed):
    r = {"name": case_name(case)}
    try:
        devnull = os.open(os.devnull, os.O_WRONLY); os.dup2(devnull, 1)
        seen = funcs_of(S); t0 = time.time()
        kind, bad, checks = run_case(case, True, None, 1); sys.setprofile(None)
        st = (ctypes.c_double * 8)(); S.L.t_stats(st)
        r.update(kind=kind, checks=checks, queries=int(st[0]), unknown=int(st[1]), syn=int(st[2]), solver=int(st[3]), secs=st[4], t=time.time() - t0, funcs=sorted(seen), nbad=len(bad), ops=sorted(set(S.CALLS)))
        r["bad"] = []; r["unconf"] = []
        if kind == "done" and bad:
            import random
            tries = [(b[1], seed) for b in bad[:4] if b[1]] + [(None, seed + k) for k in range(3)]
            for a, sd in tries:
                k2, b2, _ = run_case(case, False, a, sd)
                if k2 == "done" and b2:
                    r["bad"] = [(b[0], str(b[1])) for b in b2[:400]]; r["assign"] = a; r["seed"] = sd; break
            else: r["unconf"] = [b[0] for b in bad[:5]] + ["%s %s" % (k2, b2[:1])]
        elif bad: r["unconf"] = [str(b[0]) for b in bad[:3]]
    except BaseException as e:
        r.update(kind="internal", unconf=["%s: %s" % (type(e).__name__, e)], checks=0, bad=[])
    os.write(w, json.dumps(r, default=str).encode()); os.close(w); os._exit(0)

def main(prop, P, tier, seed, known):
    try: import numpy
    except ImportError:
        if os.environ.get("NSYM_REEXEC"): print("ERROR: numpy is missing"); return 2
        os.environ["NSYM_REEXEC"] = "1"; os.execv("/opt/veriftools/pyvenv/bin/python", ["/opt/veriftools/pyvenv/bin/python"] + sys.argv)
    import re, select
    only = os.environ.get("NSYM_ONLY")
    t0 = time.time(); limit = 600 if tier == "quick" else 4 * 3600; per = 120 if tier == "quick" else 1500
    S, base = start(tier)
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1])); cs = [c for c in base.CASES if case_name(c) == r["case"]]
        k, bad, _ = run_case(cs[0], False, r["assign"], r["seed"])
        for b in bad[:12]: print(b)
        return 1 if bad else 0
    cases = [c for c in base.CASES if c[0] == prop and (c[4] == "quick" or tier == "thorough") and (not only or re.search(only, case_name(c)))]
    running, res, queue = {}, [], list(cases)
    while queue or running:
        while queue and len(running) < 8 and time.time() - t0 < limit:
            c = queue.pop(0); rd, w = os.pipe(); pid = os.fork()
            if pid == 0: os.close(rd); child(S, c, w, seed)
            os.close(w); running[rd] = (pid, c, time.time(), [])
        if not running: break
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for rd in list(running):
            pid, c, ts, buf = running[rd]
            done = False
            if rd in rl:
                b = os.read(rd, 1 << 20)
                if b: buf.append(b)
                else: done = True
            if not done and time.time() - ts > per:
                os.kill(pid, signal.SIGKILL); buf[:] = [json.dumps({"name": case_name(c), "kind": "timeout", "unconf": [], "bad": [], "checks": 0}).encode()]; done = True
            if done:
                os.close(rd); os.waitpid(pid, 0); del running[rd]
                try: r = json.loads(b"".join(buf))
                except Exception: r = {"name": case_name(c), "kind": "died", "unconf": [], "bad": [], "checks": 0}
                r["case"] = c; res.append(r)
    skipped = [case_name(c) for c in queue]
    viol, kf, notes = [], {}, []
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for r in sorted(res, key=lambda r: r["name"]):
        if r["kind"] != "done": notes.append("%s: %s %s" % (r["name"], r["kind"], "; ".join(r.get("unconf", []))[:600]))
        elif r["unconf"]: notes.append("%s: not confirmed with concrete numbers: %s" % (r["name"], "; ".join(r["unconf"])[:300]))
        if not r["bad"]: continue
        un = []
        for what, how in r["bad"]:
            for i, k in enumerate(known):
                if re.search("^(?:%s)$" % k.get("entry", ".*"), r["case"][1]) and re.search(k.get("msg", ""), what) and re.search(k.get("picks", ""), r["name"]): kf[i] = what; break
            else: un.append((what, how))
        if un:
            rp = os.path.join(V, "replays", "%s-%s-%d.json" % (prop, r["case"][1], len(viol)))
            if len(viol) < 60: json.dump({"property": prop, "case": r["name"], "assign": r.get("assign"), "seed": r.get("seed", seed), "fails": un}, open(rp, "w"), indent=1)
            viol.append((rp, r["name"], un[0]))
    for i in kf: print("KNOWN-FINDING: property=%s %s" % (prop, known[i].get("what", known[i]["text"])))
    shown, per_entry = [], {}
    for x in viol:
        e = x[1].split("(")[0]; per_entry[e] = per_entry.get(e, 0) + 1
        if per_entry[e] <= int(os.environ.get("NSYM_SHOW", 2)): shown.append(x)
    for rp, n, (what, how) in shown[:16]:
        print("violated: %s: %s (computed, expected) = %s" % (n, what, how)); print("VIOLATION property=%s replay=%s" % (prop, rp))
    cnt = {}
    for n in notes:
        e = n.split("(")[0]; cnt[e] = cnt.get(e, 0) + 1
        if cnt[e] <= 2: print("note:", n)
        elif cnt[e] == 3: print("note: ... more of", e, "(all in the evidence file)")
    tot = lambda k: sum(r.get(k, 0) or 0 for r in res); fs = sorted(set(f for r in res for f in r.get("funcs", [])))
    done = [r for r in res if r["kind"] == "done"]; complete = len(done) == len(cases) and not any(r["unconf"] for r in res) and not tot("unknown")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 1), "violations": len(viol),
          "coverage": {"explanation": "Symbolic execution of the real Python code on tensors of symbolic reals; every equality between what it computes and an independent specification (forward function and reverse-mode derivative) decided for all values: canonical terms, confirmed and completed by z3. Bounds: " + P["bounds"],
                       "bounds": P["bounds"], "cases": len(cases), "cases_decided": len(done), "cases_skipped": skipped[:40], "assertions": tot("checks"), "assertions_by_term_rewriting": tot("syn"), "assertions_by_solver": tot("solver"), "solver_queries": tot("queries"), "solver_unknown": tot("unknown"), "solver_s": round(tot("secs"), 2),
                       "functions_encoded": fs, "functions_encoded_count": len(fs), "core_operations_by_contract": sorted(set(o for r in res for o in r.get("ops", []))), "exhaustive_within_bounds": complete, "notes": notes[:60],
                       "samples": [{"case": r["name"], "assertions": r["checks"], "seconds": round(r.get("t", 0), 2)} for r in res[:5]]},
          "assumptions": P.get("assumptions", []) + ["each core operation is replaced by its contract (decided for the C++ code by C04-C17)", "floating-point values are mathematical reals"]}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d of %d cases decided, %d assertions (%d rewriting, %d solver), %d violations, %.0f s%s" % (prop, tier, len(done), len(cases), tot("checks"), tot("syn"), tot("solver"), len(viol), time.time() - t0, "" if complete else " (incomplete)"))
    if viol: return 1
    if cases and not done: print("ERROR: nothing was explored"); return 2
    return 0

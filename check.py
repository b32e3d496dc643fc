#!/usr/bin/env python3
"""Decides one property (see properties.jsonl) by symbolic execution of the library's own code.

usage: check.py <property id> [--tier quick|thorough] [--only entry] | check.py --replay <file>
"""
import concurrent.futures as cf, glob, hashlib, json, os, random, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import props
T0 = time.time()
CONFIGS = {
    "up": ["-DROUND_MODE_UP"],
    "conv": ["-DROUND_MODE_CONVERGENT"],
    "ret": ["-DROUND_MODE_UP", "-DMLI_DEBUG_MODE=DBG_MODE_RET_CODES"],
    "dbg": ["-DROUND_MODE_UP", "-DFULL_ACCU", "-DAVEPOOL_16BIT_MUL", "-DMLI_DEBUG_MODE=DBG_MODE_FULL"],
}
LLVM = "-18"
SKIP = ("mli_perf_estim.cc",)          # not part of the library's CMake build either
NCPU = os.cpu_count() or 8

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)

def sources():
    return sorted(f for f in glob.glob(REPO + "/lib/**/*.cc", recursive=True) if os.path.basename(f) not in SKIP)

def includes():
    inc = [HERE + "/harness", REPO + "/include", REPO + "/include/api", REPO + "/include/internal"]
    for d, _, _ in sorted(os.walk(REPO + "/lib")):
        if "/pal/dsp" in d or "/pal/vdsp" in d: continue
        inc.append(d)
    return ["-I" + i for i in inc]

def tagOf(job, cfg): return "-".join([job["harness"], job["entry"], *[d.replace("=", "") for d in job.get("defs", [])], cfg])

class Build:
    """bitcode (for the symbolic executor) and native objects (for replay) of /repo's current working tree"""
    def __init__(self, work):
        self.work = work; self.inc = includes(); self.src = sources(); self.lock = threading.Lock(); self.locks = {}; self.failed = {}
        self.cache = os.environ.get("VERIF_CACHE")
        self.key = None
        if self.cache:
            h = hashlib.sha256()
            for root in ("/lib", "/include"):
                for d, _, fs in sorted(os.walk(REPO + root)):
                    for f in sorted(fs): p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
            h.update(open(HERE + "/harness/prelude.h", "rb").read()); self.key = h.hexdigest()[:24]
    def lk(self, k):
        with self.lock: return self.locks.setdefault(k, threading.Lock())
    def dir(self, kind, cfg):
        base = os.path.join(self.cache, self.key) if self.cache else self.work
        d = os.path.join(base, kind + "-" + cfg); os.makedirs(d, exist_ok=True); return d
    def par(self, cmds):
        with cf.ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda c: sh(c), cmds))
    def clang(self, src, out, cfg, extra=()):
        return ["clang++" + LLVM, "-std=c++17", "-include", HERE + "/harness/prelude.h", *CONFIGS[cfg], *extra, "-O1", "-Xclang", "-disable-llvm-passes",
                "-fwrapv", "-fno-strict-aliasing", "-emit-llvm", "-c", "-g1", "-w", *self.inc, src, "-o", out]
    def lib_bc(self, cfg):
        with self.lk(("bc", cfg)):
            d = self.dir("bc", cfg); out = d + "/all.bc"
            if os.path.exists(out): return out
            objs = [d + "/%d.bc" % i for i in range(len(self.src))]
            rs = self.par([self.clang(s, o, cfg) for s, o in zip(self.src, objs)])
            for s, r in zip(self.src, rs):
                if r.returncode: self.failed[s] = r.stdout[:400]
            objs = [o for o, r in zip(objs, rs) if r.returncode == 0]
            r = sh(["llvm-link" + LLVM, *objs, "-o", out + ".tmp"])
            if r.returncode: raise RuntimeError("llvm-link: " + r.stdout[:500])
            os.rename(out + ".tmp", out)
            sy = {}
            for s, o in zip(self.src, [d + "/%d.bc" % i for i in range(len(self.src))]):
                if not os.path.exists(o): continue
                de, un = [], []
                for l in sh(["llvm-nm" + LLVM, o]).stdout.splitlines():
                    w = l.split()
                    if len(w) == 2 and w[0] == "U": un.append(w[1])
                    elif len(w) == 3 and w[1] in "TDBRVWGC": de.append(w[2])
                sy[s] = [de, un]
            json.dump(sy, open(d + "/syms.json", "w"))
            for o in objs: os.unlink(o)
            return out
    def harness_bc(self, job, cfg):
        d = os.path.join(self.work, "h"); os.makedirs(d, exist_ok=True)
        tag = tagOf(job, cfg); raw = d + "/" + tag + ".bc"; out = d + "/" + tag + ".o.bc"
        r = sh(self.clang("%s/harness/%s.cc" % (HERE, job["harness"]), raw, cfg, ["-D" + x for x in job.get("defs", [])]))
        if r.returncode: raise RuntimeError("harness %s does not compile against the current tree: %s" % (job["harness"], r.stdout[:600]))
        r = sh(["llvm-link" + LLVM, raw, "--only-needed", self.lib_bc(cfg), "-o", raw + ".l"])
        if r.returncode: raise RuntimeError("llvm-link: " + r.stdout[:500])
        r = sh(["opt" + LLVM, "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,lowerswitch)", "--internalize-public-api-list=" + job["entry"], raw + ".l", "-o", out])
        if r.returncode: raise RuntimeError("opt: " + r.stdout[:500])
        os.unlink(raw); os.unlink(raw + ".l")
        return out
    NFLAGS = ["-std=c++17", "-O0", "-g1", "-w", "-fwrapv", "-fno-strict-aliasing", "-fsanitize=address", "-fno-omit-frame-pointer"]
    def symbols(self, cfg):
        """which sources the linked harness needs: defined / undefined symbols of every library object"""
        with self.lk(("sym", cfg)):
            f = self.dir("bc", cfg) + "/syms.json"
            if not os.path.exists(f): self.lib_bc(cfg)
            return json.load(open(f))
    def nobj(self, src, cfg):
        with self.lk(("no", src, cfg)):
            out = self.dir("nat", cfg) + "/%d.o" % self.src.index(src)
            if not os.path.exists(out):
                r = sh(["g++", *CONFIGS[cfg], *self.NFLAGS, *self.inc, "-c", src, "-o", out + ".tmp"])
                if r.returncode: raise RuntimeError("g++ %s: %s" % (src, r.stdout[:800]))
                os.rename(out + ".tmp", out)
            return out
    def native(self, job, cfg):
        tag = tagOf(job, cfg); out = self.work + "/n-" + tag
        with self.lk(("n", tag)):
            if os.path.exists(out): return out
            base = ["g++", *CONFIGS[cfg], *["-D" + x for x in job.get("defs", [])], *self.NFLAGS, "-DSX_ENTRY=" + job["entry"], *self.inc, "-include", HERE + "/harness/prelude.h", "-c"]
            hs = ["%s/harness/%s.cc" % (HERE, job["harness"]), HERE + "/harness/native_rt.cc"]; ho = [out + ".h.o", out + ".rt.o"]
            for h, o, r in zip(hs, ho, self.par([base + [h, "-o", o] for h, o in zip(hs, ho)])):
                if r.returncode: raise RuntimeError("native build of %s: %s" % (tag, r.stdout[:1500]))
            sy = self.symbols(cfg); owner = {}
            for s, (de, un) in sy.items():
                for x in de: owner.setdefault(x, s)
            need = [l.split()[-1] for l in sh(["nm", "-u", *ho]).stdout.splitlines() if " U " in l]; got = []
            while need:
                s = owner.get(need.pop())
                if s and s not in got: got.append(s); need += sy[s][1]
            with cf.ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(lambda s: self.nobj(s, cfg), got))
            r = sh(["g++", *self.NFLAGS, *ho, *objs, "-o", out])
            if r.returncode: raise RuntimeError("native build of %s: %s" % (tag, r.stdout[:1500]))
            return out

def run_native(exe, vals, tier, fill=None):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=4096:malloc_fill_byte=%d" % (170 if fill is None else fill))
    if fill is not None: env["SX_FILL"] = str(fill)
    try: r = sh([exe, vals, tier], timeout=60, env=env)
    except subprocess.TimeoutExpired: return "hang", "no end within 60 s"
    if "REPLAY ASSUMPTION FALSE" in r.stdout or "out of range" in r.stdout and r.returncode == 3: return "assume", r.stdout
    if r.returncode == 0: return "ok", r.stdout
    return "fail", r.stdout

def write_vals(path, values):
    with open(path, "w") as f:
        for k, v in values: f.write("%s %s\n" % (k, v))

def symex(bc, job, tier, seed, out, deadline, jobs):
    left = max(5, deadline - time.time())
    cmd = [HERE + "/engine/build/symex", bc, "--entry", job["entry"], "--out", out, "--tier", tier, "--seed", str(seed), "--jobs", str(jobs),
           "--timeout", str(min(left, job.get("timeout", 1e9))), "--worker-timeout", str(min(left, job.get("worker_timeout", 600 if tier == "thorough" else 240))), "--qtimeout", str(job.get("qtimeout", 60000 if tier == "quick" else 300000))]
    r = sh(cmd)
    if r.returncode: raise RuntimeError("symex failed (%d): %s" % (r.returncode, r.stdout[-400:]))
    lines = [json.loads(l) for l in open(out + ".lines")]; summ = json.load(open(out + ".sum"))
    return lines, summ

def ensure_engine():
    if not os.path.exists(HERE + "/engine/build/symex") or any(os.path.getmtime(HERE + "/engine/" + f) > os.path.getmtime(HERE + "/engine/build/symex") for f in os.listdir(HERE + "/engine") if f.endswith((".cc", ".h"))):
        r = sh(["make", "-j8", "-C", HERE + "/engine"])
        if r.returncode: print(r.stdout[-2000:]); sys.exit(2)

def replay(path):
    m = json.load(open(path)); ensure_engine()
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        b = Build(work); job = m["job"]; exe = b.native(job, m["config"]); write_vals(work + "/v", m["values"])
        bad = False
        for fill in (None, 0, 255, 90):
            st, o = run_native(exe, work + "/v", m["tier"], fill); print("fill=%s -> %s\n%s" % (fill, st, o[:3000])); bad |= st in ("fail", "hang")
        return 1 if bad else 0
    finally: shutil.rmtree(work, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": sys.exit(replay(a[1]))
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1")); only = None; keep = False
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--only": only = a[i + 1]
    P = props.PROPS[pid]; jobs = [j for j in P["jobs"] if (tier == "thorough" or not j.get("thorough_only")) and (only is None or j["entry"] == only)]
    deadline = T0 + (float(os.environ.get("VERIF_DEADLINE", 700 if tier == "quick" else 5400)))
    ensure_engine(); os.makedirs(HERE + "/evidence", exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-"); errors = []; notes = []; reports = []; agg = []
    try:
        b = Build(work)
        runs = [(j, c) for j in jobs for c in j.get("configs", ["up"])]
        for c in sorted({c for _, c in runs}): b.lib_bc(c)
        rng = random.Random(seed)
        par = min(4, len(runs)) or 1; vlock = threading.Lock(); stop = threading.Event()
        natexec = cf.ThreadPoolExecutor(1)
        def one(rc):
            job, cfg = rc; name = "%s:%s[%s]" % (job["harness"], job["entry"], ",".join([*job.get("defs", []), cfg])); rec = {"name": name, "job": job, "cfg": cfg}
            if stop.is_set(): rec["skipped"] = True; return rec
            t = time.time()
            try:
                bc = b.harness_bc(job, cfg)
                if time.time() > deadline - 5: rec["skipped"] = True; return rec
                out = work + "/r-" + tagOf(job, cfg)
                rec["lines"], rec["sum"] = symex(bc, job, tier, seed, out, deadline, max(2, (NCPU + par - 1) // par + 1))
            except Exception as e: rec["error"] = str(e)
            rec["wall"] = time.time() - t
            # counterexamples are replayed against the real code before anything is reported
            for k, l in enumerate([l for l in rec.get("lines", []) if l["status"] == "violation"]):
                v = l["violation"]
                try: exe = b.native(job, cfg)
                except Exception as e: errors.append(str(e)[:600]); break
                vf = work + "/v-%s-%d" % (tagOf(job, cfg), k); write_vals(vf, v["values"])
                res = [(f, *run_native(exe, vf, tier, f)) for f in (None, 0, 255, 90)]
                rep = next((x for x in res if x[1] in ("fail", "hang")), None)
                v["reproduced"] = bool(rep)
                if rep: v["native"] = rep[2][:1500]; v["job"] = job; v["cfg"] = cfg
                else: notes.append("counterexample of %s not reproduced natively (%s: %s @ %s): %s" % (name, v["kind"], v["label"], v["where"][:200], [x[1] for x in res]))
                if rep: stop.set() if not P.get("known") else None; break
            return rec
        with cf.ThreadPoolExecutor(par) as ex: agg = list(ex.map(one, runs))
        viol = [l["violation"] for r in agg for l in r.get("lines", []) if l["status"] == "violation" and l["violation"].get("reproduced")]
        # validation of the encoding: concrete inputs of explored paths through the native build, same checks, same observed values
        validated = 0; mism = []
        if not viol:
            cand = []
            for r in agg:
                ss = [l for l in r.get("lines", []) if l["status"] == "ok" and "sample" in l]
                rng.shuffle(ss); cand += [(r, l) for l in ss[: (6 if tier == "quick" else 60)]]
            def val(x):
                i, (r, l) = x
                try: exe = b.native(r["job"], r["cfg"])
                except Exception as e: return ("err", str(e)[:800])
                vf = work + "/s-%d" % i; write_vals(vf, l["sample"]); st, o = run_native(exe, vf, tier)
                if st != "ok": return (st, "%s: %s: %s" % (r["name"], l["sample"][:6], o[-900:]))
                h = [w.split()[1] for w in o.splitlines() if w.startswith("OBS ")]
                return ("ok", None) if h and h[0] == l["obs"] else ("obs", "%s: observed values differ on %s" % (r["name"], l["picks"]))
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for st, msg in ex.map(val, enumerate(cand)):
                    if st == "ok": validated += 1
                    else: mism.append((st, msg))
            for st, msg in mism:
                if st == "err": errors.append(msg)
                else: notes.append("encoding/native mismatch (%s): %s" % (st, msg))
        # ---------------------------------------------------------------- totals
        tot = {k: 0 for k in ("instrs", "checks", "trivial", "smt", "unknown", "splits", "merges", "memchecks", "queries", "q_sat", "q_unsat", "q_unknown", "q_abs", "q_ext", "solver_s")}
        funcs = set(); st = {}; covers = {}; maxq = 0; und = 0; perjob = []
        for r in agg:
            if "error" in r: errors.append(r["name"] + ": " + r["error"]); continue
            if r.get("skipped"): 
                if not viol: notes.append("UNDECIDED %s: not reached within the time budget" % r["name"]); und += 1
                continue
            js = {}
            for l in r["lines"]:
                st[l["status"]] = st.get(l["status"], 0) + 1; js[l["status"]] = js.get(l["status"], 0) + 1
                for k in tot: tot[k] += l.get(k, 0)
                maxq = max(maxq, l.get("max_q", 0)); funcs.update(l.get("funcs", []))
                for k, v in l.get("covers", {}).items(): covers[r["name"] + "/" + k] = covers.get(r["name"] + "/" + k, 0) + v
                if l["status"] == "error": errors.append(r["name"] + ": " + l["error"][:500] + " picks=%s" % l["picks"])
                if l["status"] == "lost": notes.append("UNDECIDED path %s of %s (worker ended or out of time)" % (l["prefix"], r["name"])); und += 1
                for k, v in l.get("unknowns", {}).items(): notes.append("UNDECIDED %d queries: %s: %s picks=%s" % (v, r["name"], k[:160], [p[1] for p in l["picks"]])); und += v
            if r["sum"]["timed_out"] or (r["sum"]["pending"] and not viol): notes.append("UNDECIDED %s: %d paths left at the time limit" % (r["name"], r["sum"]["pending"] + r["sum"]["lost"])); und += 1
            if not viol and not js.get("ok"): errors.append("vacuous: no path of %s ended" % r["name"])
            elif not viol:
                need = r["job"].get("covers", ["done"])
                for n in need:
                    if not covers.get(r["name"] + "/" + n): errors.append("vacuous: '%s' of %s was never reached" % (n, r["name"]))
            perjob.append({"entry": r["name"], "paths": js, "wall_s": round(r["wall"], 2), "bounds": r["job"].get("bounds", "")})
        names = sorted(f for f in sh(["c++filt"], input="\n".join(sorted(funcs))).stdout.split("\n") if f and not f.startswith(("std::", "sx_", "spec::")))
        libfn = [f[:160] for f in names if "mli" in f or "krn" in f or "snps" in f]
        path = None
        if viol:
            v = viol[0]; os.makedirs(HERE + "/replays", exist_ok=True); path = HERE + "/replays/%s.json" % pid
            json.dump({"property": pid, "job": v["job"], "config": v["cfg"], "tier": tier, "kind": v["kind"], "label": v["label"], "where": v["where"], "values": v["values"], "native": v["native"], "how": "python3 check.py --replay " + path}, open(path, "w"), indent=1)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"), "wall_s": round(time.time() - T0, 2), "violations": len(viol),
              "coverage": {"states": st.get("ok", 0) + st.get("violation", 0), "transitions": tot["instrs"], "traces_validated_against_impl": validated,
                           "samples": [{"path": r["name"], "picks": l["picks"], "input": [x for x in l["sample"]][:24]} for r in agg for l in r.get("lines", [])[-1:] if "sample" in l][:6] or [{"none": True}],
                           "rule": "a state is one explored (merged) symbolic path, i.e. one choice of the enumerated structural parameters with every data input symbolic; a transition is one executed LLVM instruction of the harness and the library; a validated trace is a concrete input of such a path whose observed outputs in the native build equal the encoding's",
                           "path_results": st, "obligations": tot["checks"] + tot["memchecks"], "assertions": tot["checks"], "memory_access_checks": tot["memchecks"], "decided_by_normalisation": tot["trivial"], "decided_by_solver": tot["smt"],
                           "undecided": und, "queries": tot["queries"], "queries_sat": tot["q_sat"], "queries_unsat": tot["q_unsat"], "queries_unknown": tot["q_unknown"], "queries_unsat_with_products_abstracted": tot["q_abs"], "queries_external_portfolio": tot["q_ext"],
                           "solver_s": round(tot["solver_s"], 2), "max_query_s": round(maxq, 2), "branch_splits": tot["splits"], "merges": tot["merges"], "functions_encoded": libfn[:400], "functions_encoded_count": len(libfn), "entries": perjob, "witnesses": covers, "outside_the_bounds": P.get("outside", ""), "notes": notes[:60], "errors": errors[:20]},
              "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS}
        json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
        for n in notes[:40]: print("note:", n)
        for e in errors[:10]: print("ERROR:", e)
        for s, m in b.failed.items(): print("note: %s does not compile for the encoding" % s)
        print("%s %s: %d paths %s, %d assertions, %d memory checks, %d by normalisation, %d by solver, %d undecided, %d queries, %.1f s solver (max %.1f), %d native traces, %.1f s" % (pid, tier, sum(st.values()), st, tot["checks"], tot["memchecks"], tot["trivial"], tot["smt"], und, tot["queries"], tot["solver_s"], maxq, validated, time.time() - T0))
        if os.environ.get("VERIF_TIMES"):
            for r in sorted(perjob, key=lambda r: -r["wall_s"]): print("   %6.1f %s %s" % (r["wall_s"], r["entry"], r["paths"]))
        for k in props.known(pid): print("KNOWN-FINDING: property=%s %s" % (pid, k))
        if viol:
            print("counterexample: %s: %s @ %s" % (viol[0]["kind"], viol[0]["label"], viol[0]["where"][:400]))
            print("VIOLATION property=%s replay=%s" % (pid, path)); sys.exit(1)
        sys.exit(2 if errors else 0)
    finally: shutil.rmtree(work, ignore_errors=True)
main()

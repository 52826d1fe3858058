#!/usr/bin/env python3
"""Decide one property: symbolic execution (symx) of the repository's own IR with z3, then native replay.

usage: check.py C01 [--tier quick|thorough] [--keep] [--time S] [--only ENTRY ...]
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
ENGINE = os.path.join(HERE, "build", "engine", "symx")
CLANGXX, CLANG, LINK = "/usr/bin/clang++-18", "/usr/bin/clang-18", "/usr/bin/llvm-link-18"
IRF = ["-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-I" + REPO, "-I" + os.path.join(HERE, "harness"), "-c", "-emit-llvm", "-w", "-DSYMX_IR=1"]
NATF = ["-O2", "-g", "-I" + REPO, "-I" + os.path.join(HERE, "harness"), "-w", "-c"]
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]

sys.path.insert(0, HERE)
from checks_conf import ASSUME, B as BOUNDS, CHECKS, COMMON_ASSUMPTIONS


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_engine():
    r = sh(["make", "-s", "-j8", "-C", os.path.join(HERE, "engine"), "BUILD=" + os.path.dirname(ENGINE)])
    if r.returncode or not os.path.exists(ENGINE):
        print(r.stdout); sys.exit("cannot build the engine")


def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "opm")):
        for f in sorted(files):
            if f.endswith((".cpp", ".c", ".cc", ".cxx")):
                out.append(os.path.join(root, f))
    return sorted(out)


def compile_one(src, out, native, extra):
    cxx = not src.endswith(".c")
    if native == "ir":
        cmd = [CLANGXX if cxx else CLANG, "-std=c++17" if cxx else "-std=c99"] + IRF + extra
    else:
        cmd = ["g++" if cxx else "gcc", "-std=c++17" if cxx else "-std=c99"] + NATF + extra
    r = sh(cmd + ["-o", out, src])
    return src, r.returncode, r.stdout


class Build:
    def __init__(self, work):
        self.work = work
        self.pool = cf.ThreadPoolExecutor(8)
        self.objs = {}

    def compile(self, jobs):
        """jobs: list of (src, out, mode, extra)"""
        bad = []
        for src, rc, log in self.pool.map(lambda j: compile_one(*j), jobs):
            if rc: bad.append((src, log))
        if bad:
            for s, l in bad: print("compile failed:", s, "\n", l[:1500])
            sys.exit(2)

    def all(self, harnesses):
        jobs = []
        self.repo_ir, self.repo_nat = [], []
        for i, s in enumerate(sources()):
            b = os.path.join(self.work, "r%d_%s" % (i, os.path.basename(s)))
            jobs.append((s, b + ".bc", "ir", [])); self.repo_ir.append(b + ".bc")
            jobs.append((s, b + ".o", "nat", [])); self.repo_nat.append(b + ".o")
        jobs.append((os.path.join(HERE, "harness", "native_rt.cpp"), os.path.join(self.work, "rt.o"), "nat", []))
        for h in harnesses:
            src, defs = h[0], h[1]
            b = os.path.join(self.work, "h_" + hashlib.md5(repr(h).encode()).hexdigest()[:8])
            jobs.append((os.path.join(HERE, "harness", src), b + ".bc", "ir", list(defs)))
            jobs.append((os.path.join(HERE, "harness", src), b + ".o", "nat", list(defs)))
            self.objs[h] = b
        for x in sorted({x for h in harnesses for x in h[2]}):
            jobs.append((os.path.join(HERE, "harness", x), os.path.join(self.work, x + ".bc"), "ir", []))
        self.compile(jobs)
        for h in harnesses:
            b = self.objs[h]
            r = sh([LINK, "-o", b + ".all.bc", b + ".bc"] + self.repo_ir + [os.path.join(self.work, x + ".bc") for x in h[2]])
            if r.returncode: print(r.stdout); sys.exit(2)
            r = sh(["g++", "-o", b + ".nat", b + ".o", os.path.join(self.work, "rt.o")] + self.repo_nat + WRAP)
            if r.returncode: print(r.stdout); sys.exit(2)

    def asan(self, h):
        b = self.objs[h]
        if not os.path.exists(b + ".asan"):
            fl = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=undefined", "-O1"]
            jobs, objs = [], []
            for i, s in enumerate(sources() + [os.path.join(HERE, "harness", h[0]), os.path.join(HERE, "harness", "native_rt.cpp")]):
                o = os.path.join(self.work, "a%d.o" % i)
                jobs.append((s, o, "nat", fl + list(h[1]))); objs.append(o)
            self.compile(jobs)
            r = sh(["g++", "-fsanitize=address,undefined", "-o", b + ".asan"] + objs + WRAP)
            if r.returncode: print(r.stdout); return None
        return b + ".asan"


def to_native(v):
    """Solver value -> text strtod/atoi reads back as the nearest double / the integer."""
    v = v.strip()
    if v.endswith("?"): v = v[:-1]
    if re.fullmatch(r"-?\d+", v): 
        return v if abs(int(v)) < 2 ** 64 else repr(float(int(v)))
    if "/" in v:
        try: return repr(float(Fraction(v)))
        except OverflowError: return "1e308"
    return v


def run_native(binary, entry, inputs, path, valgrind=False, timeout=120):
    with open(path, "w") as f:
        for k, v in sorted(inputs.items()): f.write("%s\t%s\n" % (k, to_native(v)))
    cmd = [binary, entry, path]
    if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", MALLOC_PERTURB_="165")
    # Sanitized frames are several times larger than ordinary ones: recursion that fits the usual 8 MB must fit here too.
    cmd = ["bash", "-c", 'ulimit -s 524288 2>/dev/null; exec "$@"', "run"] + cmd
    try:
        r = sh(cmd, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout


def nearby(inputs, j):
    out = {}
    for i, (k, v) in enumerate(sorted(inputs.items())):
        t = to_native(v)
        try: x = float(t)
        except ValueError: x = None
        if x is None or abs(x) > 1e5 or x == 0: out[k] = v
        else: out[k] = repr(x * (1 + (1e-4, 1.2345e-6, 3.3e-3)[j - 1] * (1 + (i * 7 + j) % 5 / 7.0)))
    return out


def merge(dst, src):
    for k, v in src.items():
        if isinstance(v, dict): merge(dst.setdefault(k, {}), v)
        elif isinstance(v, list): dst.setdefault(k, []).extend(v)
        elif k == "max_query": dst[k] = max(dst.get(k, 0), v)
        else: dst[k] = dst.get(k, 0) + v


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true"); ap.add_argument("--time", type=float); ap.add_argument("--only", nargs="*")
    ap.add_argument("-v", action="store_true"); ap.add_argument("--dump")
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = CHECKS[pid]
    t0 = time.time()
    build_engine()
    work = tempfile.mkdtemp(prefix="symx_%s_" % pid)
    try:
        rc = decide(a, pid, tier, seed, conf, work, t0)
    finally:
        if a.keep: print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(a, pid, tier, seed, conf, work, t0):
    groups = conf
    hs = []
    for g in groups:
        defs = tuple(g.get("defs", ())) + (tuple(g.get("thorough_defs", ())) if tier == "thorough" else tuple(g.get("quick_defs", ())))
        g["_h"] = (g["harness"], defs, tuple(g.get("extra_ir", ())))
        if g["_h"] not in hs: hs.append(g["_h"])
    b = Build(work)
    b.all(hs)
    tbuild = time.time() - t0
    total, entries_ev, violations, samples, errors = {}, {}, [], [], []
    def explore(g, ents, tm, more=()):
        out = os.path.join(work, "out.json")
        cmd = [ENGINE, "--bc", b.objs[g["_h"]] + ".all.bc", "--out", out, "--workers", "8", "--time", str(tm),
               "--bt", str(g.get("bt", 2000)), "--at", str(g.get("at", 8000 if tier == "quick" else 60000)), "--path-time", str(g.get("path_time", min(tm, 90 if tier == "quick" else 600)))] + list(more)
        if g.get("fp"): cmd.append("--fp")
        if a.dump: os.makedirs(a.dump, exist_ok=True); cmd += ["--dump", a.dump, "--dump-every", "50"]
        for e in ents: cmd += ["--entry", e]
        try:
            r = sh(cmd, timeout=tm + 240)
        except subprocess.TimeoutExpired:
            errors.append("engine timeout"); return
        if r.returncode or not os.path.exists(out):
            errors.append("engine failed: " + r.stdout[-2000:]); return
        res = json.load(open(out)); os.unlink(out)
        gm = {}
        for w in res["workers"]: merge(gm, w)
        for e in ents:
            st = dict(gm.get("entries", {}).get(e, {}))
            st["remaining"] = res["remaining"].get(e, 0)
            bd = BOUNDS[e]
            st["bounds"] = bd[1] if tier == "thorough" and bd[1] else bd[0]
            st["mode"] = "IEEE-754 bit-exact" if g.get("fp") else "exact real arithmetic"
            entries_ev[e] = st
        if res["crashes"]: errors.append("%d worker crashes: %s" % (res["crashes"], sorted(set(res["crash_entries"]))))
        for v in gm.pop("violations", []): v["_g"] = g; violations.append(v)
        for s in gm.pop("samples", []): s["_g"] = g; samples.append(s)
        merge(total, gm)
        total["engine_wall"] = total.get("engine_wall", 0) + res["wall"]
    for g in groups:
        ents = [e for e in g["entries"] if not a.only or e in a.only]
        if not ents: continue
        tm = a.time or g.get("time_thorough" if tier == "thorough" else "time", 300 if tier == "quick" else 3000)
        if tier == "quick" and not a.time: tm = max(20, min(tm, 560 - (time.time() - t0)))
        explore(g, ents, tm)
    # ---------------- native validation of sampled path models
    validated, diverged, valid_list = 0, [], []
    per = {}
    chosen = []
    for s in samples:
        k = s["entry"]
        if per.get(k, 0) < (4 if tier == "quick" else 12): per[k] = per.get(k, 0) + 1; chosen.append(s)
    def val(ix_s):
        ix, s = ix_s
        rc, log = run_native(b.objs[s["_g"]["_h"]] + ".nat", s["entry"], s["inputs"], os.path.join(work, "s%d.in" % ix))
        return s, rc, log
    with cf.ThreadPoolExecutor(8) as ex:
        for s, rc, log in ex.map(val, list(enumerate(chosen))):
            obs = [l.split(" ", 2)[1:] for l in log.splitlines() if l.startswith("OBS ")]
            ok = rc == 0
            why = ""
            if ok:
                if len(obs) != len(s["observed"]): ok, why = False, "number of observations"
                else:
                    for (n, x), (m, y) in zip(s["observed"], obs):
                        if n != m: ok, why = False, "observation order"; break
                        try:
                            fx, fy = float(to_native(x)), float(y)
                        except ValueError:
                            continue
                        if not (fx == fy or abs(fx - fy) <= 1e-6 * max(1.0, abs(fx), abs(fy))): ok, why = False, "%s: engine %s native %s" % (n, x, y); break
            elif rc != 77: why = "native rc=%d: %s" % (rc, log[-300:])
            else: why = "assumption not met after rounding"
            if ok: validated += 1; valid_list.append({"entry": s["entry"], "inputs": {k: to_native(v) for k, v in s["inputs"].items()}, "observed": s["observed"][:12]})
            else: diverged.append({"entry": s["entry"], "inputs": s["inputs"], "why": why})
    # ---------------- replay of counterexamples
    confirmed, spurious, unfinished, spurious_skipped = [], [], [], []
    rdir = os.path.join(HERE, "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    seen = {}
    def key(v): return (v["entry"], v["kind"], v["label"])
    def replay_one(v):
        if seen.get(key(v), 0) >= 1: return
        if time.time() - t0 > (780 if tier == "quick" else 1e9) or (confirmed and time.time() - t0 > 400 and tier == "quick"): spurious_skipped.append(1); return
        h = v["_g"]["_h"]
        p = os.path.join(work, "v.in")
        tries = []
        if v["kind"] in ("memory", "arith"): tries = [("asan", 0), ("nat", 0), ("nat", 1)]
        elif v["kind"] == "uninit": tries = [("nat", 1), ("nat", 0)]
        else: tries = [("nat", 0)]
        tries = [t + (0,) for t in tries]
        # A counterexample may need inputs that are not exactly representable: nearby inputs are replayed as well (the
        # harness re-checks every assumption on the actual inputs).
        if v["kind"] in ("assert", "exception"): tries += [("nat", 0, j) for j in (1, 2, 3)]
        hit = None
        for kind, vg, jit in tries:
            binr = b.asan(h) if kind == "asan" else b.objs[h] + ".nat"
            if not binr: continue
            inputs = nearby(v["inputs"], jit) if jit else v["inputs"]
            rc, log = run_native(binr, v["entry"], inputs, p, valgrind=bool(vg), timeout=20 if v["kind"] == "unfinished" else 60)
            if rc not in (0, 77): hit = (kind, vg, rc, log); v["replayed"] = inputs; break
        if hit and v["kind"] == "unfinished": v["label"] = "does not terminate" if hit[2] == 124 else "fails when run to completion (" + v["label"] + ")"
        if hit:
            seen[key(v)] = seen.get(key(v), 0) + 1
            os.makedirs(rdir, exist_ok=True)
            n = len(confirmed) + 1
            inp = os.path.join(rdir, "cex%d.inputs" % n); shutil.copy(p, inp)
            doc = os.path.join(rdir, "cex%d.json" % n)
            json.dump({"property": pid, "entry": v["entry"], "harness": h[0], "defs": list(h[1]), "label": v["label"], "kind": v["kind"], "where": v["where"], "detail": v["detail"],
                       "inputs": {k: to_native(x) for k, x in v["replayed"].items()}, "solver_model": v["inputs"], "native": {"build": hit[0], "valgrind": bool(hit[1]), "rc": hit[2], "output": hit[3][-3000:]},
                       "rerun": "python3 %s/replay.py %s" % (HERE, doc)}, open(doc, "w"), indent=1)
            confirmed.append((v, doc, hit))
        elif v["kind"] == "unfinished": unfinished.append({"entry": v["entry"], "why": v["label"], "inputs": v["inputs"]})
        else:
            spurious.append({"entry": v["entry"], "label": v["label"], "kind": v["kind"], "where": v["where"], "inputs": v["inputs"]})
    for v in violations: replay_one(v)
    # Exploration of an entry ends early when many of its paths violate; if none of that was reproduced, go on without that limit.
    if violations and not confirmed:
        for g in groups:
            again = [e for e in g["entries"] if entries_ev.get(e, {}).get("remaining") and entries_ev[e].get("violating")]
            left = (620 if tier == "quick" else 3000) - (time.time() - t0)
            if again and left > 30:
                del violations[:]
                explore(g, again, left, ["--max-viol", "1000000000"])
                for v in list(violations): replay_one(v)
    # ---------------- evidence
    fns = {k: c for k, c in total.get("functions", {}).items()}
    repo_fns = demangle([f for f in fns if ("Opm" in f or "tarjan" in f or "scc" in f or "RandomVector" in f or "AssembledConn" in f) and not f.startswith("_ZNSt") and not f.startswith("_ZSt")])
    complete = all(e.get("remaining", 0) == 0 and not e.get("unsupported") and not e.get("limit") for e in entries_ev.values()) and not total.get("asserts_unknown") and not errors and entries_ev
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": sum(e.get("paths", 0) for e in entries_ev.values()),
              "transitions": total.get("decisions", 0),
              "traces_validated_against_impl": validated,
              "samples": valid_list[:6],
              "exhaustive": bool(complete),
              "explanation": "states = symbolic execution paths of the repository's LLVM IR (each a set of inputs given by a path condition); transitions = symbolic branch/concretisation decisions; exhaustive = every path within the stated bounds was completed and every assertion on it discharged",
              "entries": {k: v for k, v in entries_ev.items()},
              "functions_encoded": sorted(set(repo_fns)), "functions_encoded_total": len(fns),
              "instructions_executed": total.get("instrs", 0),
              "asserts": total.get("asserts", 0), "asserts_symbolic": total.get("asserts_symbolic", 0), "asserts_discharged_by_solver": total.get("asserts_discharged", 0), "asserts_decided_by_solver_simplifier": total.get("asserts_folded", 0), "asserts_undecided": total.get("asserts_unknown", 0),
              "asserts_by_label": total.get("asserts_by_label", {}), "undecided_by_label": total.get("unknown_by_label", {}), "reached": total.get("labels", {}),
              "solver": {"name": "z3", "queries": total.get("queries", 0), "sat": total.get("sat", 0), "unsat": total.get("unsat", 0), "unknown": total.get("unknown", 0), "time_s": round(total.get("solver_time", 0), 3), "max_query_s": total.get("max_query", 0),
                         "answered_from_cache": total.get("cache_hits", 0), "answered_by_model": total.get("model_hits", 0), "answered_by_guessed_model": total.get("guess_hits", 0), "branches_undecided": total.get("branch_unknown", 0), "branches_decided_by_interval_reasoning": total.get("interval_decided", 0)},
              "coefficients_rounded_to_128_bits": total.get("coeff_rounded", 0),
              "unsupported_or_cut_paths": total.get("reasons", {}), "native_library_calls": total.get("native", {}),
              "sample_divergences": diverged[:10], "counterexamples_not_reproduced": spurious[:10], "counterexamples_not_replayed": len(spurious_skipped), "unfinished_paths_run_natively": len(unfinished), "engine_errors": errors, "build_s": round(tbuild, 2)},
          "assumptions": COMMON_ASSUMPTIONS + ASSUME.get(pid, []),
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    # ---------------- verdict
    for e, st in entries_ev.items():
        print("%s %s: %s" % (pid, e, " ".join("%s=%s" % (k, st[k]) for k in ("paths", "done", "assume_end", "unsupported", "limit", "violating", "remaining") if k in st)))
    print("queries=%d unsat=%d sat=%d unknown=%d solver=%.1fs asserts=%d discharged=%d simplified=%d undecided=%d validated=%d diverged=%d build=%.1fs wall=%.1fs" % (
        total.get("queries", 0), total.get("unsat", 0), total.get("sat", 0), total.get("unknown", 0), total.get("solver_time", 0), total.get("asserts_symbolic", 0), total.get("asserts_discharged", 0), total.get("asserts_folded", 0), total.get("asserts_unknown", 0), validated, len(diverged), tbuild, time.time() - t0))
    for k, n in sorted(total.get("reasons", {}).items(), key=lambda x: -x[1])[:8]: print("  cut: %dx %s" % (n, k))
    for e in errors: print("  error:", e)
    for d in diverged[:5]: print("  diverged:", d["entry"], d["why"][:400], json.dumps(d["inputs"])[:400] if a.v else "")
    for s in spurious[:5]: print("  not reproduced:", s["entry"], s["kind"], s["label"], s["where"][:300], json.dumps(s["inputs"])[:600] if a.v else "")
    if confirmed:
        for v, doc, hit in confirmed:
            print("counterexample [%s] %s: %s" % (v["kind"], v["label"], v["where"][:300]))
            if a.v: print("   ", json.dumps(v["inputs"])[:1500]); print("   ", hit[3][-400:])
        print("VIOLATION property=%s replay=%s" % (pid, confirmed[0][1]))
        return 1
    dead = [e for e, st in entries_ev.items() if st.get("done", 0) == 0]
    if not entries_ev or len(dead) == len(entries_ev):
        print("nothing could be decided (no completed path)"); return 2
    if dead: print("warning: no completed path in", dead)
    return 0


def demangle(names):
    if not names: return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return [re.sub(r"\(.*", "", x) for x in r.stdout.splitlines()]


if __name__ == "__main__":
    main()

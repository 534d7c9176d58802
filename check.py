#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--only HARNESS] [-v]
Compiles the harnesses of one property against /repo's current headers to LLVM bitcode, executes them
symbolically with /verif/build/msym (z3 decides every symbolic branch and assertion), replays every
counterexample natively, writes evidence/PID.json.  Exit 0 held / 1 VIOLATION / 2 error of the check."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import props
DEFS = "BOOST_ALLOW_DEPRECATED_HEADERS BOOST_CHRONO_NO_LIB BOOST_GEOMETRY_INDEX_DETAIL_EXPERIMENTAL BOOST_PROGRAM_OPTIONS_NO_LIB BOOST_SERIALIZATION_NO_LIB BOOST_THREAD_NO_LIB BOOST_THREAD_VERSION=5 HAS_STRING_VIEW=1 MM2_ENABLE_RPMALLOC ONLY_C_LOCALE=1 _USE_MATH_DEFINES".split()
CXX = ["clang++-18", "-std=c++20", "-w", "-fno-vectorize", "-fno-slp-vectorize"] + ["-D" + d for d in DEFS] + [f"-I{REPO}/src/library/include", f"-I{REPO}/src/app/include", f"-I{REPO}/src/library/src", f"-I{REPO}/src/app/src", f"-I{V}/harness", f"-I{V}/stubs", f"-DREPO_SRC=\"{REPO}/src/library/src\"", f"-DREPO_APP=\"{REPO}/src/app/src\""]
VALUE = re.compile(r"^(\w) (.*)$")

def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

def dflags(h): return ["-D%s=%s" % (k, v) for k, v in h.get("defs", {}).items()]
def compile_bc(h, bdir):
    out = os.path.join(bdir, h["name"] + ".bc")
    rc, o = run(CXX + ["-O1", "-emit-llvm", "-c", *dflags(h), os.path.join(V, "harness", h["src"]), "-o", out])
    return rc, o, out
def compile_native(h, bdir, san):
    out = os.path.join(bdir, h["name"] + (".asan" if san else ".nat"))
    if os.path.exists(out): return 0, "", out
    rc, o = run(CXX + (["-O1", "-g1", "-fsanitize=address"] if san else ["-O1"]) + dflags(h) + [os.path.join(V, "harness", h["src"]), os.path.join(V, "harness", "replay.cpp"), "-o", out + ".t", "-lboost_serialization", "-lboost_program_options", "-lpthread"])
    if rc == 0: os.rename(out + ".t", out)
    return rc, o, out
def write_inputs(js, path):
    with open(path, "w") as f:
        for i in js["inputs"]:
            m = VALUE.match(i["value"]); f.write(f'{i["name"]} {m.group(1)} {m.group(2)}\n')
def replay(exe, inp, timeout=30):
    env = dict(os.environ, SYM_REPLAY=inp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99")
    return run([exe], timeout=timeout, env=env, cwd="/tmp")

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("-v", action="store_true"); ap.add_argument("--profile", action="store_true")
    a = ap.parse_args(); pid = a.pid; t0 = time.time()
    P = props.PROPS[pid]
    rc, o = run(["bash", os.path.join(V, "engine", "build.sh")])
    if rc != 0: print(o[-3000:]); print("ERROR: engine build failed"); return 2
    hs = [h for h in P["harnesses"] if a.tier in h.get("tiers", ("quick", "thorough")) and (not a.only or a.only == h["name"])]
    bdir = os.path.join(V, "build", "run", pid); shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    known = [l.split(None, 1)[1] for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("known: ")] if os.path.exists(os.path.join(V, "known_findings.txt")) else []
    known = [dict(x.split("=", 1) for x in l.split(" | ")[0].split()) | {"what": l.split(" | ", 1)[1].strip()} for l in known if f"property={pid} " in l]
    # compile everything in parallel: bitcode for the engine, native for validating sample paths
    nat = {}
    with cf.ThreadPoolExecutor(8) as ex:
        fb = {h["name"]: ex.submit(compile_bc, h, bdir) for h in hs}
        fn = {h["name"]: ex.submit(compile_native, h, bdir, False) for h in hs if h.get("native", True)}
        errs = [(n, f.result()[1]) for n, f in fb.items() if f.result()[0] != 0]
        if errs:
            for n, o in errs[:2]: print(f"ERROR: harness {n} does not compile:\n{o[:1200]}")
            return 2
        def go(h):
            jobs = h.get("jobs", max(3, 8 // max(1, min(3, len(hs)))))
            od = os.path.join(bdir, h["name"] + ".out"); os.makedirs(od, exist_ok=True); st = os.path.join(bdir, h["name"] + ".json")
            tl = h.get("time", 120) * (1 if a.tier == "quick" else h.get("thorough_factor", 1))
            cmd = [os.path.join(V, "build", "msym"), fb[h["name"]].result()[2], "--out", od, "--stats", st, "--time", str(tl), "--jobs", str(jobs), "--max-steps", str(h.get("max_steps", 20000000)), "--max-viol", str(h.get("max_viol", 6)), "--samples", "12", *h.get("args", [])] + (["--profile"] if a.profile else [])
            rc, o = run(cmd, timeout=tl + 60)
            try: r = json.load(open(st))
            except Exception: r = None
            return h, rc, o, r, od
        res = [f.result() for f in [ex2.submit(go, h) for ex2 in [cf.ThreadPoolExecutor(3)] for h in hs]]
    status = 0; viol_lines = []; ev_h = []; samples = []; tot = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_seconds=0.0, instructions=0, asserts=0, asserts_proved_by_solver=0, case_splits=0)
    functions = set(); validated = 0; mism = []; unconf = []; ended = False
    for h, rc, o, r, od in res:
        n = h["name"]
        if a.v and o: print(o[:6000])
        if r is None: print(f"ERROR: engine gave no result on {n}: rc={rc} {o[-800:]}"); status = 2; continue
        for k in tot: tot[k] += r[k]
        functions.update(r["functions"])
        missing = [t for t in h.get("reach", ["end"]) if not r["reach"].get(t)]
        vio = sorted(f for f in os.listdir(od) if f.startswith("viol-"))
        # validate sample paths of the model against the native build
        if n in fn and not vio:
            nrc, no, exe = fn[n].result()
            if nrc != 0: print(f"ERROR: native build of {n} failed: {no[:1500]}"); status = 2
            else:
                for s in sorted(f for f in os.listdir(od) if f.startswith("sample-")):
                    js = json.load(open(os.path.join(od, s))); ip = os.path.join(od, s + ".in"); write_inputs(js, ip); c, oo = replay(exe, ip)
                    if c == 0: validated += 1
                    else: mism.append(f"{n} {s}: native exit {c} {oo[-200:]}")
                    if len(samples) < 12 and c == 0: samples.append({"harness": n, "path": js["path"], "inputs": {i["name"]: i["value"] for i in js["inputs"][:40]}})
        for vf in vio:
            js = json.load(open(os.path.join(od, vf))); ip = os.path.join(od, vf + ".in"); write_inputs(js, ip)
            san = js["kind"] == "memory"; nrc, no, exe = compile_native(h, bdir, san)
            if nrc != 0: unconf.append(f"{n} {js['message']}: native build failed {no[:300]}"); continue
            c, oo = replay(exe, ip)
            if c == 0 and not san:
                nrc, no, exe2 = compile_native(h, bdir, True)
                if nrc == 0: c, oo = replay(exe2, ip)
            if c in (0, 77): unconf.append(f"{n}: {js['kind']} {js['message']} not reproduced natively (exit {c})"); continue
            kf = next((k for k in known if k.get("harness") == n and k.get("key", "\0") in js["message"].replace(" ", "_")), None)
            if kf:
                print(f"KNOWN-FINDING: property={pid} {kf['what']}"); continue
            rp = os.path.join(od, vf); js.update(property=pid, harness=n, source=os.path.join(V, "harness", h["src"]), native_exit=c, native_output=oo[-1500:], replay_cmd=f"SYM_REPLAY={ip} SYM_TRACE=1 {exe}"); json.dump(js, open(rp, "w"), indent=1)
            print(f"{n}: {js['kind']}: {js['message']}\n  inputs: " + ", ".join(f"{i['name']}={i['value'][2:]}" for i in js["inputs"][:60]) + f"\n  native replay: exit {c} {oo[-300:].strip()}")
            viol_lines.append(f"VIOLATION property={pid} replay={rp}")
            break
        if not vio and missing and not r["timed_out"]: print(f"ERROR: harness {n} never reached {missing} (vacuous): {r['incomplete_reasons']}"); status = 2
        complete = not r["timed_out"] and r["incomplete"] == 0 and not vio
        ev_h.append({"harness": n, "bounds": h.get("bounds", ""), "complete_within_bounds": complete, "paths": r["paths"], "pruned_by_assumptions": r["pruned"], "queries": r["queries"], "sat": r["sat"], "unsat": r["unsat"], "solver_seconds": round(r["solver_seconds"], 2), "asserts": r["asserts"], "asserts_proved_by_solver": r["asserts_proved_by_solver"], "instructions": r["instructions"], "elapsed_s": round(r["elapsed"], 1), "timed_out": r["timed_out"], "incomplete": r["incomplete_reasons"], "reached": r["reach"]})
        print(f"  {n}: {'complete' if complete else 'VIOLATED' if vio else 'INCOMPLETE'} paths={r['paths']} queries={r['queries']} solver={r['solver_seconds']:.1f}s elapsed={r['elapsed']:.1f}s asserts={r['asserts']} {' timed out' if r['timed_out'] else ''} {r['incomplete_reasons'] or ''}")
    for m in mism: print("MODEL MISMATCH (engine vs native):", m)
    for u in unconf: print("UNCONFIRMED:", u)
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "wall_s": round(time.time() - t0, 1), "violations": len(viol_lines), "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
          "coverage": {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated, "samples": samples or [{"note": "no completed path"}], "symbolic_paths": tot["paths"], "forks": tot["forks"], "solver_queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "solver_seconds": round(tot["solver_seconds"], 2), "instructions_executed": tot["instructions"], "assertions_evaluated": tot["asserts"], "assertions_proved_by_solver": tot["asserts_proved_by_solver"], "case_splits": tot["case_splits"], "harnesses": ev_h, "functions_encoded": sorted(functions), "model_mismatches": mism, "unconfirmed_counterexamples": unconf, "outside_bounds": P.get("outside", "")}}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for l in viol_lines: print(l)
    if mism and status == 0 and not viol_lines: status = 2
    return 1 if viol_lines else status
if __name__ == "__main__":
    sys.exit(main())

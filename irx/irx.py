#!/usr/bin/env python3
"""Engine 2: symbolic execution of clang's LLVM IR of the real utility classes
(irx.cpp). Builds harness and executor against the current tree, explores every
harness, replays candidate counterexamples natively under ASan/UBSan, writes
evidence/<id>.json.    irx.py ID [--thorough] [--replay FILE] [--only RE] [-v]
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path.insert(0, TOP)
import check as base
from check import run, REPO, Z3, NCPU

INC = ["-I" + HERE, f"-I{REPO}/include", f"-I{TOP}/shim", "-I/usr/include/eigen3"]
STD = ["clang++", "-std=c++23", "-w", "-DEIGEN_DONT_VECTORIZE"]
# Function-local statics without locks; arithmetic UB becomes a trap call the executor reports.
BC = STD + ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-threadsafe-statics", "-fno-unroll-loops",
            "-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift", "-fsanitize-trap=all",
            "-emit-llvm", "-c"] + INC
NATIVE = STD + ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + INC
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:alloc_dealloc_mismatch=0",
           UBSAN_OPTIONS="exitcode=99")

def build(bdir, tu, ex):
    jobs = [(["g++", "-std=c++20", "-O2", "-w", f"{HERE}/irx.cpp", f"-I{Z3}/include", "-I/usr/lib/llvm-18/include",
              "-L/usr/lib/llvm-18/lib", "-lLLVM-18", f"{Z3}/lib/libz3.so", f"-Wl,-rpath,{Z3}/lib", "-o", f"{bdir}/irx"], ""),
            (BC + [f"{HERE}/harness/{tu}.cpp", "-o", f"{bdir}/{tu}.bc"], "")]
    native = ex.submit(base.compile_one, (NATIVE + ["-c", f"{HERE}/harness/{tu}.cpp", "-o", f"{bdir}/{tu}.o"], ""))
    list(ex.map(base.compile_one, jobs))
    rc, out, _ = run([f"{bdir}/irx", "--list", f"{bdir}/{tu}.bc"])
    hs = []
    for line in out.splitlines():
        name, shards, th, bounds = line.split("\t", 3)
        hs.append((name, int(shards), th == "1", bounds))
    with open(f"{bdir}/entries.cpp", "w") as f:
        f.write('struct Entry { const char* name; void (*run)(); };\n')
        f.writelines(f'extern "C" void irx_run_{n}();\n' for n, *_ in hs)
        f.write("extern const Entry vx_entries[];\nconst Entry vx_entries[] = {" +
                "".join(f'{{"{n}", irx_run_{n}}}, ' for n, *_ in hs) + "{nullptr, nullptr}};\n")
    native.result()
    base.compile_one((NATIVE + [f"{HERE}/vx_replay.cpp", f"{bdir}/entries.cpp", f"{bdir}/{tu}.o", "-o", f"{bdir}/{tu}.native"], ""))
    return hs

def replay(bdir, tu, harness, label, kind, path, thorough):
    cmd = [f"{bdir}/{tu}.native", harness, path, "" if kind != "check" else label] + (["t"] if thorough else [])
    rc, out, _ = run(cmd, timeout=60, env=ENV)
    return rc in (10, 99, 142, 124) or rc < 0, out

def demangle(names):
    rc, out, _ = run(["sh", "-c", "c++filt <<'EOF'\n" + "\n".join(names) + "\nEOF"])
    return sorted({l[:160] for l in out.splitlines() if "slp::" in l})

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    cfg = base.load_config()[a.prop]
    os.makedirs(f"{TOP}/evidence/replays", exist_ok=True)
    ev = f"{TOP}/evidence/{a.prop}.json"
    if not a.replay and os.path.exists(ev):
        os.remove(ev)
    bdir = tempfile.mkdtemp(prefix=f"irx-{a.prop}-")
    try:
        rc = body(a, cfg, ev, bdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)

def body(a, cfg, ev_path, bdir):
    t0 = time.time()
    ex = cf.ThreadPoolExecutor(NCPU)
    tu = a.prop.lower()
    try:
        hs = build(bdir, tu, ex)
    except base.BuildError as e:
        print(e)
        print(f"ERROR: harnesses of {a.prop} do not build against the current tree")
        return 3
    t_build = time.time() - t0
    if a.replay:
        meta = dict(re.findall(r"^# (\w+) (.*)$", open(a.replay).read(), re.M))
        ok, out = replay(bdir, tu, meta["harness"], meta["label"], meta["kind"], a.replay, a.thorough)
        print(out)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    budget = 1800 if a.thorough else 200
    jobs = []
    for name, shards, th, bounds in hs:
        if th and not a.thorough or a.only and not re.search(a.only, name):
            continue
        jobs += [(name, s if shards > 1 else -1, bounds) for s in range(shards)]
    def one(job):
        name, s, bounds = job
        out = f"{bdir}/{name}.{s}.json"
        left = budget if a.thorough else min(budget, t0 + 540 - time.time())
        if left < 3:
            return job, None, "not run: time limit of the check", None
        cmd = [f"{bdir}/irx", f"{bdir}/{tu}.bc", "--harness", name, "--out", out, "--budget", str(left)]
        cmd += ["--shard", str(s)] if s >= 0 else []
        cmd += ["--thorough"] if a.thorough else []
        rc, log, dt = run(cmd, timeout=left * 1.5 + 60)
        res = None
        try:
            res = json.load(open(out))
        except (OSError, ValueError):
            pass
        if a.v:
            print(f"  {name}[{s}] rc={rc} {dt:.1f}s", {k: res[k] for k in ("paths", "killed", "truncated", "queries", "unknown", "pending", "error")} if res else log[-300:], flush=True)
        return job, rc, log, res
    results = list(ex.map(one, jobs))
    agg = dict(paths=0, killed=0, truncated=0, queries=0, sat=0, unsat=0, unknown=0, branch_decisions=0, steps=0, solver_s=0.0)
    lab, harn, errors, cands, fns = {}, [], [], {}, set()
    for (name, s, bounds), rc, log, res in results:
        if res is None:
            errors.append(f"{name}[{s}]: rc={rc} {log[-300:]}")
            continue
        for k in agg:
            agg[k] += res[k]
        fns |= set(res["functions"])
        h = {k: res[k] for k in ("harness", "shard", "complete", "paths", "killed", "truncated", "queries", "unknown", "solver_s", "wall_s", "pending")}
        h.update(bounds=bounds, checks=res["labels"], reached=res["reached"])
        harn.append(h)
        if res["error"]:
            errors.append(f"{name}[{s}]: {res['error']}")
        for l, d in res["labels"].items():
            e = lab.setdefault(name + "/" + l, dict(evaluated=0, discharged=0, trivial=0, unknown=0, refuted=0))
            for k in e:
                e[k] += d[k]
        for c in res["candidates"]:
            cands.setdefault((name, c["label"]), []).append(c)
        if not res["paths"] and not res["candidates"]:
            errors.append(f"{name}[{s}]: no completed path")
    known = base.load_known()
    violations, unconfirmed, hits = [], [], set()
    tried = 0
    for (name, label), cs in cands.items():
        for c in cs[:8]:
            key = hashlib.sha1(json.dumps([name, label, c["inputs"]]).encode()).hexdigest()[:10]
            path = f"{TOP}/evidence/replays/{a.prop}-{name}-{key}.txt"
            with open(path, "w") as f:
                f.write(f"# property {a.prop}\n# harness {name}\n# label {label}\n# kind {c['kind']}\n# note {c['note']}\n")
                f.writelines(f"v {n.replace(' ', '_')} {v}\n" for n, v in c["inputs"])
            ok, out = replay(bdir, tu, name, label, c["kind"], path, a.thorough)
            tried += 1
            c["choices"] = dict(c["inputs"])
            if not ok:
                os.remove(path)
                unconfirmed.append({"harness": name, "label": label, "note": c["note"], "inputs": c["inputs"], "replay": out[-200:]})
                continue
            k = base.match_known(known, a.prop, name, c)
            if k:
                hits.add(k["what"])
                continue
            violations.append((name, c, path, [l for l in out.splitlines() if l.strip()][:3]))
            break
    for k in sorted(hits):
        print(f"KNOWN-FINDING: property={a.prop} {k}")
    for name, c, path, out in violations:
        print(f"VIOLATION property={a.prop} replay={path}")
        print(f"  harness {name}, check '{c['label']}' ({c['kind']}): {c['note']} {dict(c['inputs'])}")
        for l in out:
            print("  " + l[:300])
    ev_n = sum(d["evaluated"] for d in lab.values())
    disc = sum(d["discharged"] for d in lab.values())
    rc, deps, _ = run(STD + ["-MM"] + INC + [f"{HERE}/harness/{tu}.cpp"])
    files = sorted({os.path.normpath(w)[len(REPO) + 1:] for w in deps.split() if os.path.normpath(w).startswith(REPO + "/")})
    ev = {
        "property": a.prop, "tier": "thorough" if a.thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": cfg.get("level", "other"), "wall_s": round(time.time() - t0, 2), "assumptions": cfg.get("assumptions", []),
        "violations": [{"replay": p, "summary": f"{n}/{c['label']}: {c['note'][:300]}"} for n, c, p, _ in violations],
        "coverage": {
            "explanation": "Symbolic execution of the LLVM IR clang emits for the real classes: integers are bit-vectors of their real width, every branch, memory access and assertion is decided by Z3 for all values within the bounds; counterexamples are replayed natively under ASan/UBSan.",
            "functions_encoded": demangle(sorted(fns)), "files_encoded": files, "harnesses": harn,
            "assertions_evaluated": ev_n, "assertions_discharged": disc,
            "assertions_unknown": sum(d["unknown"] for d in lab.values()), "assertions_refuted": sum(d["refuted"] for d in lab.values()),
            "obligations": ev_n, "discharged": disc, "states": agg["paths"], "transitions": agg["branch_decisions"],
            "paths": agg, "queries_discharged": agg["sat"] + agg["unsat"], "solver_s": round(agg["solver_s"], 2), "build_s": round(t_build, 1),
            "unconfirmed_candidates": unconfirmed[:40], "n_unconfirmed": len(unconfirmed), "known_findings_hit": sorted(hits),
            "errors": errors, "traces_validated_against_impl": tried,
            "samples": [f"{h['harness']}[{h['shard']}]: {h['paths']} feasible paths, checks {', '.join(list(h['checks'])[:6])}" for h in harn[:5]],
        },
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop} [{ev['tier']}]: {len(harn)} harness runs, {agg['paths']} paths, {ev_n} assertions, {disc} discharged, "
          f"{ev['coverage']['assertions_unknown']} unknown, {len(unconfirmed)} unconfirmed candidates, {agg['queries']} queries, "
          f"solver {agg['solver_s']:.1f}s, build {t_build:.0f}s, wall {ev['wall_s']}s")
    for e in errors:
        print("ERROR:", e)
    if a.v:
        for u in unconfirmed[:10]:
            print("  unconfirmed", u)
        for l, d in lab.items():
            if d["evaluated"] != d["discharged"]:
                print("  ", l, d)
    return 1 if violations else 3 if errors and not harn else 0

if __name__ == "__main__":
    main()

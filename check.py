#!/usr/bin/env python3
"""Driver: builds the harnesses of one property against /repo's current tree,
explores them symbolically, replays candidate counterexamples on the real code
with real doubles, writes evidence/<id>.json.

  check.py ID [--thorough]
  check.py ID --replay FILE
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SLEIPNIR_REPO", "/repo")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX = "g++-14"
NCPU = int(os.environ.get("VERIF_JOBS", "8"))

DEFS = ["-DSLEIPNIR_PYTHON", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE",
        "-DEIGEN_NO_STATIC_ASSERT_SKIP", "-DSLP_VERIF"]
INC = [f"-I{REPO}/include", f"-I{HERE}/shim", f"-I{HERE}/engine", f"-I{HERE}/harness",
       "-I/usr/include/eigen3", f"-I{Z3}/include", "-include", "eigen_compat.hpp"]

def load_config():
    return json.load(open(f"{HERE}/checks.json"))

def run(cmd, timeout=None, cwd=None, env=None):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode(errors="replace"), time.time() - t0
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace"), time.time() - t0

class Explorers:
    """The exploration processes that are running; stop() ends them all (a violation has been confirmed)."""
    def __init__(self):
        self.lock, self.live, self.stopped = threading.Lock(), set(), False

    def run(self, cmd, timeout, env):
        t0 = time.time()
        with self.lock:
            if self.stopped:
                return -9, "", 0.0
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
            self.live.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            self.kill(p)
            out, _ = p.communicate()
            rc = 124
        with self.lock:
            self.live.discard(p)
        return rc, (out or b"").decode(errors="replace"), time.time() - t0

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def stop(self):
        with self.lock:
            self.stopped = True
            for p in self.live:
                self.kill(p)

class BuildError(Exception):
    pass

def compile_one(args):
    cmd, out = args
    rc, log, dt = run(cmd, timeout=600)
    if rc:
        raise BuildError(f"$ {' '.join(cmd)}\n{log[-6000:]}")
    return out

def build(tus, bdir, ex):
    """Compile engine, replay runner, pool.cpp and every harness TU twice."""
    jobs = []
    base = [CXX, "-std=c++23", "-g0", "-w"] + DEFS + INC
    for tu in tus:
        src = f"{HERE}/harness/{tu}.cpp"
        jobs.append((base + ["-O1", "-c", src, "-o", f"{bdir}/{tu}.sym.o"], ""))
        jobs.append((base + ["-O1", "-DSYMX_REPLAY", "-c", src, "-o", f"{bdir}/{tu}.dbl.o"], ""))
    jobs.append((base + ["-O1", "-c", f"{HERE}/engine/engine.cpp", "-o", f"{bdir}/engine.o"], ""))
    jobs.append((base + ["-O1", "-DSYMX_REPLAY", "-c", f"{HERE}/engine/replay.cpp", "-o", f"{bdir}/replay.o"], ""))
    jobs.append((base + ["-O1", "-c", f"{REPO}/src/util/pool.cpp", "-o", f"{bdir}/pool.o"], ""))
    list(ex.map(compile_one, jobs))
    links = []
    for tu in tus:
        links.append(([CXX, f"{bdir}/{tu}.sym.o", f"{bdir}/engine.o", f"{bdir}/pool.o", f"{Z3}/lib/libz3.so",
                       f"-Wl,-rpath,{Z3}/lib", "-lpthread", "-o", f"{bdir}/{tu}.sym"], ""))
        links.append(([CXX, f"{bdir}/{tu}.dbl.o", f"{bdir}/replay.o", f"{bdir}/pool.o", "-lpthread", "-o",
                       f"{bdir}/{tu}.dbl"], ""))
    list(ex.map(compile_one, links))

def encoded_functions(bdir, tus):
    fns = set()
    for tu in tus:
        rc, out, _ = run(["nm", "-C", "--defined-only", f"{bdir}/{tu}.sym"])
        for line in out.splitlines():
            m = re.match(r"^[0-9a-f]+ [WwTtVu] (.*)$", line)
            if m and "slp::" in m.group(1) and "symx::Sym" in m.group(1):
                name = m.group(1)
                mm = re.search(r"slp::[A-Za-z_:~]*(?:<symx::Sym[^>]*>)?(?:::[~A-Za-z_]+)?", name)
                if mm and not name.startswith(("typeinfo", "vtable", "guard", "std::", "void std::", "Eigen::", "void Eigen::", "bool Eigen")):
                    fns.add(mm.group(0).replace("<symx::Sym>", "<Scalar>").replace("<symx::Sym", "<Scalar"))
    return sorted(fns)

def repo_files(bdir, tus):
    fs = set()
    for tu in tus:
        rc, out, _ = run([CXX, "-std=c++23", "-MM"] + DEFS + INC + [f"{HERE}/harness/{tu}.cpp"])
        for w in out.split():
            w = os.path.normpath(w)
            if w.startswith(REPO + "/"):
                fs.add(w[len(REPO) + 1:])
    return sorted(fs)

def replay_file_text(prop, tu, cand, harness):
    lines = [f"# property {prop}", f"# tu {tu}", f"# harness {harness}", f"# label {cand['label']}",
             f"# kind {cand['kind']}", "# note " + cand["note"].replace("\n", " ")[:1500]]
    for k, v in cand["inputs"].items():
        lines.append(f"r {k} {v if v is not None else 1.0!r}")
    for k, v in cand["choices"].items():
        lines.append(f"c {k} {v}")
    return "\n".join(lines) + "\n"

def do_replay(binary, harness, label, path, kind, thorough, tries):
    env = dict(os.environ, MALLOC_PERTURB_="165")
    cmd = [binary, "--harness", harness, "--inputs", path]
    if kind not in ("crash",):
        cmd += ["--label", label]
    if thorough:
        cmd += ["--thorough"]
    for t in ([1] if kind == "crash" else [1, tries]):
        rc, out, dt = run(cmd + ["--tries", str(t)], timeout=60, env=env)
        if rc == 10:
            return True, out
        if rc < 0 or rc in (134, 139):
            if kind == "crash" or t == 1:
                if kind == "crash" and label == "terminates" and rc != -14:
                    continue
                if rc == -14 and label != "terminates":
                    continue
                return True, f"real code died with signal {-rc}\n" + out
        if rc == 124 and label == "terminates":
            return True, "real code did not terminate\n"
    return False, out

def load_known():
    try:
        return json.load(open(f"{HERE}/known_findings.json"))["findings"]
    except FileNotFoundError:
        return []

def match_known(known, prop, harness, cand):
    for k in known:
        if k.get("status") != "known" or k["property"] != prop:
            continue
        if k.get("harness") not in (None, harness):
            continue
        if k.get("label") not in (None, cand["label"]):
            continue
        if any(cand["choices"].get(a) != b for a, b in k.get("choices", {}).items()):
            continue
        return k
    return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only harnesses matching this regex (debugging)")
    ap.add_argument("--keep", help="build directory to keep (debugging)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    cfg = load_config()[a.prop]
    if "script" in cfg:  # checks with a dedicated engine
        cmd = [sys.executable if not cfg.get("python") else cfg["python"], f"{HERE}/{cfg['script']}", a.prop]
        if a.thorough:
            cmd.append("--thorough")
        if a.replay:
            cmd += ["--replay", a.replay]
        sys.exit(subprocess.call(cmd))
    tus = cfg["tus"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.thorough else "quick"
    os.makedirs(f"{HERE}/evidence/replays", exist_ok=True)
    ev_path = f"{HERE}/evidence/{a.prop}.json"
    if not a.replay and os.path.exists(ev_path):
        os.remove(ev_path)
    bdir = a.keep or tempfile.mkdtemp(prefix=f"symx-{a.prop}-")
    os.makedirs(bdir, exist_ok=True)
    try:
        rc = body(a, cfg, tus, seed, tier, ev_path, bdir, t0)
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)

def body(a, cfg, tus, seed, tier, ev_path, bdir, t0):
    ex = cf.ThreadPoolExecutor(NCPU)
    try:
        build(tus, bdir, ex)
    except BuildError as e:
        print(e)
        print(f"ERROR: harnesses of {a.prop} do not build against the current tree")
        return 3
    t_build = time.time() - t0
    if a.replay:
        meta = dict(re.findall(r"^# (\w+) (.*)$", open(a.replay).read(), re.M))
        ok, out = do_replay(f"{bdir}/{meta['tu']}.dbl", meta["harness"], meta["label"], a.replay, meta["kind"], a.thorough, 200)
        print(out)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    only_pat = a.only or cfg.get("only")
    skip = cfg.get("skip")
    budget = cfg.get("budget_thorough" if a.thorough else "budget", 1800 if a.thorough else 200)
    jobs = []
    for tu in tus:
        rc, out, _ = run([f"{bdir}/{tu}.sym", "--list"])
        if rc:
            print(out)
            return 3
        for line in out.splitlines():
            name, shards, th, bounds = line.split("\t", 3)
            if th == "1" and not a.thorough:
                continue
            if only_pat and not re.search(only_pat, name):
                continue
            if skip and re.search(skip, name):
                continue
            n = int(shards)
            for s in range(n):
                jobs.append((tu, name, s if n > 1 else -1, bounds))
    known = load_known()
    explorers = Explorers()
    # wall-clock limits of the whole check: exploration, then confirmation of what is left
    end_explore = t0 + (1e9 if a.thorough else float(cfg.get("wall", 540)))
    end_confirm = end_explore + 200
    tried, tried_lock, confirmed = set(), threading.Lock(), []
    def confirm(j):
        tu, name, c = j
        ident = json.dumps([name, c["label"], c["choices"], c["inputs"]], sort_keys=True)
        with tried_lock:
            if ident in tried or time.time() > end_confirm:
                return None
            tried.add(ident)
        key = hashlib.sha1(json.dumps([name, c["label"], c["choices"], c["inputs"]], sort_keys=True).encode()).hexdigest()[:10]
        path = f"{HERE}/evidence/replays/{a.prop}-{name}-{key}.txt"
        with open(path, "w") as f:
            f.write(replay_file_text(a.prop, tu, c, name))
        ok, out = do_replay(f"{bdir}/{tu}.dbl", name, c["label"], path, c["kind"], a.thorough, 200)
        if ok:
            m = [l for l in out.splitlines() if re.match(r"^[rc] ", l)]
            if m:
                with open(path, "w") as f:
                    f.write("".join(l + "\n" for l in replay_file_text(a.prop, tu, c, name).splitlines() if l.startswith("#")))
                    f.write("\n".join(m) + "\n")
        else:
            os.remove(path)
        with tried_lock:
            confirmed.append((j, ok, out, path))
        return j, ok, out
    def select(cands):
        per_label = {}
        for c in cands:
            per_label.setdefault(c["label"], []).append(c)
        return [c for cs in per_label.values() for c in cs[:6]]
    def one(job):
        tu, name, s, bounds = job
        budget_left = min(budget, end_explore - time.time())
        if explorers.stopped or budget_left < 3:
            return job, None, "not run: " + ("a violation had been confirmed" if explorers.stopped else "time limit of the check"), 0, None
        out = f"{bdir}/{name}.{s}.json"
        cmd = [f"{bdir}/{tu}.sym", "--harness", name, "--out", out, "--budget", str(budget_left), "--seed", str(seed)]
        if s >= 0:
            cmd += ["--shard", str(s)]
        if a.thorough:
            cmd += ["--thorough"]
        env = dict(os.environ, MALLOC_PERTURB_="165")
        rc, log, dt = explorers.run(cmd, budget_left * 1.5 + 30, env)
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                pass
        if a.v:
            print(f"  {name}[{s}] rc={rc} {dt:.1f}s", {k: res[k] for k in ("paths", "killed", "truncated", "queries", "unknown", "pending")} if res else log[-300:], flush=True)
            if log.strip():
                print("   ", log.strip()[-400:])
        for c in select(res["candidates"] if res else []):
            if explorers.stopped:
                break
            r = confirm((tu, name, c))
            if r and r[1] and not match_known(known, a.prop, name, c):
                explorers.stop()
        return job, rc, log, dt, res
    results = list(ex.map(one, jobs))
    violations, knownhits, unconfirmed, errors = [], [], [], []
    samples = []
    agg = dict(paths=0, killed=0, truncated=0, exceptions=0, queries=0, sat=0, unsat=0, unknown=0,
               branch_decisions=0, branch_unknown=0, solver_s=0.0, witness=0)
    lab = {}
    harn = []
    seen = set()
    not_run = []
    for (tu, name, s, bounds), rc, log, dt, res in results:
        if res is None and (rc is None or explorers.stopped):
            not_run.append(f"{name}[{s}]: {log or 'stopped: a violation had been confirmed'}")
            continue
        if res is None:
            errors.append(f"{name}[{s}]: rc={rc} {log[-300:]}")
            continue
        for k in agg:
            agg[k] += res[k]
        h = {k: res[k] for k in ("harness", "shard", "bounds", "complete", "paths", "killed", "truncated", "queries",
                                 "unknown", "branch_unknown", "solver_s", "wall_s", "witness", "pending")}
        h["checks"] = res["labels"]
        h["reached"] = res.get("reached", {})
        harn.append(h)
        for l, d in res["labels"].items():
            e = lab.setdefault(name + "/" + l, dict(evaluated=0, discharged=0, trivial=0, unknown=0, refuted=0))
            for k in e:
                e[k] += d[k]
        if not res["paths"] and not res["candidates"]:
            errors.append(f"{name}[{s}]: no completed path (vacuous or truncated)")
    for (tu, name, c), ok, out, path in sorted(confirmed, key=lambda r: json.dumps([r[0][1], r[0][2]['label'], r[0][2]['choices'], r[0][2]['inputs']], sort_keys=True)):
        key = (name, c["label"])
        if ok:
            k = match_known(known, a.prop, name, c)
            if k:
                knownhits.append((k, path))
            elif key not in seen:
                seen.add(key)
                violations.append((name, c, path, out.strip().splitlines()[0] if out.strip() else ""))
        else:
            unconfirmed.append({"harness": name, "label": c["label"], "kind": c["kind"], "note": c["note"][:300], "replay": out.strip()[-200:],
                                "inputs": c["inputs"], "choices": c["choices"]})
    for h in harn[:5]:
        samples.append(f"{h['harness']}: {h['paths']} feasible paths, checks {', '.join(list(h['checks'])[:6])}")
    disc = sum(d["discharged"] for d in lab.values())
    evald = sum(d["evaluated"] for d in lab.values())
    seenk = set()
    for k, path in knownhits:
        if k["what"] not in seenk:
            seenk.add(k["what"])
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    for name, c, path, first in violations:
        print(f"VIOLATION property={a.prop} replay={path}")
        print(f"  harness {name}, check '{c['label']}' ({c['kind']}): {c['note'][:400]}")
        print(f"  {first}")
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": cfg.get("level", "other"),
        "wall_s": round(time.time() - t0, 2),
        "assumptions": cfg.get("assumptions", []),
        "violations": [{"replay": p, "summary": f"{n}/{c['label']}: {c['note'][:300]}"} for n, c, p, _ in violations],
        "coverage": {
            "explanation": "Symbolic execution of the real templates instantiated with a symbolic scalar; every branch on symbolic data and every assertion is decided by Z3 over all real values of the inputs within the listed bounds; counterexamples are replayed on the same code with doubles.",
            "functions_encoded": encoded_functions(bdir, tus),
            "files_encoded": repo_files(bdir, tus),
            "harnesses": harn,
            "assertions_evaluated": evald, "assertions_discharged": disc,
            "assertions_discharged_by_term_identity": sum(d["trivial"] for d in lab.values()),
            "assertions_unknown": sum(d["unknown"] for d in lab.values()),
            "assertions_refuted": sum(d["refuted"] for d in lab.values()),
            "obligations": evald, "discharged": disc,
            "states": agg["paths"], "transitions": agg["branch_decisions"],
            "paths": agg, "queries_discharged": agg["unsat"] + agg["sat"], "solver_s": round(agg["solver_s"], 2),
            "build_s": round(t_build, 1),
            "unconfirmed_candidates": unconfirmed[:40], "n_unconfirmed": len(unconfirmed),
            "known_findings_hit": sorted(seenk),
            "errors": errors,
            "not_run": not_run,
            "traces_validated_against_impl": len(confirmed),
            "samples": samples,
        },
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop} [{tier}]: {len(harn)} harness runs, {agg['paths']} paths, {evald} assertions, {disc} discharged, "
          f"{ev['coverage']['assertions_unknown']} unknown, {len(unconfirmed)} unconfirmed candidates, "
          f"{agg['queries']} queries, solver {agg['solver_s']:.1f}s, build {t_build:.0f}s, wall {ev['wall_s']}s")
    for e in errors:
        print("ERROR:", e)
    if a.v:
        for u in unconfirmed[:12]:
            print("  unconfirmed", u["harness"], u["label"], u["kind"], u["note"][:300], u["replay"], u["choices"], u["inputs"])
        for l, d in lab.items():
            if d["evaluated"] != d["discharged"]:
                print("  ", l, d)
    if violations:
        return 1
    if errors and not harn:
        return 3
    return 0

if __name__ == "__main__":
    main()

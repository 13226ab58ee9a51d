#!/usr/bin/env python3
"""Turns a change made in a scratch copy of /repo into /verif/seeded/<id>/.

usage: mkseed.py ID PROPERTY DEMO.cpp SPECFILE [src units...]
The scratch copy is /tmp/seed/wt; SPECFILE holds two lines: needs, what_it_breaks.
Verifies: the build and stable tests pass with the change; demo passes without
and fails with it."""
import json, os, shutil, subprocess, sys
WT = "/tmp/seed/wt"
sid, prop, demo, spec, *units = sys.argv[1:]
needs, breaks = open(spec).read().strip().split("\n", 1)
out = f"/verif/seeded/{sid}"
diff = subprocess.run(["git", "-C", WT, "diff"], capture_output=True, text=True, check=True).stdout
assert diff.strip(), "no change"
if os.path.isdir(out):
    shutil.rmtree(out)
os.makedirs(out)
open(out + "/patch.diff", "w").write(diff)
shutil.copy(demo, out + "/demo.cpp")
shutil.copytree("/verif/shim", out + "/shim")
open(out + "/demo.sh", "w").write(f'''#!/bin/bash
# Builds demo.cpp against the working tree in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
CC="g++-14 -std=c++23 -O1 -Iinclude -Isrc -I$D/shim -I/usr/include/eigen3 -include eigen_compat.hpp -pthread"
pids=()
for f in {" ".join(units)} "$D/demo.cpp"; do
  $CC -c "$f" -o "$T/$(echo "$f" | tr / _).o" & pids+=($!)
done
for p in "${{pids[@]}}"; do wait "$p" || {{ echo "demo does not compile" >&2; exit 3; }}; done
$CC "$T"/*.o -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
''')
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks.strip()}, open(out + "/meta.json", "w"), indent=1)
def demo_rc():
    return subprocess.run(["bash", out + "/demo.sh"], cwd=WT, capture_output=True, text=True)
r = demo_rc()
print("with patch rc", r.returncode, r.stdout[-300:], r.stderr[-600:])
bad = r.returncode in (0, 3)
subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
r = demo_rc()
print("without patch rc", r.returncode, r.stdout[-300:], r.stderr[-600:])
bad |= r.returncode != 0
# build + tests with the patch in /repo itself (the build scripts name it)
subprocess.run(["git", "-C", "/repo", "apply", out + "/patch.diff"], check=True)
try:
    b = subprocess.run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed/out.json", shell=True, capture_output=True, text=True)
    o = json.load(open("/tmp/seed/out.json")) if b.returncode == 0 else {"passed": []}
    missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"])
    print("build rc", b.returncode, "missing", missing)
    bad |= bool(missing) or b.returncode != 0
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
print("BAD" if bad else "OK", sid)
if bad:
    shutil.rmtree(out)
    sys.exit(1)

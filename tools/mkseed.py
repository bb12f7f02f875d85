#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS BREAKS  (old text on fd: env OLD, NEW; demo main in env DEMO or existing demo.cpp)
Creates /verif/seeded/ID from a textual replacement tried in a scratch copy of /repo; runs the demo on both trees
and the property's check on the changed tree."""
import os, shutil, subprocess, sys, json
V = "/verif"

def mk(id, prop, edits, needs, breaks, demo, check=True, san="", srcs="util/pool.cpp"):
    src = " ".join(f'"$R"/src/{x}' for x in srcs.split())
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    S = "/tmp/sr"
    shutil.rmtree(S, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", S], check=True)
    for f, old, new in edits:
        p = f"{S}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    assert diff
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(f"{d}/shim", ignore_errors=True)
    shutil.copytree(f"{V}/shim", f"{d}/shim")
    open(f"{d}/demo.cpp", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(f"""#!/bin/bash
# Compiles demo.cpp against the current tree (cwd) and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++-14 -std=c++23 -O1 -w {san} -I"$D/shim" -I"$R/include" -I/usr/include/eigen3 -include slp_compat.hpp \\
  -DEIGEN_MATRIXBASE_PLUGIN='"eigen_matrixbase_plugin.inc"' -DEIGEN_SPARSEMATRIX_PLUGIN='"eigen_sparsematrix_plugin.inc"' \\
  "$D/demo.cpp" {src} -o "$T/demo" -lpthread || exit 99
cd "$T" && timeout 250 ./demo
""")
    os.chmod(f"{d}/demo.sh", 0o755)
    a = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", f"{d}/demo.sh"], cwd=S, capture_output=True, text=True)
    print(id, "demo clean:", a.returncode, "changed:", b.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else "")
    if b.returncode in (0, 99):
        print((b.stdout + b.stderr)[-1500:])
    if check:
        c = subprocess.run(["python3-vt", f"{V}/check.py", prop], capture_output=True, text=True, env=dict(os.environ, SLPV_REPO=S))
        print("   check:", c.returncode, [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", prop))], (c.stdout[-800:] + c.stderr[-500:]) if c.returncode != 1 else "")
    shutil.rmtree(S, ignore_errors=True)

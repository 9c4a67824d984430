#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py   (development tool; no check uses it)
SPEC defines: id, property, edits=[(file, fn(str)->str)], sources (repo-relative, compiled into the demo), demo (C++ text), needs, breaks,
libs (default loguru+crypto), flags. Confirms in a scratch copy that the tests still pass, that the demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
out = f"{V}/seeded/{ns['id']}"
scratch = tempfile.mkdtemp(prefix="plant.")
try:
    cp = f"{scratch}/repo"
    subprocess.run(["git", "clone", "-q", "/repo", cp], check=True)
    for f, fn in ns["edits"]:
        s = open(f"{cp}/{f}").read(); t = fn(s)
        assert s != t, f"no change in {f}"
        open(f"{cp}/{f}", "w").write(t)
    diff = subprocess.run(["git", "-C", cp, "diff"], capture_output=True, text=True).stdout
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.cpp", "w").write(ns["demo"])
    shutil.copytree(f"{V}/lib/standin", f"{out}/standin")
    for x in ns.get("copy", []):
        (shutil.copytree if os.path.isdir(f"{V}/{x}") else shutil.copy)(f"{V}/{x}", f"{out}/{os.path.basename(x)}")
    srcs = " ".join(s if s.startswith("$d/") else f"$R/{s}" for s in ns["sources"])
    flags = ns.get("flags", "")
    log = "$R/other/loguru/src/loguru.cpp" if ns.get("loguru", True) else ""
    open(f"{out}/demo.sh", "w").write(f"""#!/bin/bash
# Builds the demonstration against the sources in the current directory and runs it in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd); R=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
/usr/bin/clang++-18 -std=c++20 -O1 -g1 -w -pthread -ftrivial-auto-var-init=pattern -DCL_HPP_ENABLE_EXCEPTIONS -DHZIP_ENABLE_OPENCL -DCL_TARGET_OPENCL_VERSION=300 \\
    -I"$d/standin" -I"$d" -I$R/src -I$R/other/loguru/include -I$R/other/argparse/include {flags} \\
    "$d/demo.cpp" {srcs} {log} -o "$w/demo" {ns.get('libs', '-lcrypto -ldl')} || exit 4
cd "$w" && timeout 120 ./demo "$w"
""")
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
    def run(tree): return subprocess.run(["bash", f"{out}/demo.sh"], cwd=tree, capture_output=True, text=True)
    env = dict(os.environ)
    b = subprocess.run(f"cmake -S /opt/vp/harness -B {cp}/_build -G Ninja -DREPO={cp} -DCMAKE_C_COMPILER=/usr/bin/clang-18 -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_BUILD_TYPE=RelWithDebInfo && ninja -C {cp}/_build && ctest --test-dir {cp}/_build", shell=True, capture_output=True, text=True)
    ok_tests = b.returncode == 0 and "100% tests passed" in b.stdout
    with_, without = run(cp), run("/repo")
    print(ns["id"], "tests", "ok" if ok_tests else "FAIL\n" + b.stdout[-800:] + b.stderr[-800:], "| demo with patch rc", with_.returncode, "| without rc", without.returncode)
    if without.returncode: print(without.stdout[-800:], without.stderr[-1500:])
    print((with_.stdout + with_.stderr)[-300:])
    good = ok_tests and with_.returncode not in (0, 3, 4, 124) and without.returncode == 0
    print("KEPT" if good else "REJECTED"); 
    if not good and "--keep" not in sys.argv: shutil.rmtree(out)
    if good and "--check" in sys.argv:
        for c in [ns["property"]] + sys.argv[sys.argv.index("--check") + 1:]:
            r = subprocess.run(["python3", "run.py", c, "--replay-dir", scratch + "/rp"], cwd=V, env=dict(env, VERIF_REPO=cp), capture_output=True, text=True)
            o = r.stdout + r.stderr
            i = o.find("--- why")
            print("CHECK", c, "rc", r.returncode, "VIOLATION" if "VIOLATION" in o else "-- MISSED --" if r.returncode == 0 else o[-500:], o[i:i + 250].replace("\n", " ") if i >= 0 else "")
finally:
    shutil.rmtree(scratch, ignore_errors=True)

#!/usr/bin/env python3
"""Build and run one check.

  run.py C05 [--tier quick|thorough]     build the harness against /repo's working tree and run it
  run.py C05 --replay FILE               re-run one saved failure
Exit status: 0 the property held on everything explored, 1 violation (with a VIOLATION line), 2 error.
"""
import argparse, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "/usr/bin/clang++-18"
BUILD = os.path.join(VERIF, "build")
JOBS = 8

BASE = ["-std=c++20", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-pthread",
        "-DCL_HPP_ENABLE_EXCEPTIONS", "-DHZIP_ENABLE_OPENCL", "-DCL_TARGET_OPENCL_VERSION=300",
        f"-I{VERIF}/lib/standin", f"-I{VERIF}/lib", f"-I{REPO}/src",
        f"-I{REPO}/other/loguru/include", f"-I{REPO}/other/argparse/include"]
SAN = ["-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero", "-fno-sanitize-recover=all"]
MODES = {
    # compile flags for /repo's objects, for the harness, and link flags
    "asan": (SAN, SAN, SAN),
    "plain": ([], [], []),
    "sched": (["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores", "-DVERIF_SCHED"], ["-DVERIF_SCHED"], []),
    "fuzz": (SAN + ["-fsanitize=fuzzer-no-link"], SAN + ["-DPBT_LIBFUZZER"], SAN + ["-fsanitize=fuzzer"]),
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:halt_on_error=1:max_malloc_fill_size=1048576:malloc_fill_byte=203:"
                    "detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=6000:"
                    "handle_abort=0:detect_odr_violation=0:symbolize=1:quarantine_size_mb=32:allow_user_segv_handler=1",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:abort_on_error=1",
}


def sh(*a): return hashlib.sha256("\0".join(a).encode()).hexdigest()[:24]


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        try:
            with open(p, "rb") as f: h.update(f.read())
        except OSError: h.update(b"?")
    return h.hexdigest()


def headers():
    r = []
    for d in (f"{REPO}/src", f"{REPO}/other/loguru", f"{REPO}/other/argparse", f"{VERIF}/lib"):
        for root, _, fs in os.walk(d):
            r += [os.path.join(root, f) for f in fs if f.endswith((".h", ".hpp", ".cl", ".inc"))]
    r += glob.glob(f"{VERIF}/checks/*.h")
    r.append(f"{REPO}/src/main.cpp")  # (included by C34)
    return r


class BuildError(Exception): pass


def config(pid):
    src = f"{VERIF}/checks/{pid}.cpp"
    cfg = {"repo": [], "mode": "asan", "libs": [], "extra": [], "fuzz": 0, "flags": []}
    with open(src) as f:
        for line in f:
            m = re.match(r"//\s*BUILD:\s*(.*)", line)
            if not m: continue
            for kv in m.group(1).split():
                k, _, v = kv.partition("=")
                if k in ("repo", "libs", "extra", "flags"): cfg[k] += [x for x in v.split(",") if x]
                elif k == "fuzz": cfg["fuzz"] = int(v)
                else: cfg[k] = v
    return src, cfg


def repo_sources(pats):
    allsrc = []
    for root, _, fs in os.walk(f"{REPO}/src"):
        for f in fs:
            if f.endswith((".cpp", ".cc", ".cxx")) and f != "main.cpp": allsrc.append(os.path.join(root, f))
    allsrc.sort()
    if "all" in pats: return allsrc
    return [s for s in allsrc if any(fnmatch.fnmatch(os.path.relpath(s, f"{REPO}/src"), p) for p in pats)]


def compile_one(src, flags, hh):
    key = sh(file_hash([src]), hh, " ".join(flags), src)
    obj = os.path.join(BUILD, "o", key + ".o")
    if os.path.exists(obj): return obj, None
    tmp = obj + f".{os.getpid()}.tmp"
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0: return None, r.stderr[-4000:]
    os.rename(tmp, obj)
    return obj, None


def build(pid, mode_override=None):
    os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)
    src, cfg = config(pid)
    mode = mode_override or cfg["mode"]
    rf, hf, lf = MODES[mode]
    if mode == "sched": cfg["extra"].append("sched")
    hh = file_hash(headers())
    jobs = []
    flags = BASE + cfg["flags"]
    harness = [src, f"{VERIF}/lib/pbt/pbt.cpp"]
    for e in cfg["extra"]:
        harness.append({"fakecl": f"{VERIF}/lib/fakecl/fakecl.cpp", "sched": f"{VERIF}/lib/pbt/sched.cpp",
                        "single": f"{VERIF}/lib/pbt/single.cpp", "fakesem": f"{VERIF}/lib/pbt/fakesem.cpp"}[e])
    for s in harness: jobs.append(("h", s, flags + hf))
    for s in repo_sources(cfg["repo"]): jobs.append(("r", s, flags + rf))
    log = glob.glob(f"{REPO}/other/loguru/src/*.cpp")
    if cfg["repo"] or "loguru" in cfg["libs"]:
        for s in log: jobs.append(("r", s, [("-O0" if x == "-O1" else x) for x in flags]))
    # longest first: rough order by file size
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    objs, lib, errs = [], [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (kind, s, _), (o, e) in zip(jobs, ex.map(lambda j: compile_one(j[1], j[2], hh), jobs)):
            if o is None:
                errs.append((kind, s, e))
                if kind == "h": raise BuildError(f"harness source {s} does not compile:\n{e}")
            elif kind == "h": objs.append(o)
            else: lib.append(o)
    key = sh(*objs, *lib, mode, " ".join(cfg["libs"]))
    exe = os.path.join(BUILD, f"{pid}.{mode}.{key}")
    if os.path.exists(exe): return exe, cfg
    arch = exe + ".a"
    if lib:
        if os.path.exists(arch): os.unlink(arch)
        subprocess.run(["ar", "rcs", arch] + lib, check=True, capture_output=True)
    libs = {"png": ["-lpng", "-lz"], "jpeg": ["-ljpeg"], "crypto": ["-lcrypto"], "loguru": []}
    head = [CXX] + lf + ["-pthread", "-rdynamic", "-o", exe + ".tmp"]
    tail = [x for l in cfg["libs"] for x in libs[l]] + ["-ldl"]
    r = None
    if mode == "sched" and lib:
        # the code under test first, so that its instrumented copies of inline functions are the ones kept
        r = subprocess.run(head + lib + objs + tail, capture_output=True, text=True)
    if r is None or r.returncode != 0:
        r = subprocess.run(head + objs + ([arch] if lib else []) + tail, capture_output=True, text=True)
    if lib: os.unlink(arch)
    if r.returncode != 0:
        raise BuildError("link failed:\n" + r.stderr[-3000:] + "".join(f"\n{s} does not compile:\n{e}" for _, s, e in errs))
    os.rename(exe + ".tmp", exe)
    return exe, cfg


def run_fuzz(pid, args, cfg, deadline):
    """Coverage-guided tier: libFuzzer drives the same property functions through the byte source."""
    exe, _ = build(pid, "fuzz")
    stats = {"executions": 0, "workers": JOBS}
    work = tempfile.mkdtemp(prefix="verif.fuzz.", dir="/tmp")
    rc = 0
    try:
        procs = []
        secs = max(10, int(deadline))
        for i in range(JOBS):
            d = os.path.join(work, str(i)); os.makedirs(os.path.join(d, "c")); os.makedirs(os.path.join(d, "a"))
            lg = open(os.path.join(d, "log"), "w")
            procs.append((d, subprocess.Popen([exe, f"-seed={args.seed * 100 + i + 1}", f"-max_total_time={secs}", "-timeout=60", "-rss_limit_mb=3000",
                "-max_len=4096", "-len_control=20", f"-artifact_prefix={d}/a/", "-print_final_stats=1", f"{d}/c"],
                stdout=lg, stderr=lg, env={**os.environ, **ENV}, cwd=d, preexec_fn=os.setsid)))
        for d, p in procs:
            try: p.wait(secs + 90)
            except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.wait()
            t = open(os.path.join(d, "log"), errors="replace").read()
            m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", t) or re.findall(r"#(\d+)\s", t)
            if m: stats["executions"] += int(m[-1])
            m = re.findall(r"cov: (\d+)", t)
            if m: stats["edges_covered"] = max(stats.get("edges_covered", 0), int(m[-1]))
        main, _ = build(pid)
        for d, _ in procs:
            for f in sorted(glob.glob(os.path.join(d, "a", "*"))):
                if rc: break
                r = subprocess.run([main, "--fuzz-file", f, "--tier", "thorough", "--seed", str(args.seed), "--replay-dir", args.replay_dir],
                                   capture_output=True, text=True, errors="replace", env={**os.environ, **ENV})
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    sys.stdout.write(r.stdout); rc = 1
                else: stats["unreproduced_artifacts"] = stats.get("unreproduced_artifacts", 0) + 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc, stats


def known_findings(pid):
    p = f"{VERIF}/known_findings.txt"
    if not os.path.exists(p): return []
    return [l.strip() for l in open(p) if l.startswith(f"finding: property={pid} ")]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--replay-dir", default=f"{VERIF}/replays")
    ap.add_argument("--build-only", action="store_true")
    a, rest = ap.parse_known_args()
    t0 = time.time()
    try:
        exe, cfg = build(a.pid)
    except BuildError as e:
        print(f"build error: {e}", file=sys.stderr)
        return 2
    tb = time.time() - t0
    if a.build_only: print(exe, f"{tb:.1f}s"); return 0
    env = {**os.environ, **ENV}
    if a.replay:
        return subprocess.run([exe, "--replay", a.replay] + rest, env=env).returncode
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    ev = f"{VERIF}/evidence/{a.pid}.json"
    if os.path.exists(ev): os.unlink(ev)
    r = subprocess.run([exe, "--tier", a.tier, "--seed", str(a.seed), "--evidence", ev, "--replay-dir", a.replay_dir] + rest, env=env)
    rc = r.returncode
    if rc not in (0, 1): rc = 2
    fuzz = None
    if rc == 0 and a.tier == "thorough" and cfg["fuzz"]:
        try: rc, fuzz = run_fuzz(a.pid, a, cfg, cfg["fuzz"])
        except BuildError as e: fuzz = {"error": str(e)[:400]}
    if os.path.exists(ev):
        e = json.load(open(ev))
        e["wall_s"] = round(time.time() - t0, 2)
        e["coverage"]["build_s"] = round(tb, 2)
        if fuzz: e["coverage"]["libfuzzer"] = fuzz
        if fuzz and rc == 1: e["violations"] = 1
        kf = known_findings(a.pid)
        if kf: e["coverage"]["known_findings"] = kf
        e["assumptions"] = assumptions(cfg)
        json.dump(e, open(ev, "w"), indent=1)
    if rc == 0:
        for l in known_findings(a.pid): print("KNOWN-FINDING: " + l[len("finding: "):])
    return rc


def assumptions(cfg):
    a = ["inputs outside the generator's stated ranges are not explored"]
    if cfg["repo"]: a.append("the missing rainman and bitio submodules are represented by the stand-ins in lib/standin")
    if "fakecl" in cfg["extra"]: a.append("OpenCL is represented by the stand-in in lib/fakecl (kernels compiled from their source as C)")
    if cfg["mode"] == "sched": a.append("interleavings are explored at synchronisation points, stream operations and instrumented memory accesses; sequential consistency")
    return a


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Run the check of one property against /repo's working tree.

  check.py ID [--tier quick|thorough]     exit 0: held; 1: VIOLATION line(s); 2: no verdict
  check.py --replay FILE                  re-run the one case a VIOLATION line points at

Builds the drivers of the property (harness/<driver>.cpp + /repo/include) in several
instrumented variants, runs seeded shards of the workload, collects what the monitors saw, matches
every violation against known_findings.txt and writes evidence/<ID>.json.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 1)
INC = ["-std=c++17", "-I", os.path.join(REPO, "include"), "-I", "/usr/include/eigen3", "-I", os.path.join(HERE, "harness"), "-w", "-DGOOSEFEM_EIGEN"]
ASSERT = ["-DGOOSEFEM_ENABLE_ASSERT", "-DXTENSOR_ENABLE_ASSERT"]
VARIANTS = {
    # name: (compiler, flags, environment, runtime slowdown used to scale the number of cases)
    "asan": (
        "clang++",
        ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
        {
            "ASAN_OPTIONS": "exitcode=77:detect_leaks=1:abort_on_error=0:max_allocation_size_mb=8192:"
            "detect_stack_use_after_return=1:strict_string_checks=1:symbolize=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
        },
    ),
    # not optimised: half the build time, used in the quick tier for the drivers that are slow to compile
    "asan0": (
        "clang++",
        ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
        {
            "ASAN_OPTIONS": "exitcode=77:detect_leaks=1:abort_on_error=0:max_allocation_size_mb=8192:detect_stack_use_after_return=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
        },
    ),
    # the library's assertions (not those of xtensor, which would hide them), with ASan to see what gets past them
    "assertsan": (
        "clang++",
        ["-O0", "-g1", "-DMON_ASSERT", "-DGOOSEFEM_ENABLE_ASSERT", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all"],
        {
            "ASAN_OPTIONS": "exitcode=77:detect_leaks=1:abort_on_error=0:max_allocation_size_mb=8192:detect_stack_use_after_return=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
        },
    ),
    "assert": ("g++", ["-O1", "-DMON_ASSERT"] + ASSERT, {"MALLOC_PERTURB_": "165"}),
    "plain": ("g++", ["-O2", "-DNDEBUG"], {"MALLOC_PERTURB_": "90"}),
    "fast": ("g++", ["-O3", "-march=native", "-DNDEBUG"], {}),
    "clang": ("clang++", ["-O2"], {"MALLOC_PERTURB_": "77"}),
    # (without the eager check of arguments: Eigen's SparseLU kernel passes padding it never uses; the
    # shadow still follows every value to the branch, address or comparison that depends on it)
    "msan": (
        "clang++",
        ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fno-sanitize-memory-param-retval", "-fsanitize-memory-track-origins", "-fno-sanitize-recover=all", "-include", os.path.join(HERE, "harness", "msan_rt.h"), "-fsanitize-ignorelist=" + os.path.join(HERE, "harness", "msan_ignore.txt")],
        {"MSAN_OPTIONS": "exitcode=77:halt_on_error=1"},
    ),
    # the same, not optimised and without origins: for the quick tier
    "msan0": (
        "clang++",
        ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fno-sanitize-memory-param-retval", "-fno-sanitize-recover=all", "-include", os.path.join(HERE, "harness", "msan_rt.h"), "-fsanitize-ignorelist=" + os.path.join(HERE, "harness", "msan_ignore.txt")],
        {"MSAN_OPTIONS": "exitcode=77:halt_on_error=1"},
    ),
    "tsan": (
        "clang++",
        ["-O1", "-g1", "-fsanitize=thread", "-pthread"],
        {"TSAN_OPTIONS": "exitcode=77:halt_on_error=1:second_deadlock_stack=1"},
    ),
    "omp": ("g++", ["-O1", "-fopenmp", "-DMON_OMP"], {"OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive"}),
    # OpenMP on plain threads (harness/omp_shim.h), so that ThreadSanitizer sees every access and every join
    "omptsan": (
        "g++",
        ["-O0", "-g1", "-fopenmp", "-DMON_OMP", "-fsanitize=thread", "-include", os.path.join(HERE, "harness", "omp_shim.h")],
        {"TSAN_OPTIONS": "exitcode=77:halt_on_error=1"},
    ),
    "ompasan": (
        "g++",
        ["-O1", "-g1", "-fopenmp", "-DMON_OMP", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
        {"OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive", "ASAN_OPTIONS": "exitcode=77:detect_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"},
    ),
}


def log(*a):
    print(*a, flush=True)


def known():
    ret = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m:
                ret.append((m.group(1), m.group(2), m.group(3)))
    return ret


# include directories of the drivers that observe more than the headers: the bindings in python/, compiled against
# a stand-in for pybind11 and xtensor-python which records what they register (harness/py_stub)
EXTRA = {
    "c36_python": ["-I", REPO, "-I", os.path.join(HERE, "harness", "py_stub")],
    # the library with arrays of any strides, as in the Python module
    "c37_layout": ["-I", os.path.join(HERE, "harness", "layout_stub")],
}


def compile_one(driver, variant, work):
    cxx, flags, _ = VARIANTS[variant]
    src = os.path.join(HERE, "harness", driver + ".cpp")
    exe = os.path.join(work, f"{driver}.{variant}")
    cmd = [cxx, *flags, *INC, *EXTRA.get(driver, []), src]
    second = os.path.join(HERE, "harness", driver + "_tu2.cpp")
    if os.path.exists(second):
        cmd.append(second)
    cmd += ["-pthread", "-o", exe]
    for attempt in range(2):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode == 0:
            return exe, ""
        if "Killed" not in p.stderr:
            break
    return None, " ".join(cmd) + "\n" + p.stderr[-6000:]


def crash_key(text, rc):
    """Stable key for a sanitizer report, an abort or a signal."""
    kind = None
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", text)
    if m:
        kind = f"{m.group(1)}:{m.group(2)}"
    if kind is None:
        m = re.search(r"WARNING: (ThreadSanitizer|MemorySanitizer): ([\w-]+( race)?)", text)
        if m:
            kind = f"{m.group(1)}:{m.group(2)}".replace(" ", "-")
    if kind is None:
        m = re.search(r"runtime error: ([^\n]{0,60})", text)
        if m:
            kind = "UBSan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1)).strip().replace(" ", "-")
    if kind is None and "MON-WATCHDOG" in text:
        kind = "hang"
    if kind is None and "terminate called" in text:
        m = re.search(r"instance of '([^']+)'", text)
        kind = "terminate:" + (m.group(1) if m else "?")
    if kind is None:
        kind = f"signal:{-rc}" if rc < 0 else f"exit:{rc}"
    frame = ""
    for m in re.finditer(r"include/GooseFEM/(\w+\.h):(\d+)", text):
        frame = m.group(1)
        break
    fn = re.search(r"GooseFEM::[\w:]*?(\w+)(<|\()[^\n]*include/GooseFEM", text)
    return f"crash:{kind}:{frame}:{fn.group(1) if fn else ''}"


def run_shard(exe, variant, seed, cases, shard, nshard, out, thorough, args, timeout, only=None):
    env = dict(os.environ)
    env.update(VARIANTS[variant][2])
    env["ASAN_SYMBOLIZER_PATH"] = env["MSAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    viol, rep, start, restarts = [], [], 0, 0
    while True:
        cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--shard", str(shard), "--nshard", str(nshard), "--from", str(start), "--out", out, *args]
        if thorough:
            cmd.append("--thorough")
        if only is not None:
            cmd += ["--only", str(only)]
        if os.path.exists(out):
            os.unlink(out)
        err = open(out + ".err", "wb+")
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            return viol, rep, f"shard {shard} of {os.path.basename(exe)} did not finish within {timeout} s"
        err.seek(0)
        text = err.read()[:200000].decode("utf8", "replace")
        err.close()
        ok = False
        if os.path.exists(out):
            try:
                d = json.load(open(out))
                rep.append(d)
                ok = d["complete"]
                for v in d["violations"]:
                    v["n"] = d["per_key"].get(v["key"], 1)
                    viol.append(v)
            except ValueError:
                pass
        if p.returncode == 0 and ok:
            return viol, rep, None
        if p.returncode in (90, 91):
            return viol, rep, f"harness error {p.returncode}"
        if p.returncode == -9:
            return viol, rep, f"shard {shard} was killed (memory?)"
        try:
            cur = int(open(out + ".cur").read().split()[0])
        except (OSError, ValueError, IndexError):
            return viol, rep, f"{exe} failed to start: rc={p.returncode} {text[-500:]}"
        if ok:
            # all cases done, but the process failed at exit (leak, race)
            viol.append({"key": crash_key(text, p.returncode), "case": cur, "detail": text[:6000], "n": 1})
            return viol, rep, None
        viol.append({"key": crash_key(text, p.returncode), "case": cur, "detail": text[:6000], "n": 1})
        restarts += 1
        start = cur + 1
        if restarts >= 4 or only is not None:
            return viol, rep, None


def main():
    argv = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    pid = None
    while argv:
        a = argv.pop(0)
        if a == "--tier":
            tier = argv.pop(0)
        elif a == "--replay":
            replay = json.load(open(argv.pop(0)))
        else:
            pid = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if replay:
        pid, seed, tier = replay["property"], replay["seed"], replay["tier"]
    check = CHECKS[pid]
    thorough = tier == "thorough"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vf-{pid}-", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return run(pid, check, tier, thorough, seed, replay, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, check, tier, thorough, seed, replay, work, t0):
    # jobs: (driver, variant, cases, shards, args)
    jobs = [dict(j) for j in (check["thorough"] if thorough else check["quick"])]
    if replay:
        jobs = [j for j in jobs if j["driver"] == replay["driver"] and j["variant"] == replay["variant"]]
        jobs = jobs[:1] or [dict(driver=replay["driver"], variant=replay["variant"], cases=replay["cases"])]
    builds = sorted({(j["driver"], j["variant"]) for j in jobs})
    log(f"[{pid}] {tier} seed={seed}: building {', '.join(d + '.' + v for d, v in builds)} from {REPO}")
    exes = {}
    compile_viol = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fut = {b: ex.submit(compile_one, b[0], b[1], work) for b in builds}
        for b, f in fut.items():
            exes[b], err = f.result()
            if exes[b] is None:
                log(f"[{pid}] could not build {b}:\n{err}")
                compile_viol.append((b, err))
    tbuild = time.time() - t0
    if compile_viol:
        # An instrumented build which fails while the ordinary one works is a broken guarantee only
        # where the property is about that build (registry: "build_is_property"); else no verdict.
        bad = [(b, e) for b, e in compile_viol if b[1] in check.get("build_is_property", [])]
        good = [b for b in builds if exes[b] is not None]
        if not (bad and good and len(bad) == len(compile_viol)):
            return 2
    tasks = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j in jobs:
            exe = exes[(j["driver"], j["variant"])]
            if exe is None:
                continue
            n = j.get("shards", 2)
            s = seed + j.get("seed_offset", 0)
            if replay:
                o = os.path.join(work, "replay.json")
                tasks.append((j, ex.submit(run_shard, exe, j["variant"], replay["driver_seed"], replay["cases"], 0, 1, o, thorough, j.get("args", []), 3000, replay["case"])))
                continue
            for i in range(n):
                o = os.path.join(work, f"{j['driver']}.{j['variant']}.{s}.{i}.{len(tasks)}.json")
                tasks.append((j, ex.submit(run_shard, exe, j["variant"], s, j["cases"], i, n, o, thorough, j.get("args", []), 14000 if thorough else 780)))
    allviol, errors = [], []
    cover, oracles, distinct, samples = {}, {}, set(), []
    evaluations = oracle = 0
    worst, worst_key = 0.0, ""
    per_variant = {}
    for j, f in tasks:
        viol, reps, err = f.result()
        if err:
            errors.append(err)
        if check.get("only_crash"):
            # what the instrumentation itself reported; other oracles belong to other properties
            viol = [v for v in viol if v["key"].startswith("crash:")]
        for v in viol:
            v["driver"], v["variant"], v["cases"] = j["driver"], j["variant"], j["cases"]
            v["driver_seed"] = seed + j.get("seed_offset", 0)
            allviol.append(v)
        for d in reps:
            evaluations += d["cases"]
            oracle += d["oracle"]
            key = f"{j['driver']}.{j['variant']}"
            per_variant[key] = per_variant.get(key, 0) + d["cases"]
            for k, n in d["cover"].items():
                cover[k] = cover.get(k, 0) + n
            for k, n in d["oracles"].items():
                oracles[k] = oracles.get(k, 0) + n
            distinct.update(d["distinct"])
            if len(samples) < 6:
                samples += d["samples"][:2]
            if d["worst"] > worst:
                worst, worst_key = d["worst"], d["worst_key"]
    for (drv, var), e in compile_viol:
        allviol.append({"key": f"build:{var}", "case": 0, "detail": e[:4000], "n": 1, "driver": drv, "variant": var, "cases": 1, "driver_seed": seed})
    # classify
    kf = known()
    listed = {}
    fresh = {}
    for v in allviol:
        hit = [k for k in kf if k[0] == pid and k[1] == v["key"]]
        (listed if hit else fresh).setdefault(v["key"], []).append(v)
    if replay:
        hit = [v for vs in fresh.values() for v in vs]
        for v in hit[:5]:
            log(f"[{pid}] REPRODUCED key={v['key']}: {v['detail'][:3000]}")
        return 1 if hit else 0
    for p, k, text in kf:
        if p == pid and k in listed:
            log(f"KNOWN-FINDING: property={pid} {k}: {text} (seen {len(listed[k])}x, e.g. case {listed[k][0]['case']})")
    rc = 0
    if fresh:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, (key, vs) in enumerate(sorted(fresh.items())):
            if n >= 12:
                break
            v = vs[0]
            path = os.path.join(rdir, f"{pid}-{re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:80]}.json")
            json.dump(dict(property=pid, tier=tier, seed=seed, driver=v["driver"], variant=v["variant"], driver_seed=v["driver_seed"], cases=v["cases"], case=v["case"], key=key, detail=v["detail"]), open(path, "w"), indent=1)
            log(f"[{pid}] {key} in {v['driver']}.{v['variant']} case {v['case']}: {v['detail'][:1200]}")
            log(f"VIOLATION property={pid} replay={path}")
        rc = 1
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(distinct),
            rule=check["rule"],
            samples=samples[:6] or ["(no sample)"],
            oracle_evaluations=oracle,
            oracles=oracles,
            events=cover,
            executions_per_build=per_variant,
            worst_error_over_tolerance=dict(ratio=worst, oracle=worst_key),
            known_findings_seen=sorted(listed),
        ),
        assumptions=check.get("assumptions", []),
        wall_s=round(wall, 2),
        violations=len(fresh),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if rc == 0 and errors:
        for e in errors[:5]:
            log(f"[{pid}] no verdict: {e}")
        return 2
    if rc == 0:
        # a monitor that saw nothing decides nothing
        for k in check.get("must_see", []):
            if cover.get(k, 0) == 0 and not any(x == k for x in oracles):
                log(f"[{pid}] no verdict: the workload never produced '{k}'")
                return 2
    log(f"[{pid}] {'held' if rc == 0 else 'VIOLATED'}: {evaluations} cases, {oracle} oracle evaluations, {len(distinct)} distinct, worst err/tol {worst:.3g} ({worst_key}); build {tbuild:.1f} s, total {wall:.1f} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())

import array, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import config

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = os.path.join(VERIF, "mon")
REPO = os.environ.get("YS_REPO", "/repo")
CXX = "/usr/bin/clang++"
JOBS = max(1, min(8, os.cpu_count() or 1))
WRAPS = "__asan_memcpy __asan_memmove __asan_memset memcmp bcmp memchr memcpy memmove memset".split()

# What C26 answers differently from call to call
WORLD = "getenv secure_getenv rand random time clock clock_gettime gettimeofday sched_getcpu _ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv".split()


class CheckError(Exception):
    """The check itself failed: neither held nor violated."""


def say(*a):
    print(*a, flush=True)


def run_cmd(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)


# Building -------------------------------------------------------------------
def version_header(out_dir):
    """Ystring.hpp includes a header which CMake generates."""
    os.makedirs(out_dir + "/Ystring", exist_ok=True)
    text = "#pragma once\n"
    for src in glob.glob(REPO + "/include/**/YstringVersion.hpp.in", recursive=True):
        text = open(src, encoding="utf-8").read()
        text = re.sub(r"@[A-Za-z0-9_]*(MAJOR|MINOR|PATCH|TWEAK)@", "1", text)
        text = re.sub(r"@[A-Za-z0-9_]+@", "1.1.1", text)
        text = re.sub(r"\$\{[A-Za-z0-9_]*(MAJOR|MINOR|PATCH|TWEAK)\}", "1", text)
        text = re.sub(r"\$\{[A-Za-z0-9_]+\}", "1.1.1", text)
    for name in ("/YstringVersion.hpp", "/Ystring/YstringVersion.hpp"):
        open(out_dir + name, "w", encoding="utf-8").write(text)


def lib_sources(src_dir=None):
    src = sorted(glob.glob((src_dir or REPO + "/src") + "/**/*.cpp", recursive=True))
    if not src:
        raise CheckError("no library sources found in " + REPO)
    return src


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
# (Uninitialised locals get a pattern, so that they show in results; C01 also runs under memcheck, without this.)
COV = ["-fsanitize-coverage=trace-pc-guard,trace-cmp", "-ftrivial-auto-var-init=pattern"]
BASE = ["-std=c++20", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE"]
LIBDEF = ["-D_GLIBCXX_EXTERN_TEMPLATE=0"]


def compile_all(jobs, build):
    """jobs: list of (source, object, flags)."""
    def one(j):
        src, obj, flags = j
        p = run_cmd([CXX, *flags, "-c", src, "-o", obj], cwd=build)
        return (src, p.returncode, p.stdout)
    with ThreadPoolExecutor(JOBS) as ex:
        for src, rc, out in ex.map(one, jobs):
            if rc:
                raise CheckError("cannot compile %s:\n%s" % (src, out[-4000:]))


not_accepted = None  # the errors, if only plain types of iterators and callables compile


def build_main(pid, build, **kw):
    """The library, the shim and the harness of a property, with the given sanitizers."""
    global not_accepted
    try:
        return build_main2(pid, build, **kw)
    except CheckError as e:
        if not any(x in str(e) for x in ("mon/shim.cpp", "props/c32.cpp")):
            raise
        text = str(e)
    kw["extra"] = [*kw.get("extra", ()), "-DC32_PLAIN"]
    exe = build_main2(pid, build, **kw)
    not_accepted = text
    return exe


def build_main2(pid, build, san=SAN, extra=(), wrap=True, with_alloc=True, harness_extra=(), src_dir=None, lib_flags=None):
    version_header(build + "/gen")
    inc = ["-I" + REPO + "/include", "-I" + (src_dir or REPO + "/src"), "-I" + build + "/gen", "-I" + MON]
    common = BASE + list(san) + list(extra) + inc + ['-DUNI_DATA_PATH="%s/data/UnicodeData16.0.0.txt"' % VERIF]
    lib_flags = list(COV if lib_flags is None else lib_flags) + LIBDEF
    jobs, objs = [], []

    def add(src, flags):
        obj = "%s/%d_%s.o" % (build, len(objs), os.path.basename(src)[:-4])
        objs.append(obj)
        jobs.append((src, obj, flags))
    add("%s/props/%s.cpp" % (MON, pid.lower()), common + list(harness_extra))
    add(MON + "/shim.cpp", common + lib_flags)
    for s in lib_sources(src_dir):
        add(s, common + lib_flags)
    add(MON + "/fw.cpp", common + (["-DFW_WRAP"] if wrap else []))
    add(MON + "/uni.cpp", common)
    add(MON + "/alloc.cpp", common + ([] if with_alloc else ["-DFW_NO_ALLOC"]))
    needs_api = open("%s/props/%s.cpp" % (MON, pid.lower())).read().find("apifw.hpp") >= 0
    if needs_api:
        add(MON + "/api.cpp", common + lib_flags + list(harness_extra))
    compile_all(jobs, build)
    exe = build + "/check"
    link = [CXX, *[f for f in san], *objs, "-o", exe, "-pthread"]
    if wrap:
        link += ["-Wl,--wrap=" + w for w in WRAPS + (WORLD if pid == "C26" else [])]
    p = run_cmd(link)
    if p.returncode:
        raise CheckError("cannot link:\n" + p.stdout[-4000:])
    return exe


# Running --------------------------------------------------------------------
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=77:detect_leaks=0:handle_abort=1:allocator_may_return_null=0:max_allocation_size_mb=2048:"
                        "detect_stack_use_after_return=1:min_uar_stack_size_log=16:max_uar_stack_size_log=16:strict_memcmp=1:detect_odr_violation=0:quarantine_size_mb=32:malloc_context_size=8",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=77",
           ASAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer", LC_ALL="C")


def parse_viol(path):
    if not os.path.exists(path):
        return []
    out, cur = [], {}
    for line in open(path, errors="replace"):
        line = line.rstrip("\n")
        if line.startswith("KEY "): cur = {"key": line[4:]}
        elif line.startswith("DETAIL "): cur["detail"] = line[7:]
        elif line.startswith("WHERE "): cur["where"] = line[6:].strip()
        elif line == "END" and cur:
            out.append(cur); cur = {}
    return out


def load_findings(pid):
    path = VERIF + "/known_findings.json"
    data = json.load(open(path))
    return [k for k in data["known"] if k["property"] == pid]


def run_shards(exe, pid, tier, seed, cases, known, build, tag="s", shards=JOBS, env=ENV, wall=700, prefix=(), args=()):
    """Returns (results, violations, problems)."""
    procs = []
    for i in range(shards):
        out = "%s/%s%d" % (build, tag, i)
        log = open(out + ".log", "wb")
        cmd = [*prefix, exe, "--shard", str(i), "--shards", str(shards), "--seed", str(seed), "--cases", str(cases),
               "--tier", tier, "--out", out, *args]
        for k in known:
            cmd += ["--known", k["key"]]
        procs.append((i, out, subprocess.Popen(cmd, stdout=log, stderr=log, env=env, cwd=build)))
    deadline = time.time() + wall
    results, violations, problems = [], [], []
    for i, out, p in procs:
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            rc = None
        v = parse_viol(out + ".viol")
        for x in v:
            x["log"] = out + ".log"
            x["shard"] = i
        violations += v
        if v:
            continue
        if rc is None:
            problems.append("shard %d did not finish in time" % i)
        elif rc != 0:
            tail = open(out + ".log", errors="replace").read()[-3000:]
            problems.append("shard %d ended with status %s:\n%s" % (i, rc, tail))
        else:
            results.append(json.load(open(out + ".json")))
    return results, violations, problems


def union_u64(build, tag, shards):
    seen = set()
    for i in range(shards):
        p = "%s/%s%d.hashes" % (build, tag, i)
        if os.path.exists(p):
            a = array.array("Q"); a.frombytes(open(p, "rb").read()); seen.update(a)
    return len(seen)


def union_edges(build, tag, shards):
    seen = set()
    for i in range(shards):
        p = "%s/%s%d.edges" % (build, tag, i)
        if os.path.exists(p):
            a = array.array("I"); a.frombytes(open(p, "rb").read()); seen.update(a)
    return len(seen)


def merge(results):
    c, k = {}, {}
    for r in results:
        for n, v in r["counters"].items(): c[n] = c.get(n, 0) + v
        for n, v in r["known"].items(): k[n] = k.get(n, 0) + v
    return c, k


def write_evidence(pid, tier, seed, cov, wall, violations, assumptions):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    tmp = VERIF + "/evidence/.%s.tmp" % pid
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, VERIF + "/evidence/%s.json" % pid)


def report(pid, tier, seed, v, extra=None):
    """Writes the replay file, prints the violation line."""
    os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    key = re.sub(r"[^A-Za-z0-9_.-]+", "_", v.get("key", "x"))[:60]
    path = VERIF + "/evidence/replay/%s-%s.json" % (pid, key)
    rec = {"property": pid, "key": v.get("key"), "detail": v.get("detail"), "where": v.get("where"), "seed": seed, "tier": tier,
           "how": "python3 -B /verif/run_check.py %s --replay %s" % (pid, path)}
    if extra: rec.update(extra)
    if v.get("log") and os.path.exists(v["log"]):
        rec["log"] = open(v["log"], errors="replace").read()[-6000:]
    json.dump(rec, open(path, "w"), indent=1)
    say("%s: %s: %s" % (pid, v.get("key"), v.get("detail")))
    say("VIOLATION property=%s replay=%s" % (pid, path))


def run(pid, tier, seed, replay, scale):
    t0 = time.time()
    build = tempfile.mkdtemp(prefix="ysv_%s_" % pid)
    try:
        mod = None
        special = MON + "/special_%s.py" % pid.lower()
        if os.path.exists(special):
            import importlib
            mod = importlib.import_module("mon.special_" + pid.lower())
        if mod and hasattr(mod, "run"):
            return mod.run(pid, tier, seed, replay, scale, build, t0)
        return run_default(pid, tier, seed, replay, scale, build, t0, mod)
    except CheckError as e:
        say("%s: error of the check: %s" % (pid, e))
        return 2
    except subprocess.TimeoutExpired as e:
        say("%s: timeout: %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(build, ignore_errors=True)


def run_default(pid, tier, seed, replay, scale, build, t0, mod=None):
    known = load_findings(pid)
    exe = build_main(pid, build)
    t_build = time.time() - t0
    rec = json.load(open(replay)) if replay else {}
    if str(rec.get("where"))[:2] in ("x ", "t ", "l ", "s "):
        cmd = [exe, "--tier", rec.get("tier", tier), "--seed", str(rec.get("seed", seed)), "--replay", rec["where"]]
        for k in known: cmd += ["--known", k["key"]]
        p = run_cmd(cmd, env=ENV)
        say(p.stdout)
        return 0 if "REPLAY: no violation" in p.stdout else 1
    q, t = config.CASES.get(pid, config.DEFAULT_CASES)
    cases = max(1, int((q if tier == "quick" else t) * scale))
    wall = 330 if tier == "quick" else 6000
    results, violations, problems = run_shards(exe, pid, tier, seed, cases, known, build, wall=wall)
    if problems and not violations:
        # Inconclusive so far: once more, before giving up.
        say("%s: inconclusive, trying again: %s" % (pid, problems[0][:2000]))
        results, violations, problems = run_shards(exe, pid, tier, seed, cases, known, build, wall=wall)
    extra_cov, extra_viol = {}, []
    if not violations and not problems and mod and hasattr(mod, "extra"):
        extra_cov, extra_viol, extra_prob = mod.extra(pid, tier, seed, scale, build, known)
        violations += extra_viol
        problems += extra_prob
    return finish(pid, tier, seed, build, t0, t_build, results, violations, problems, known, extra_cov)


def finish(pid, tier, seed, build, t0, t_build, results, violations, problems, known, extra_cov, tag="s"):
    counters, hits = merge(results)
    required = sorted({r for x in results for r in x["required"]})
    missing = [r for r in required if not counters.get(r)]
    calls = {k[5:]: v for k, v in counters.items() if k.startswith("call:") and v}
    events = {k: v for k, v in counters.items() if not k.startswith("call:")}
    meta = config.META.get(pid, {})
    exh = sum(r["exhaustive_points"] for r in results)
    n_guards = max([r["guards"] for r in results] or [0])
    samples = []
    for r in results:
        samples += r["samples"]
    cov = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": exh + union_u64(build, tag, JOBS),
        "rule": meta.get("rule", "cases drawn from a recorded byte tape (random, and evolved by edge and comparison coverage of the library); non-trivial: non-empty input, "
                                 "distinct by hash of all arguments; plus the exhaustively enumerated points, distinct by construction"),
        "samples": samples[:8] or [v.get("detail", "") for v in violations[:3]] or ["none"],
        "cases": sum(r["cases"] for r in results),
        "cases_evolved_by_coverage": sum(r["evolved"] for r in results),
        "exhaustive_points": exh,
        "calls_by_function_and_outcome": calls,
        "events_observed": events,
        "library_edges_covered": "%d of %d (instrumented library and shim, all functions)" % (union_edges(build, tag, JOBS), n_guards),
        "corpus": sum(r["corpus"] for r in results),
        "max_steps_in_one_call": max([r["max_steps"] for r in results] or [0]),
        "shards": len(results), "build_s": round(t_build, 1),
        "known_finding_hits": hits,
    }
    cov.update(extra_cov)
    write_evidence(pid, tier, seed, cov, time.time() - t0, len(violations), meta.get("assumptions", config.ASSUMPTIONS))
    if violations:
        seen = set()
        for v in violations:
            if v.get("key") in seen: continue
            seen.add(v.get("key"))
            report(pid, tier, seed, v)
        return 1
    if problems:
        say("%s: inconclusive: %s" % (pid, problems[0]))
        return 2
    if missing:
        say("%s: inconclusive, events never observed: %s" % (pid, ", ".join(missing)))
        return 2
    for k in known:
        if hits.get(k["key"]):
            say("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    say("%s: held on %d evaluations (%d distinct non-trivial) in %.1f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0

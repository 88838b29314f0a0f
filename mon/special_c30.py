"""C30: texts from 2^8 to beyond 2^32 bytes, with results known in advance."""
import json, os, re, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
from . import config, runner

HUGE = (1 << 32) + (1 << 24)


def build_exe(build):
    """Two programs: with the sanitizers, and an optimised one for the longest texts."""
    runner.version_header(build + "/gen")
    inc = ["-I" + runner.REPO + "/include", "-I" + runner.REPO + "/src", "-I" + build + "/gen", "-I" + runner.MON, '-DUNI_DATA_PATH="%s/data/UnicodeData16.0.0.txt"' % runner.VERIF]
    srcs = [runner.MON + "/huge.cpp", runner.MON + "/uni.cpp"] + runner.lib_sources()
    kinds = {"san": runner.BASE + runner.SAN + inc, "opt": ["-std=c++20", "-O2", "-g1", "-w"] + inc}
    jobs, exes = [], {}
    for k, flags in kinds.items():
        jobs += [(s, "%s/%s%d.o" % (build, k, i), flags) for i, s in enumerate(srcs)]
    runner.compile_all(jobs, build)
    for k in kinds:
        exes[k] = "%s/huge_%s" % (build, k)
        p = runner.run_cmd([runner.CXX, *(runner.SAN if k == "san" else []), *["%s/%s%d.o" % (build, k, i) for i in range(len(srcs))], "-o", exes[k]])
        if p.returncode: raise runner.CheckError("cannot link:\n" + p.stdout[-3000:])
    return exes


def run(pid, tier, seed, replay, scale, build, t0):
    exes = build_exe(build)
    t_build = time.time() - t0
    p = runner.run_cmd([exes["opt"], "--list"])
    jobs = [(i, int(l.split()[0]), l.split(" ", 1)[1]) for i, l in enumerate(p.stdout.splitlines())]
    if p.returncode or not jobs: raise runner.CheckError("cannot list the jobs: " + p.stdout[-500:])
    deep = tier == "thorough"
    runs = []   # (weight, exe, bytes, job)
    for i, kind, name in jobs:
        sizes = [max(8, (1 << bits) + d) for bits in ((8, 12, 15, 16, 17) if not deep else range(4, 20)) for d in ((-4, 0, 4) if not deep else (-12, -8, -4, 0, 4, 8, 12))]
        runs.append((16, "san", sizes, i))
        runs.append((20, "opt", [(1 << bits) + 4 for bits in ((18, 20, 24) if not deep else (18, 20, 22, 24, 26))], i))
        # kinds: 0 reads, 1 makes long results, 2 and 3: likewise, but slowly
        if kind == 5: runs.append((33, "opt", [(1 << 31) + (1 << 24), HUGE], i))
        if kind == 0: runs.append((33, "opt", [HUGE], i))
        elif kind == 4 and not deep: runs.append((32, "opt", [(1 << 31) + (1 << 24)], i))
        elif kind == 1 and not deep: runs.append((28, "opt", [1 << 27], i))
        if deep:
            if kind in (2, 4): runs.append((34, "opt", [HUGE], i))
            if kind in (1, 3):
                runs.append((36, "opt", [(1 << 31) + (1 << 24)], i))
                runs.append((37, "opt", [HUGE], i))
    if replay:
        rec = json.load(open(replay))
        if rec.get("run"): runs = [(0, rec["run"][0], rec["run"][1], next((i for i, k, n in jobs if n == rec["run"][2]), 0))]
    env = dict(runner.ENV)
    names = {i: n for i, k, n in jobs}
    viol, problems, ok = [], [], []

    def one(r):
        w, exe, n, i = r
        if viol and w > 20: return None
        end = time.time() + ((120 if w < 28 else 300) if not deep else 3000)
        with tempfile.TemporaryFile("w+", errors="replace") as out:
            q = subprocess.Popen([exes[exe], "--job", str(i), "--bytes", ",".join(map(str, n))], stdout=out, stderr=subprocess.STDOUT, env=env)
            while True:
                try:
                    q.wait(0.2)
                    break
                except subprocess.TimeoutExpired:
                    # (A violation has been found: the rest isn't needed.)
                    if time.time() > end or viol and w > 20:
                        q.kill()
                        q.wait()
                        return None if viol else (r, None, "no end in time")
            out.seek(0)
            return r, q.returncode, out.read()

    def collect(it):
        for res in it:
            if res is None: continue
            (w, exe, n, i), rc, text = res
            m = re.search(r"^VIOL (\S+) (.*)", text, re.M)
            if m: viol.append({"key": m.group(1), "detail": "%s: %s" % (m.group(1), m.group(2)), "where": "%s with %s bytes" % (names[i], n), "run": [exe, n, names[i]]})
            elif rc is not None and (rc in (-11, -7, -8, -4, 77) or "Sanitizer" in text or "runtime error" in text):
                s = re.search(r"(runtime error: .*|SUMMARY: .*)", text)
                viol.append({"key": "crash", "detail": "%s with %s bytes: %s" % (names[i], n, s.group(1) if s else "ended by signal %s" % -rc), "where": "%s with %s bytes" % (names[i], n), "run": [exe, n, names[i]]})
            else:
                m = re.search(r"^OK calls=(\d+) text=(\d+) offset=(\d+) count=(\d+) ms=(\d+) peak_mb=(\d+)", text, re.M)
                if rc or not m: problems.append("%s with %s bytes: status %s: %s" % (names[i], n, rc, text[-600:]))
                else: ok.append((i, n, [int(x) for x in m.groups()]))

    # (the slowest first)
    slow = {i for i, k, n in jobs if re.search(r"char|trim|escapes|ci::find|lines", n)}
    runs.sort(key=lambda r: (-r[0], r[3] not in slow))
    small = [r for r in runs if r[0] <= 35]
    large = [r for r in runs if r[0] > 35]
    # The short ones first: they fail fast.
    with ThreadPoolExecutor(runner.JOBS) as ex:
        collect(f.result() for f in as_completed([ex.submit(one, r) for r in [r for r in small if r[0] <= 20]]))
        if not viol: collect(f.result() for f in as_completed([ex.submit(one, r) for r in [r for r in small if r[0] > 20]]))
    if large and not viol:
        # (up to some 14 GB each)
        with ThreadPoolExecutor(2) as ex: collect(f.result() for f in as_completed([ex.submit(one, r) for r in large]))
    if os.environ.get("YS_TIMES"):
        for i, n, x in sorted(ok, key=lambda o: -o[2][4])[:40]: runner.say("%7d ms %s %s" % (x[4], names[i], n))
    total = sum(x[2][0] for x in ok)
    cov = {"evaluations": max(1, total), "distinct_nontrivial": len({(i, b) for i, n, x in ok for b in n}),
           "rule": "distinct pairs of a job (functions and shape of the text) and a size; all results are known in advance from the composition of the text",
           "samples": ["%s: %s bytes, largest offset %d, largest count %d, %d ms" % (names[i], n, x[2], x[3], x[4]) for i, n, x in ok[-8:]] or [v["detail"][:300] for v in viol[:3]] or ["none"],
           "jobs": len(jobs), "processes": len(ok), "runs_with_sanitizers": sum(len(r[2]) for r in runs if r[1] == "san"),
           "longest_text": max([x[2][1] for x in ok] or [0]), "largest_offset_seen": max([x[2][2] for x in ok] or [0]), "largest_count_seen": max([x[2][3] for x in ok] or [0]),
           "texts_beyond_2_32_bytes": sum(1 for x in ok if x[2][1] > 1 << 32), "build_s": round(t_build, 1)}
    runner.write_evidence(pid, tier, seed, cov, time.time() - t0, len(viol), config.ASSUMPTIONS)
    if viol:
        seen = set()
        for v in viol:
            if v["key"] in seen: continue
            seen.add(v["key"])
            runner.report(pid, tier, seed, v, {"run": v["run"]})
        return 1
    if problems:
        runner.say("%s: inconclusive: %s" % (pid, problems[0]))
        return 2
    runner.say("%s: held in %d processes (%d calls; texts up to %d bytes) in %.1f s" % (pid, len(ok), total, cov["longest_text"], time.time() - t0))
    return 0

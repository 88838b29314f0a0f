"""C26: besides the history monitor (props/c26.cpp), all functions called by
many threads under ThreadSanitizer, in fresh processes, orders and locales."""
import array, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import runner

TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]


def build_threads(build):
    b = build + "/thr"
    os.makedirs(b, exist_ok=True)
    runner.version_header(b + "/gen")
    inc = ["-I" + runner.REPO + "/include", "-I" + runner.REPO + "/src", "-I" + b + "/gen", "-I" + runner.MON]
    flags = runner.BASE + TSAN + inc + ['-DUNI_DATA_PATH="%s/data/UnicodeData16.0.0.txt"' % runner.VERIF]
    srcs = [runner.MON + "/threads.cpp", runner.MON + "/api.cpp", runner.MON + "/uni.cpp", runner.MON + "/early.cpp"] + runner.lib_sources() + [runner.MON + "/probe.cpp"]
    jobs = [(s, "%s/%d.o" % (b, i), flags + runner.LIBDEF) for i, s in enumerate(srcs)]
    runner.compile_all(jobs, b)
    exe = b + "/threads"
    p = runner.run_cmd([runner.CXX, *TSAN, *[j[1] for j in jobs], "-o", exe, "-pthread"])
    if p.returncode:
        raise runner.CheckError("cannot link:\n" + p.stdout[-3000:])
    return b, exe


def extra(pid, tier, seed, scale, build, known):
    b, exe = build_threads(build)
    n_sets = max(2, int((36 if tier == "quick" else 1200) * scale))
    env = dict(os.environ, TSAN_OPTIONS="exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4", TSAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer")
    jobs = []
    for s in range(n_sets):
        for k, (threads, loc, lang) in enumerate(((8, "C", "C"), (4, "utf8", "tr_TR.UTF-8"), (3, "strange", "de_DE"), (1, "C", "C"))):
            jobs.append((s, k, threads, loc, lang))

    def one(j):
        s, k, threads, loc, lang = j
        out = "%s/t%d_%d" % (b, s, k)
        cmd = [exe, "--set", str(seed * 100003 + s), "--order", str(seed * 17 + s * 4 + k), "--threads", str(threads), "--locale", loc, "--out", out,
               "--inputs", "6" if s % 3 else "14"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(env, LANG=lang, LC_ALL=lang), timeout=600, cwd=b)
        return j, cmd, p.returncode, p.stdout, out

    def early(e):
        cmd = [exe]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(env, YS_EARLY=str(e)), timeout=600, cwd=b)
        return e, ["env", "YS_EARLY=%d" % e] + cmd, p.returncode, p.stdout

    viol, problems = [], []
    n_early = max(2, int((24 if tier == "quick" else 400) * scale))
    early_runs = early_calls = 0
    with ThreadPoolExecutor(4) as ex:
        for e, cmd, rc, text in ex.map(early, [seed * 1009 + i + 1 for i in range(n_early)]):
            m = re.search(r"^VIOL (.*)", text, re.M)
            ok = re.search(r"^LATE-OK calls=(\d+)", text, re.M)
            if m:
                viol.append({"key": "static-lifetime", "detail": m.group(1)[:1500], "where": " ".join(cmd)})
            elif re.search(r"DEADLYSIGNAL|terminate called|WARNING: ThreadSanitizer|Assertion", text):
                viol.append({"key": "static-lifetime-crash", "detail": text[-800:].replace("\n", " "), "where": " ".join(cmd)})
            elif rc != 0 or not ok:
                problems.append("early run %s ended with status %s: %s" % (e, rc, text[-1500:]))
            else:
                early_runs += 1
                early_calls += int(ok.group(1))
    calls = threw = 0
    pairs, runs, ops = set(), 0, 0
    tables = {}
    with ThreadPoolExecutor(3) as ex:
        for (s, k, threads, loc, lang), cmd, rc, text, out in ex.map(one, jobs):
            if rc == 66 or "WARNING: ThreadSanitizer" in text:
                m = re.search(r"SUMMARY: ThreadSanitizer: (.*)", text)
                viol.append({"key": "race", "detail": (m.group(1) if m else "ThreadSanitizer report")[:600], "where": " ".join(cmd), "text": text[:4000]})
                continue
            m = re.search(r"^VIOL (.*)", text, re.M)
            if m:
                viol.append({"key": "threads-differ", "detail": m.group(1)[:1500], "where": " ".join(cmd)})
                continue
            m = re.search(r"OK calls=(\d+) pairs=\d+ threw=(\d+) ops=(\d+)", text)
            if rc != 0 and re.search(r"DEADLYSIGNAL|terminate called|AddressSanitizer|Assertion", text):
                viol.append({"key": "crash", "detail": text[-800:].replace("\n", " "), "where": " ".join(cmd)})
                continue
            if rc != 0 or not m:
                problems.append("threads (%s) ended with status %s: %s" % (loc, rc, text[-1500:]))
                continue
            runs += 1
            calls += int(m.group(1)); threw += int(m.group(2)); ops = int(m.group(3))
            a = array.array("I"); a.frombytes(open(out + ".pairs", "rb").read()); pairs.update(a)
            t = open(out, "rb").read()
            os.remove(out); os.remove(out + ".pairs")
            ref = tables.setdefault(s, (t, cmd))
            if ref[0] != t:
                i = next(i for i in range(0, len(t), 8) if ref[0][i:i + 8] != t[i:i + 8]) // 8
                viol.append({"key": "differs", "detail": "call %d (input %d, operation %d) gives different results in [%s] and [%s]" % (i, i // ops, i % ops, " ".join(ref[1]), " ".join(cmd)), "where": " ".join(cmd)})
    cov = {"runs_with_calls_before_main_and_after_it_and_at_thread_exit": early_runs, "calls_in_those": early_calls, "thread_runs": runs, "thread_calls": calls, "thread_calls_that_threw": threw, "operations": ops,
           "distinct_pairs_of_operations_seen_in_flight_together": "%d of %d" % (len(pairs), ops * ops),
           "locales": ["C", "C.utf8", "C.utf8 with foreign std::locale facets and 8-bit ctype functions"]}
    return cov, viol, problems

"""C31: the same calls in programs built by different compilers and options; all
tables of results must be equal."""
import array, json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from . import config, runner

CLANG, GCC = "/usr/bin/clang++", "/usr/bin/g++"
VARIANTS = [
    ("clang -O0", CLANG, "-std=c++20 -O0", 0x00),
    ("clang -O3 -funsigned-char", CLANG, "-std=c++20 -O3 -funsigned-char", 0xFF),
    ("clang -O2, locals set to a pattern", CLANG, "-std=c++20 -O2 -ftrivial-auto-var-init=pattern", 0xA5),
    ("clang -O1 -std=c++23, locals set to zero", CLANG, "-std=c++23 -O1 -ftrivial-auto-var-init=zero", 0x5C),
    ("gcc -O0 -funsigned-char", GCC, "-std=c++20 -O0 -funsigned-char", 0x41),
    ("gcc -O3 -DNDEBUG", GCC, "-std=c++20 -O3 -DNDEBUG", 0x80),
    ("gcc -Os, old library ABI, locals set to a pattern", GCC, "-std=c++20 -Os -D_GLIBCXX_USE_CXX11_ABI=0 -ftrivial-auto-var-init=pattern", 0x22),
    ("gcc -O2 -std=c++23 -march=native -DNDEBUG", GCC, "-std=c++23 -O2 -march=native -DNDEBUG", 0x9C),
    ("gcc -O2, debug mode of the standard library", GCC, "-std=c++20 -O2 -D_GLIBCXX_DEBUG -D_GLIBCXX_ASSERTIONS", 0x30),
]
DEEP = [
    ("gcc -O3 -flto -std=c++23", GCC, "-std=c++23 -O3 -flto", 0x01),
    ("clang -O3 -march=native -fno-strict-aliasing", CLANG, "-std=c++20 -O3 -march=native -fno-strict-aliasing", 0x7F),
    ("gcc -O3 -march=native -fPIC", GCC, "-std=c++20 -O3 -march=native -fPIC -DNDEBUG", 0x9C),
    ("clang -O2 -DNDEBUG -fsigned-char -std=c++23", CLANG, "-std=c++23 -O2 -DNDEBUG -fsigned-char", 0xE3),
    ("gcc -O2 -fwrapv -fno-strict-aliasing", GCC, "-std=c++20 -O2 -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks", 0x66),
]


def build_variant(build, k, v):
    name, cxx, flags, dirt = v
    b = "%s/v%d" % (build, k)
    os.makedirs(b, exist_ok=True)
    inc = ["-I" + runner.REPO + "/include", "-I" + runner.REPO + "/src", "-I" + build + "/gen", "-I" + runner.MON]
    srcs = [runner.MON + "/variants.cpp", runner.MON + "/api.cpp"] + runner.lib_sources()
    return b, [(cxx, s, "%s/%d.o" % (b, i), flags.split() + ["-w", "-g0"] + inc) for i, s in enumerate(srcs)]


def compile_all(build, variants):
    jobs, plan = [], []
    for k, v in enumerate(variants):
        b, js = build_variant(build, k, v)
        jobs += js
        plan.append((v, b + "/prog", [j[2] for j in js]))
    gen = build + "/gen_prog"
    g = ["-std=c++20", "-O1", "-w", '-DUNI_DATA_PATH="%s/data/UnicodeData16.0.0.txt"' % runner.VERIF, "-I" + runner.REPO + "/include", "-I" + build + "/gen", "-I" + runner.MON]
    gsrc = [runner.MON + "/variants_gen.cpp", runner.MON + "/uni.cpp"]
    gobj = ["%s/g%d.o" % (build, i) for i in range(2)]
    jobs += [(CLANG, s, o, g) for s, o in zip(gsrc, gobj)]
    # (the slow ones first)
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))

    def one(j):
        cxx, s, o, flags = j
        p = runner.run_cmd([cxx, *flags, "-c", s, "-o", o])
        if p.returncode: raise runner.CheckError("cannot compile %s with %s %s:\n%s" % (s, cxx, " ".join(flags[:4]), p.stdout[-3000:]))
    with ThreadPoolExecutor(runner.JOBS) as ex: list(ex.map(one, jobs))

    def link(x):
        v, exe, objs = x
        p = runner.run_cmd([v[1], *v[2].split(), *objs, "-o", exe])
        if p.returncode: raise runner.CheckError("cannot link %s:\n%s" % (v[0], p.stdout[-3000:]))
    with ThreadPoolExecutor(runner.JOBS) as ex: list(ex.map(link, plan + [(("generator", CLANG, "", 0), gen, gobj)]))
    return [(v, exe) for v, exe, o in plan], gen


def run(pid, tier, seed, replay, scale, build, t0):
    runner.version_header(build + "/gen")
    deep = tier == "thorough"
    progs, gen = compile_all(build, VARIANTS + (DEEP if deep else []))
    t_build = time.time() - t0
    rec = json.load(open(replay)) if replay else {}
    # (name, arguments of the generator)
    groups = [("all short strings", "5 0 0 %d" % (3 if not deep else 4)), ("all code points", None)]
    chunks, size = (12, int(250 * scale) or 1) if not deep else (400, 1000)
    groups += [("generated arguments", "%d %d %d 0" % (seed, i * size, size)) for i in range(chunks)]
    if rec.get("group"): groups = [("as recorded", rec["group"][1])]
    viol, problems = [], []
    calls = threw = compared = inputs = 0
    ops = 0
    for g, (name, spec) in enumerate(groups):
        inp = "%s/in%d" % (build, g)
        if spec:
            p = runner.run_cmd([gen, *spec.split(), inp])
            if p.returncode: raise runner.CheckError("the generator failed: " + p.stdout[-500:])

        def one(k):
            (vname, cxx, flags, dirt), exe = progs[k]
            out = "%s/out%d_%d" % (build, g, k)
            args = ["--dirt", str(dirt), "--out", out] + (["--in", inp] if spec else ["--blocks", "1"])
            try:
                p = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200 if not deep else 3000,
                                   env=dict(os.environ, MALLOC_PERTURB_=str(dirt), LC_ALL="C"))
                return k, args, p.returncode, p.stdout, out
            except subprocess.TimeoutExpired:
                return k, args, None, "no end in time", out
        with ThreadPoolExecutor(runner.JOBS) as ex: results = list(ex.map(one, range(len(progs))))
        ref = None
        for k, args, rc, text, out in results:
            vname = progs[k][0][0]
            m = re.search(r"^OK calls=(\d+) threw=(\d+) ops=(\d+) inputs=(\d+)", text, re.M)
            if rc is not None and rc in (-11, -6, -4, -7, -8):
                viol.append({"key": "crash", "detail": "%s: ends with signal %d on %s (%s): %s" % (vname, -rc, name, spec, text[-600:].replace("\n", " ")), "where": vname, "group": [name, spec]})
                continue
            if rc != 0 or not m:
                problems.append("%s on %s (%s): status %s %s" % (vname, name, spec, rc, text[-500:]))
                continue
            data = open(out, "rb").read()
            os.remove(out)
            calls += int(m.group(1)); threw += int(m.group(2)); ops = int(m.group(3))
            if k == 0: inputs += int(m.group(4))
            if ref is None: ref = (k, data); continue
            compared += len(data) // 8
            if ref[1] != data:
                if len(data) != len(ref[1]):
                    problems.append("tables of different sizes")
                    continue
                i = next(i for i in range(len(data) // 8) if ref[1][8 * i:8 * i + 8] != data[8 * i:8 * i + 8])
                show = []
                for q in (ref[0], k):
                    a = [x for x in ["--dirt", str(progs[q][0][3])] + (["--in", inp] if spec else ["--blocks", "1"]) + ["--show", str(i)]]
                    show.append(runner.run_cmd([progs[q][1], *a], env=dict(os.environ, MALLOC_PERTURB_=str(progs[q][0][3]), LC_ALL="C")).stdout.strip())
                if not spec:
                    # one line per code point
                    x, y = (re.findall(r"U\+[^)]*\)", s) for s in show)
                    d = [(p, q) for p, q in zip(x, y) if p != q]
                    show = [d[0][0], d[0][1]] if d else [s[:300] for s in show]
                fn = show[0].split(" with ")[0] if spec else "code points"
                viol.append({"key": "differs:" + fn, "detail": "[%s] gives %s | [%s] gives %s" % (progs[ref[0]][0][0], show[0][:700], vname, show[1].split(": ", 1)[-1][-500:]), "where": vname, "group": [name, spec]})
        if spec: os.remove(inp)
        if viol: break
    cov = {"evaluations": max(1, calls), "distinct_nontrivial": max(1, calls // len(progs)), "rule": "distinct pairs of an operation and a set of arguments (by seed), each called in every variant",
           "samples": ["%s: %s" % g for g in groups[:8]] if not viol else [v["detail"][:400] for v in viol[:3]],
           "variants": [v[0] for v, e in progs], "operations": ops, "argument_sets": inputs, "code_points": 0x110800, "results_compared": compared, "calls_that_threw": threw, "build_s": round(t_build, 1)}
    runner.write_evidence(pid, tier, seed, cov, time.time() - t0, len(viol), config.ASSUMPTIONS)
    if viol:
        seen = set()
        for v in viol:
            if v["key"] in seen: continue
            seen.add(v["key"])
            runner.report(pid, tier, seed, v, {"group": v["group"]})
        return 1
    if problems or not compared or not threw:
        runner.say("%s: inconclusive: %s" % (pid, (problems or ["nothing compared"])[0]))
        return 2
    runner.say("%s: held in %d variants (%d results compared) in %.1f s" % (pid, len(progs), compared, time.time() - t0))
    return 0

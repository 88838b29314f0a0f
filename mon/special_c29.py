"""C29: runs the repository's table generators on many character databases,
builds the library's lookup code with the generated tables, and compares every
lookup with the database."""
import glob, json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from . import config, runner

CLASSES = "Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co".split()
SHIPPED = runner.VERIF + "/data/UnicodeData16.0.0.txt"
MAX = 0x10FFFF


def ascii_rows():
    rows = []
    for line in open(SHIPPED, encoding="ascii"):
        p = line.rstrip("\n").split(";")
        if int(p[0], 16) >= 128: break
        rows.append(p)
    return rows


def make_db(rnd, path):
    """A database in UnicodeData format. Returns what it holds."""
    st = {k: 0 for k in "rows ranges single_runs alternating after_range gaps max_in_block identity chains composed".split()}
    gc, ranges = {}, {}      # single rows; first -> (last, class)
    target = rnd.choice((150, 600, 2500, 9000))
    cp = rnd.choice((128, 128, 129, 130, 160, 200))
    style = rnd.choice(("mixed", "mixed", "mixed", "letters", "ranges", "few"))
    last_class = "Cc"
    while cp <= MAX and len(gc) < target:
        kind = rnd.random()
        cls = rnd.choice(CLASSES if style != "few" else ("Lu", "Ll", "Lo", "Mn"))
        if rnd.random() < 0.25: cls = last_class
        if kind < (0.15 if style != "ranges" else 0.35) and rnd.random() < 0.7:
            # a First/Last range
            last = min(MAX, cp + rnd.choice((1, 2, 3, 30, 31, 63, 64, 1000, 6000, 40000)))
            if last > cp:
                ranges[cp] = (last, cls)
                st["ranges"] += 1
                cp = last + 1
        elif kind < (0.55 if style == "letters" else 0.3):
            # alternating upper and lower case
            n, first = rnd.choice((1, 2, 3, 4, 5, 8, 33)), rnd.randrange(2)
            for i in range(n):
                if cp > MAX: break
                gc[cp] = ("Lu", "Ll")[(first + i) % 2]
                cp += 1
            cls = ("Lu", "Ll")[(first + n - 1) % 2]
            st["alternating"] += n > 2
        else:
            n = rnd.choice((1, 1, 1, 2, 2, 3, 5, 8, 20, 64))
            for i in range(n):
                if cp > MAX: break
                gc[cp] = cls
                cp += 1
            st["single_runs"] += n == 1
        last_class = cls
        if rnd.random() < 0.4:
            st["gaps"] += 1
            cp += rnd.choice((1, 1, 1, 2, 3, 10, 31, 32, 33, 128, 500, 2000)) if rnd.random() < 0.97 else rnd.choice((0x4000, 0x10000, 0x30000))
    end = rnd.randrange(6)
    if cp < MAX:
        if end == 0: gc[MAX] = rnd.choice(CLASSES)
        elif end == 1: ranges[rnd.randrange(max(cp, 0xF0000), MAX)] = (MAX, "Co")
        elif end == 2: gc[rnd.randrange(cp, MAX)] = rnd.choice(CLASSES)
    listed = sorted(gc)
    # Case mappings: by block of 32, for each of the three separately
    maps = [{}, {}, {}]
    blocks = {}
    for c in listed: blocks.setdefault(c // 32, []).append(c)
    for b, cs in blocks.items():
        for which in range(3):
            if rnd.random() < 0.55: continue
            m = maps[which]
            diffs = [rnd.choice((1, -1, 32, -32, 80, rnd.randrange(-c0, MAX - c0), 0)) for c0 in (cs[0], cs[-1], cs[0])]
            k = rnd.choice((1, 2, 3, 3, 4, len(cs), len(cs)))
            chosen = sorted(rnd.sample(cs, min(k, len(cs))))
            if len(chosen) == 32: st["max_in_block"] += 1
            pattern = rnd.choice(("one", "two", "three", "alternate", "random", "ties"))
            for i, c in enumerate(chosen):
                d = {"one": diffs[0], "two": diffs[rnd.random() < 0.3], "three": diffs[rnd.randrange(3)], "alternate": diffs[i % 2],
                     "random": rnd.randrange(-c, MAX - c), "ties": diffs[i % 3]}[pattern]
                t = c + d
                if 0 <= t <= MAX:
                    m[c] = t
                    st["identity"] += t == c
    for which in range(3):
        # At least one entry of each kind
        iso = [c for c in listed if not any(x in maps[which] for x in range(c // 32 * 32, c // 32 * 32 + 32))]
        if iso: maps[which][rnd.choice(iso)] = rnd.randrange(MAX)
        else:
            c = 0xFFFE0 + which
            gc[c] = "Lo"; maps[which][c] = 0x41
    for which, m in enumerate(maps):
        # The title case field is explicit where there's an upper case one.
        if which == 0:
            for c, t in m.items(): maps[2].setdefault(c, t)
    # Decompositions: acyclic, unique, and the second part not decomposable
    dec, used = {}, set()
    # (A mapped code point may have become a row of its own meanwhile.)
    listed = sorted(gc)
    cand = [c for c in listed if 0xC0 <= c < 0xFFFF0]
    n = rnd.choice((1, 2, 3, 4, 5, 6, 7, 30, 200, 1000))
    chosen = rnd.sample(cand, min(n, max(1, len(cand) // 2)))
    chosen_set = set(chosen)
    marks = [c for c in listed if 0x300 <= c < 0x100000 and c not in chosen_set] or [0x300, 0x301, 0x20300]
    marks = rnd.sample(marks, min(len(marks), rnd.choice((1, 5, 40)))) + rnd.choice(([], [0x300, 0x345, 0xFFFFF]))
    marks = [m for m in marks if m not in chosen_set]
    if not marks: marks = [m for m in (0x300, 0x301, 0x302, 0x303) if m not in chosen_set][:1] or [0xFFFFE]
    order = chosen[:]
    rnd.shuffle(order)
    done = []
    for c in order:
        if done and rnd.random() < 0.4:
            a = done[-1] if rnd.random() < 0.5 else rnd.choice(done)
            st["chains"] += 1
        else:
            a = rnd.choice((rnd.randrange(0x20, 0x7F), rnd.choice(listed), rnd.randrange(0x80, 0x100000)))
            if a in chosen_set: a = 0x41
        a = min(a, 0xFFFFF)
        # Chains don't grow without bound.
        depth, x = 0, a
        while x in dec: x = dec[x][0]; depth += 1
        if depth > 12: a = 0x42
        for _ in range(8):
            b = rnd.choice(marks)
            if (a, b) not in used: break
        if (a, b) in used: continue
        used.add((a, b)); dec[c] = (a, b); done.append(c)
    st["composed"] = len(dec)
    # The rows, in ascending order
    rows = ascii_rows()
    for c in sorted(set(gc) | set(ranges)):
        if c in ranges:
            last, cls = ranges[c]
            name = rnd.choice(("CJK Ideograph %X", "Non-Private Use (High) Surrogate %X", "Plane 15 Private Use %X", "Hangul_Syllable, Extra%X", "X%X", "LAST, First %X", "\u00c9tendue %X")) % c
            rows.append(["%04X" % c, "<%s, First>" % name, cls, "0", "L", "", "", "", "", "N", "", "", "", "", ""])
            rows.append(["%04X" % last, "<%s, Last>" % name, cls, "0", "L", "", "", "", "", "N", "", "", "", "", ""])
            continue
        d = ""
        if c in dec: d = "%04X %04X" % dec[c]
        elif rnd.random() < 0.1: d = rnd.choice(("%04X" % rnd.randrange(MAX), "<compat> 0041 0301", "<super> 0061", "<compat> 0020 0308 0301", "0041 0300 0301", "%04X 0301 0308" % rnd.randrange(0xFFFF), "0041 0300 0301 0302"))
        rows.append(["%04X" % c, rnd.choice(("LETTER", "A, B", "<control>", "LAST", "FIRST")), gc[c], str(rnd.choice((0, 230))), "L", d, "", "", "", "N", "", ""]
                    + ["%04X" % m[c] if c in m else "" for m in maps])
    for a, b in zip(rows, rows[1:]):
        assert int(a[0], 16) < int(b[0], 16), (a, b)
    with open(path, "w") as f:
        for r in rows: f.write(";".join(r) + "\n")
    st["rows"] = len(rows)
    st["after_range"] = sum(1 for f, (l, c) in ranges.items() if gc.get(l + 1) == c)
    return st


def find_script():
    found = [p for p in glob.glob(runner.REPO + "/tools/**/make_files.sh", recursive=True)]
    if not found: raise runner.CheckError("the generators' make_files.sh isn't found under tools")
    return found[0]


def build_tables(db, b):
    """Runs the generators in the directory b."""
    os.makedirs(b, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
    p = runner.run_cmd(["/bin/bash", find_script(), db], cwd=b, env=env, timeout=300)
    made = sorted(glob.glob(b + "/*Tables.hpp"))
    return p, made


class Builder:
    """Objects which don't depend on the tables are made once."""
    def __init__(self, build, known_tables):
        self.build = build
        self.gen = build + "/gen"
        runner.version_header(self.gen)
        self.flags = runner.BASE + runner.SAN + ["-I" + self.gen]
        self.src = runner.REPO + "/src"
        self.common, self.dependent = [], []
        inc = self.flags + ["-I" + runner.REPO + "/include", "-I" + self.src, "-I" + runner.MON, '-DUNI_DATA_PATH="%s"' % SHIPPED]
        jobs = []
        for i, s in enumerate(runner.lib_sources()):
            p = runner.run_cmd([runner.CXX, *inc, "-MM", s])
            if p.returncode: raise runner.CheckError("cannot preprocess %s:\n%s" % (s, p.stdout[-2000:]))
            if any(os.path.basename(t) in p.stdout for t in known_tables): self.dependent.append(s)
            else: jobs.append((s, "%s/c%d.o" % (build, i), inc + runner.LIBDEF))
        jobs += [(runner.MON + "/tables.cpp", build + "/tables.o", inc), (runner.MON + "/uni.cpp", build + "/uni.o", inc)]
        runner.compile_all(jobs, build)
        self.common = [j[1] for j in jobs]

    def program(self, b, tables):
        """The program with these tables (None: those of the library)."""
        src = self.src
        if tables is not None:
            src = b + "/src"
            shutil.copytree(self.src, src)
            for t in tables:
                places = glob.glob(src + "/**/" + os.path.basename(t), recursive=True)
                if not places: raise runner.CheckError("the library has no " + os.path.basename(t))
                for q in places: shutil.copy(t, q)
        objs = []
        for i, s in enumerate(self.dependent):
            o = "%s/d%d.o" % (b, i)
            p = runner.run_cmd([runner.CXX, *self.flags, *runner.LIBDEF, "-I" + runner.REPO + "/include", "-I" + src, "-c", src + s[len(self.src):], "-o", o])
            if p.returncode: return None, p.stdout
            objs.append(o)
        exe = b + "/tables"
        p = runner.run_cmd([runner.CXX, *runner.SAN, *objs, *self.common, "-o", exe])
        if p.returncode: return None, p.stdout
        return exe, ""


def run(pid, tier, seed, replay, scale, build, t0):
    rec = json.load(open(replay)) if replay else None
    n = max(8, int((32 if tier == "quick" else 640) * scale))
    # The shipped database first: which tables there are
    p, tables = build_tables(SHIPPED, build + "/shipped")
    violations, problems, samples = [], [], []
    if p.returncode or not tables:
        # Either the generators fail or cannot be run here.
        q = runner.run_cmd(["python3", "-c", "pass"])
        if q.returncode: raise runner.CheckError("python3 doesn't run: " + q.stdout)
        violations.append({"key": "generator", "detail": "the generators fail on the shipped database: " + p.stdout[-600:].replace("\n", " ")})
    totals, db_totals = {}, {}
    digests = {}
    n_ok = 0

    def one(i):
        b = "%s/db%s" % (build, i)
        os.makedirs(b, exist_ok=True)
        st, path = {}, SHIPPED
        try:
            if isinstance(i, int):
                path = b + "/db.txt"
                st = make_db(random.Random(seed * 1000003 + i), path)
                p, made = build_tables(path, b + "/out")
            elif i == "shipped": p, made = build_tables(SHIPPED, b + "/out")
            else: p, made = None, None
            text = open(path).read() if isinstance(i, int) else "the shipped database"
            if p is not None and (p.returncode or len(made) != len(tables) or "Traceback" in p.stdout):
                return i, st, {"key": "generator", "detail": "a generator fails: " + p.stdout[-600:].replace("\n", " ")}, text, None
            exe, err = builder.program(b, made)
            if exe is None:
                return i, st, {"key": "compile", "detail": "the generated tables don't compile: " + err[:800].replace("\n", " ")} if made is not None else None, text, None if made is not None else err
            q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(runner.ENV, UNI_DATA=path), timeout=300)
            m = re.search(r"^VIOL (\S+) (.*)", q.stdout, re.M)
            if m: return i, st, {"key": m.group(1), "detail": "database %s: %s %s" % (i, m.group(1), m.group(2))}, text, None
            if q.returncode == 77 or "AddressSanitizer" in q.stdout or "runtime error" in q.stdout:
                m = re.search(r"(runtime error: .*|SUMMARY: .*)", q.stdout)
                return i, st, {"key": "sanitizer", "detail": "database %s: %s" % (i, m.group(1) if m else q.stdout[-300:])}, text, None
            m = re.search(r"^OK (.*)", q.stdout, re.M)
            if not m or q.returncode: return i, st, None, text, "status %s: %s" % (q.returncode, q.stdout[-800:])
            return i, st, {"ok": dict(kv.split("=") for kv in m.group(1).split())}, None, None
        finally:
            shutil.rmtree(b, ignore_errors=True)

    if not violations:
        builder = Builder(build, tables)
        t_build = time.time() - t0
        todo = ["library", "shipped"] + list(range(n))
        if rec and rec.get("db") not in (None, "library", "shipped"):
            seed, todo = rec["seed"], [rec["db"]]
        with ThreadPoolExecutor(runner.JOBS) as ex:
            for i, st, res, text, prob in ex.map(one, todo):
                if prob: problems.append("database %s: %s" % (i, prob)); continue
                if not (res and "ok" in res):
                    res["where"] = "database %s of seed %d" % (i, seed)
                    res["db"] = i
                    res["text"] = text
                    violations.append(res)
                    continue
                n_ok += 1
                d = res["ok"]
                digests[i] = d.pop("digest")
                for k, v in d.items(): totals[k] = totals.get(k, 0) + int(v)
                for k, v in st.items(): db_totals[k] = db_totals.get(k, 0) + int(v)
                if st and len(samples) < 6: samples.append("database %s: %s" % (i, json.dumps(st)))
        if "library" in digests and "shipped" in digests and digests["library"] != digests["shipped"]:
            violations.append({"key": "shipped", "detail": "the tables generated from the shipped database aren't equivalent to those of the library"})
    cov = {"evaluations": max(1, sum(v for k, v in totals.items() if k in ("class", "case", "decompose", "compose", "compose_nothing"))),
           "distinct_nontrivial": len(set(digests.values())) if digests else 0,
           "rule": "distinct_nontrivial counts databases with different digests of all lookups: the shipped one and random ones (runs of classes, gaps, First/Last ranges, "
                   "alternating case, mappings per block of 32, chains of decompositions)",
           "samples": samples or [v["detail"][:300] for v in violations[:3]] or ["none"],
           "databases": n_ok, "lookups_by_kind": totals, "database_content": db_totals,
           "digest_of_library_tables": digests.get("library"), "digest_of_regenerated_tables": digests.get("shipped")}
    if "library" not in digests and not rec and not violations and not problems: problems.append("the library itself wasn't checked")
    runner.write_evidence(pid, tier, seed, cov, time.time() - t0, len(violations), config.ASSUMPTIONS[1:] +
                          ["generated databases list all of ASCII as Unicode does, have explicit title case mappings and at least one entry per table, "
                           "and two-part decompositions whose first part is below U+100000 and whose second part is not itself decomposable and is U+0300 or above"])
    if violations:
        seen = set()
        for v in violations:
            if v["key"] in seen: continue
            seen.add(v["key"])
            db = v.pop("text", None)
            runner.report(pid, tier, seed, v, {"db": v.get("db"), "database": db[:200000] if db else None})
        return 1
    if problems:
        runner.say("%s: inconclusive: %s" % (pid, problems[0]))
        return 2
    runner.say("%s: held for %d databases (%d lookups) in %.1f s" % (pid, n_ok, cov["evaluations"], time.time() - t0))
    return 0

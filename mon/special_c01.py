"""The second half of C01: the same workload under valgrind's memcheck, which
sees the use of uninitialised memory."""
import os, re
from . import runner


def extra(pid, tier, seed, scale, build, known):
    b = build + "/vg"
    os.makedirs(b)
    exe = runner.build_main(pid, b, san=[], extra=["-UFW_WRAP", "-gdwarf-4"], wrap=False, with_alloc=False, lib_flags=["-O0"])
    cases = max(1, int((60 if tier == "quick" else 3000) * scale))
    env = dict(os.environ, LC_ALL="C")
    prefix = ["/usr/bin/valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--undef-value-errors=yes", "--exit-on-first-error=yes", "--expensive-definedness-checks=yes"]
    results, viol, problems = runner.run_shards(exe, pid, tier, seed + 1, cases, known, b, tag="v", env=env, wall=400 if tier == "quick" else 6000,
                                                prefix=prefix, args=["--exhaustive", "0" if tier == "quick" else "1"])
    rest = []
    for p in problems:
        m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Syscall param|Source and destination|Argument '|Mismatched free|Invalid free)", p)
        if m:
            viol.append({"key": "memcheck:" + m.group(1), "detail": "valgrind: " + " | ".join(re.sub(r"==\d+== *", "", l) for l in p.splitlines() if "==" in l)[:1500], "where": "valgrind"})
        else:
            rest.append(p)
    counters, _ = runner.merge(results)
    return ({"memcheck_evaluations": sum(r["evaluations"] for r in results), "memcheck_cases": sum(r["cases"] for r in results)}, viol, rest)

#!/usr/bin/env python3
"""Checks that the tools the checks need are there. Nothing is built ahead:
every check builds what it needs from /repo's current sources."""
import os, shutil, subprocess, sys, tempfile
ok = True
for t in ("/usr/bin/clang++", "/usr/bin/llvm-symbolizer", "/usr/bin/valgrind", "/bin/bash"):
    if not shutil.which(t):
        print("missing", t); ok = False
d = tempfile.mkdtemp(prefix="ysv_setup_")
try:
    open(d + "/a.cpp", "w").write("#include <string_view>\nint main() { return std::string_view(\"x\").size() != 1; }\n")
    for san in ("address,undefined", "thread"):
        p = subprocess.run(["/usr/bin/clang++", "-std=c++20", "-fsanitize=" + san, "-fsanitize-coverage=trace-pc-guard,trace-cmp", d + "/a.cpp", "-c", "-o", d + "/a.o"])
        ok = ok and p.returncode == 0
finally:
    shutil.rmtree(d, ignore_errors=True)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence"), exist_ok=True)
print("ok" if ok else "not ok")
sys.exit(0 if ok else 1)

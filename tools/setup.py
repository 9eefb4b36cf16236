#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain the checks need is present (every check builds its own harness from /repo)."""
import shutil, subprocess, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
r = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-x", "c++", "-", "-isystem", "/usr/include/eigen3"], input=b"#include <Eigen/Core>\n#include <tbb/tbb.h>\nint main(){}", capture_output=True)
if missing or r.returncode:
    print("missing:", missing, r.stderr.decode()[-500:])
    sys.exit(1)
print("ok")

#!/usr/bin/env python3
"""setup_cmd: checks that the offline toolchain the checks need is there (the checks build everything themselves)."""
import os, subprocess, sys, tempfile
d = tempfile.mkdtemp(prefix="verif_setup_")
src = os.path.join(d, "a.cpp")
open(src, "w").write("#include <vector>\nint main(){std::vector<int> v{1};return v[0]-1;}\n")
rc = subprocess.call(["clang++-18", "-std=c++20", "-fsanitize=address,undefined", src, "-o", os.path.join(d, "a")])
rc = rc or subprocess.call([os.path.join(d, "a")])
for f in os.listdir(d):
    os.remove(os.path.join(d, f))
os.rmdir(d)
print("toolchain ok" if rc == 0 else "toolchain broken")
sys.exit(1 if rc else 0)

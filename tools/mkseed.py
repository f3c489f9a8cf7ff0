#!/usr/bin/env python3
"""mkseed.py ID PROPERTY  (reads the current diff of /repo as the patch, then undoes it). meta/demo are given as files:
   /tmp/seed/demo.cpp, /tmp/seed/needs.txt, /tmp/seed/breaks.txt"""
import json, os, subprocess, sys
sid, prop = sys.argv[1:3]
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"]).decode()
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/demo.cpp", "w").write(open("/tmp/seed/demo.cpp").read())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository. Exit 0: behaves as promised.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf -- "$out"' EXIT
clang++-18 -std=c++20 -O1 -g -w ${DEMO_FLAGS:--fsanitize=address,undefined -fno-sanitize-recover=all} -Iinclude "$here/demo.cpp" -o "$out/demo" || exit 3
"$out/demo"
''')
json.dump({"property": prop, "needs": open("/tmp/seed/needs.txt").read().strip(),
           "what_it_breaks": open("/tmp/seed/breaks.txt").read().strip()}, open(d + "/meta.json", "w"), indent=1)

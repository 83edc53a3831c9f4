#!/usr/bin/env python3
"""tools/origin.py ID... : does the planted change touch lines of the original repository?"""
import re, subprocess, sys
ROOT = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
for i in sys.argv[1:]:
    f, n, own, orig = None, 0, 0, 0
    for line in open("/verif/seeded/%s/patch.diff" % i, newline="", errors="replace"):
        if line.startswith("--- a/"):
            f = line[6:].strip()
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1))
            continue
        if line.startswith("-") and not line.startswith("---"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", f], capture_output=True, text=True).stdout
            orig, own = (orig + 1, own) if b.lstrip("^").startswith(ROOT[:30]) else (orig, own + 1)
        if line[:1] in ("-", " "):
            n += 1
    print(i, "original lines changed:", orig, "own:", own, "" if orig else "   <<<<")

#!/usr/bin/env python3
"""show.py REPLAYFILE: summary and named backtrace of a replay"""
import json, os, re, subprocess, sys
import build as B
s = json.load(open(sys.argv[1]))
exe = B.build(s["variant"])
print(s["scenario"], s["variant"], s["args"], "skip", s["skip"], "mode", s["mode"], s["message"][:400])
print(len(s["trace"]), "decisions of", s.get("decisions_before"), s["trace"][:40])
print(s["command"])
for l in s["output"].split("\n"):
    if l.startswith("B ") or l.startswith("BT "):
        if l[1] == "T":
            print("thread", l.split()[1])
            l = "B " + " ".join(l.split()[2:])
        print(subprocess.run(["addr2line", "-fCpe", exe] + l.split()[1:], stdout=subprocess.PIPE).stdout.decode().replace("(anonymous namespace)::", ""))
    elif l[:2] in ("R ", "P ", "D ", "F "):
        print(l[:300])
    elif l[:2] in ("L ", "H "):
        print(l[:160])
m = re.search(r" ip (0x\w+)", s["message"])
if m:
    print(subprocess.run(["addr2line", "-fCpe", exe, m[1]], stdout=subprocess.PIPE).stdout.decode())

#!/usr/bin/env python3
"""Writes java/w/LNames.java: the names of the classes of each generated group (java/w/G*.java). Takes the folder of their class files."""
import os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = {}
for f in sorted(os.listdir(sys.argv[1])):
    m = re.match(r"([A-Z]+(\d+)(?:[_$].*)?)\.class$", f)
    if m:
        names.setdefault(int(m.group(2)), []).append("w." + m.group(1))
out = "package w;\n/* generated by tools/gennames.py */\nclass LNames {\n  static String[] of(int g) {\n    switch (g) {\n"
for g in sorted(names):
    out += "    case %d: return (%s).split(\" \");\n" % (g, "\n      + ".join('"%s"' % ((" " if i else "") + " ".join(names[g][i:i + 8])) for i in range(0, len(names[g]), 8)))
out += "    default: throw new IllegalArgumentException();\n    }\n  }\n}\n"
open(os.path.join(ROOT, "java/w/LNames.java"), "w").write(out)

"""Expected results of the generated frame programs, from the reference JVM."""
import os, re, glob, subprocess, tempfile, shutil
import build as B
_table = None
_links = None
PARAMS = 40
LINKS = 10


def table():
    global _table
    if _table is None:
        srcs = sorted(glob.glob(B.VERIF + "/java/w/Frames*.java"))
        srcs = [s for s in srcs if not s.endswith("FramesW.java")]
        key = B.shash("frames-1", str(PARAMS), *[B.fhash_content(s) for s in srcs])

        def make(tmp):
            B.sh([B.JAVA_HOME + "/bin/javac", "-J-XX:TieredStopAtLevel=1", "-nowarn", "-source", "1.8", "-target", "1.8",
                  "-d", tmp] + srcs)
            out = B.sh([B.JAVA_HOME + "/bin/java", "-cp", tmp, "w.Frames", str(PARAMS)])
            f = os.path.join(tmp, "table")
            with open(f, "wb") as h:
                h.write(out)
            return f
        _table = {}
        for l in open(B.cached(key, "frames.txt", make)):
            m, p, v = l.split()
            _table[m, p] = v
    return _table


def frames(out):
    t = table()
    bad = []
    for _, _, s in out.logs:
        if s.startswith("res "):
            _, m, p, v = s.split()
            if t[m, p] != v:
                bad.append("program %s with parameter %s gives %s, the reference VM gives %s" % (m, p, v, t[m, p]))
    return bad


def links_table():
    """the same for the generated classes that refer to each other (java/w/G*.java, L.java)"""
    global _links
    if _links is None:
        srcs = [s for s in sorted(glob.glob(B.VERIF + "/java/w/*.java"))
                if re.match(r"(G\d+|L|Late\d)\.java", os.path.basename(s))]
        late = sorted(glob.glob(B.VERIF + "/java/late/*.java"))
        key = B.shash("links-1", str(LINKS), *[B.fhash_content(s) for s in srcs + late])

        def make(tmp):
            for l in (srcs, late):
                B.sh([B.JAVA_HOME + "/bin/javac", "-J-XX:TieredStopAtLevel=1", "-nowarn", "-source", "1.8", "-target", "1.8",
                      "-d", tmp] + l)
            out = B.sh([B.JAVA_HOME + "/bin/java", "-cp", tmp, "w.L", str(LINKS)])
            f = os.path.join(tmp, "table")
            with open(f, "wb") as h:
                h.write(out)
            return f
        _links = {}
        for l in open(B.cached(key, "links.txt", make)):
            g, e, p, v = l.split()
            _links[g, e, p] = v
    return _links


def links(out):
    t = links_table()
    bad = []
    for _, _, s in out.logs:
        if s.startswith("res "):
            _, g, e, p, v = s.split()
            if t[g, e, p] != v:
                bad.append("group %s entry %s with %s gives %s, the reference VM gives %s" % (g, e, p, v, t[g, e, p]))
    return bad

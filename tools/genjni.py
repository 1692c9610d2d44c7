#!/usr/bin/env python3
"""Generates java/w/JniSigs.java and sim/jnisigs.inc: native methods and Java methods of many signatures, called in both
directions, whose results depend only on what they are given."""
import os, random
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = random.Random(77)
N = 48
PRIM = ["boolean", "byte", "char", "short", "int", "long", "float", "double"]
C = {"boolean": "jboolean", "byte": "jbyte", "char": "jchar", "short": "jshort", "int": "jint", "long": "jlong", "float": "jfloat", "double": "jdouble", "JnO": "jobject", "void": "void"}
SIG = {"boolean": "Z", "byte": "B", "char": "C", "short": "S", "int": "I", "long": "J", "float": "F", "double": "D", "JnO": "Lw/JnO;", "void": "V"}
UN = {"boolean": "z", "byte": "b", "char": "c", "short": "s", "int": "i", "long": "j", "float": "f", "double": "d", "JnO": "l"}
NAME = {"JnO": "Object"}
def cap(t): return NAME.get(t, t.capitalize())

def jval(t, k):       # a value drawn from seed expression x, the same in Java and C++
    return {"boolean": "(x(q, %d) & 1) != 0", "byte": "(byte) x(q, %d)", "char": "(char) x(q, %d)", "short": "(short) x(q, %d)",
            "int": "(int) x(q, %d)", "long": "x(q, %d) * 2654435761L", "float": "(float) (short) x(q, %d) / 8", "double": "(double) (int) x(q, %d) / 64",
            "JnO": "o[(int) (x(q, %d) & 3)]"}[t] % k
def cval(t, k):
    return {"boolean": "(jboolean) ((x(q, %d) & 1) != 0)", "byte": "(jbyte) x(q, %d)", "char": "(jchar) x(q, %d)", "short": "(jshort) x(q, %d)",
            "int": "(jint) x(q, %d)", "long": "(jlong) ((uint64_t) x(q, %d) * 2654435761ULL)", "float": "(jfloat) (jshort) x(q, %d) / 8", "double": "(jdouble) (jint) x(q, %d) / 64",
            "JnO": "o[x(q, %d) & 3]"}[t] % k
def jh(t, a):
    return {"boolean": "(%s ? 1 : 2)", "float": "(long) (%s * 8)", "double": "(long) (%s * 64)", "JnO": "id(%s)"}.get(t, "%s") % a
def ch(t, a):
    return {"boolean": "(%s == 1 ? 1 : %s == 0 ? 2 : 77777)" , "float": "(jlong) (%s * 8)", "double": "(jlong) (%s * 64)", "JnO": "id(e, %s)"}.get(t, "%s").replace("%s", a)
def jr(t, h):
    return {"boolean": "(%s & 1) != 0", "byte": "(byte) %s", "char": "(char) %s", "short": "(short) %s", "int": "(int) %s", "long": "%s",
            "float": "(float) (short) %s / 4", "double": "(double) (int) %s / 32"}[t] % h
def cr(t, h):
    return {"boolean": "(jboolean) (%s & 1)", "byte": "(jbyte) %s", "char": "(jchar) %s", "short": "(jshort) %s", "int": "(jint) %s", "long": "%s",
            "float": "(jfloat) (jshort) %s / 4", "double": "(jdouble) (jint) %s / 32"}[t] % h

java = """package w;

/** Generated by tools/genjni.py. */
public class JniSigs extends JnBase {
  int id;
  JniSigs(int id) { this.id = id; }
  static long x(int q, int k) { return ((long) q * 1103515245L + (long) k * 12345L * (q | 1)) >> 3; }
  static long id(JnO o) { return o == null ? -5 : o.id; }
  static void expect(int k, int w, Object got, Object want) {
    if (!got.equals(want)) W.fail("signature " + k + " (" + w + ") gave " + got + " instead of " + want);
  }
  /* not boxed: a value that was not brought to its type shows only as it is */
  static void expect(int k, int w, long got, long want) {
    if (got != want) W.fail("signature " + k + " (" + w + ") gave " + got + " instead of " + want);
  }
  static void expect(int k, int w, double got, double want) {
    if (got != want && (got == got || want == want)) W.fail("signature " + k + " (" + w + ") gave " + got + " instead of " + want);
  }
  static void expect(int k, int w, boolean got, boolean want) {
    if (got != want) W.fail("signature " + k + " (" + w + ") gave " + got + " instead of " + want);
  }
  static final int COUNT = %d;
  /** native code that calls j_k and s_k of this in all ways, checking the results */
  static native void back(int k, int q, JniSigs r, JnO[] o);
""" % N
cpp = """// Generated by tools/genjni.py.
static jlong x(int q, int k) { return ((jlong) q * 1103515245LL + (jlong) k * 12345LL * (q | 1)) >> 3; }
"""
calls, backs = "", ""
for k in range(N):
    n = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20]) if k > 3 else [0, 6, 7, 22][k]
    kind = R.randrange(5)
    pool = PRIM + ["JnO"] * 3 if kind < 2 else ["float", "double", "JnO"] if kind == 2 else ["int", "long", "JnO"] if kind == 3 else ["double", "float", "int", "long"]
    ts = [R.choice(pool) for _ in range(n)]
    rt = (PRIM + ["JnO", "void"])[k % 10]
    fixed = sorted(q for q in range(n) if ts[q] == "JnO")
    jp = ", ".join("%s a%d" % (t, q) for q, t in enumerate(ts))
    names = ["a%d" % q for q in range(n)]
    hash_j = "long h = %d" % (k * 31 + 7)
    hj = "".join("    h = h * 31 + %s;\n" % jh(t, a) for t, a in zip(ts, names))
    ret_j = "" if rt == "void" else "    return %s;\n" % (names[fixed[0]] if rt == "JnO" and fixed else "null" if rt == "JnO" else jr(rt, "h"))
    throws = "    if ((h & 63) == 5) throw new JnEx(h);\n"
    put = "    setLast(h);\n" if rt == "void" else ""
    jdecl = ""
    # natives
    jdecl += "  static native %s n%d(%s);\n  native %s v%d(%s);\n" % (rt, k, jp, rt, k, jp)
    # Java methods
    jdecl += "  static long hs%d(%s) {\n    long h = %dL;\n%s    return h;\n  }\n" % (k, jp, k * 31 + 7, hj)
    jdecl += "  static %s s%d(%s) {\n    long h = hs%d(%s);\n    junk(h);\n%s%s%s  }\n" % (rt, k, jp, k, ", ".join(names), throws, "    setLast(h);\n" if rt == "void" else "", ret_j)
    jdecl += "  %s j%d(%s) {\n    long h = hs%d(%s) + id * 7;\n    junk(h);\n%s%s%s  }\n" % (rt, k, jp, k, ", ".join(names), throws, "    setLast(h);\n" if rt == "void" else "", ret_j)
    java += jdecl
    decl = "".join("      %s a%d = %s;\n" % (t, q, jval(t, q)) for q, t in enumerate(ts))
    al = ", ".join(names)
    want = lambda h: "null" if rt == "void" else (names[fixed[0]] if fixed else "null") if rt == "JnO" else "(Object) (%s)" % jr(rt, "(" + h + ")").replace("((", "((")
    def one(call, h, w):
        s = "      {\n        long h = %s;\n        boolean boom = (h & 63) == 5;\n        try {\n" % h
        if rt == "void":
            s += "          %s;\n          if (!boom && last() != h) W.fail(\"signature %d (%s) got other arguments\");\n" % (call, k, w)
        elif rt == "JnO":
            s += "          JnO g = %s;\n          if (!boom && g != %s) W.fail(\"signature %d (%s) returned another object\");\n" % (call, names[fixed[0]] if fixed else "null", k, w)
        else:
            s += "          %s g = %s;\n          if (!boom) expect(%d, %s, g, %s);\n" % (rt, call, k, w, jr(rt, "h"))
        s += "          if (boom) W.fail(\"signature %d (%s) lost its exception\");\n        } catch (JnEx e) {\n          if (!boom || e.h != h) W.fail(\"signature %d (%s) threw for \" + e.h);\n        }\n      }\n" % (k, w, k, w)
        return s
    calls += "    case %d: {\n%s" % (k, decl) + one("n%d(%s)" % (k, al), "hs%d(%s)" % (k, al), 1) + one("r.v%d(%s)" % (k, al), "hs%d(%s) + r.id * 7" % (k, al), 2) + "      break;\n    }\n"
    # C++ natives
    cp = "".join(", %s a%d" % (C[t], q) for q, t in enumerate(ts))
    ho = "".join("  h = h * 31 + %s;\n" % ch(t, a) for t, a in zip(ts, names))
    stress = "  disturb(e%s);\n"
    objs = [names[q] for q in fixed]
    def body(inst):
        s = "  uint64_t hu = %dULL;\n" % (k * 31 + 7)
        s += "  jobject os[] = {0%s};\n  disturb(e, os, %d, %d);\n" % ("".join(", " + o for o in objs), len(objs), k)
        s += "".join("  hu = hu * 31 + (uint64_t) (jlong) %s;\n" % ch(t, a) for t, a in zip(ts, names))
        if inst: s += "  hu += (uint64_t) sid(e, self) * 7;\n"
        s += "  jlong h = (jlong) hu;\n"
        s += "  if ((h & 63) == 5) { toss(e, h); return%s; }\n" % ("" if rt == "void" else " 0")
        if rt == "void": s += "  setLast(e, h);\n"
        elif rt == "JnO": s += "  return %s;\n" % (objs[0] if objs else "0")
        else: s += "  return %s;\n" % cr(rt, "h")
        return s
    cpp += "JN(%s) Java_w_JniSigs_n%d(JNIEnv* e, jclass%s)\n{\n%s}\n" % (C[rt], k, cp, body(False))
    cpp += "JN(%s) Java_w_JniSigs_v%d(JNIEnv* e, jobject self%s)\n{\n%s}\n" % (C[rt], k, cp, body(True))
    # C++ calling Java
    sig = "(%s)%s" % ("".join(SIG[t] for t in ts), SIG[rt])
    cdecl = "".join("    %s a%d = %s;\n" % (C[t], q, cval(t, q)) for q, t in enumerate(ts))
    arr = "    jvalue av[%d];\n    memset(av, 0x5a, sizeof av);\n" % max(1, n) + "".join("    av[%d].%s = a%d;\n" % (q, UN[t], q) for q, t in enumerate(ts))
    hb = "    uint64_t hu = %dULL;\n" % (k * 31 + 7) + "".join("    hu = hu * 31 + (uint64_t) (jlong) %s;\n" % ch(t, a) for t, a in zip(ts, names))
    T = cap(rt)
    alist = "".join(", " + a for a in names)
    cpp += "static %s vj%d(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)\n{\n  va_list a;\n  va_start(a, m);\n" % (C[rt], k)
    pre = "" if rt == "void" else "%s g = " % C[rt]
    if rt != "void": cpp += "  %s g;\n  if (st) g = e->CallStatic%sMethodV(c, m, a); else g = e->Call%sMethodV(r, m, a);\n  va_end(a);\n  return g;\n}\n" % (C[rt], T, T)
    else: cpp += "  if (st) e->CallStaticVoidMethodV(c, m, a); else e->CallVoidMethodV(r, m, a);\n  va_end(a);\n}\n"
    b = "  case %d: {\n%s%s%s" % (k, cdecl, arr, hb)
    b += "    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);\n"
    b += "    jmethodID ms = method(e, c, %d, true, \"s%d\", \"%s\"), mj = method(e, c, %d, false, \"j%d\", \"%s\");\n    if (!ms || !mj) break;\n" % (2 * k, k, sig, 2 * k + 1, k, sig)
    for w, (call, h) in enumerate([("e->CallStatic%sMethod(c, ms%s)" % (T, alist), "hs"), ("e->CallStatic%sMethodA(c, ms, av)" % T, "hs"), ("vj%d(e, 1, 0, c, ms%s)" % (k, alist), "hs"),
                                   ("e->Call%sMethod(r, mj%s)" % (T, alist), "hj"), ("e->Call%sMethodA(r, mj, av)" % T, "hj"), ("vj%d(e, 0, r, c, mj%s)" % (k, alist), "hj")]):
        b += "    if (w == %d) {\n" % w
        if rt == "void":
            b += "      %s;\n      if (!thrown(e, %s, %d)) checkLast(e, %s, %d);\n" % (call, h, k, h, k)
        elif rt == "JnO":
            b += "      jobject g = %s;\n      if (!thrown(e, %s, %d)) sameObject(e, g, %s, %d);\n" % (call, h, k, objs[0] if objs else "(jobject) 0", k)
        else:
            b += "      %s g = %s;\n      if (!thrown(e, %s, %d) && g != %s) wrong(%d, %d, (double) g, (double) (%s));\n" % (C[rt], call, h, k, cr(rt, h), k, w, cr(rt, h))
        b += "    }\n"
    backs += b + "    break;\n  }\n"
java += "  static void call(int k, int q, JniSigs r, JnO[] o) {\n    switch (k) {\n" + calls + "    }\n  }\n}\n"
cpp += "static void backCall(JNIEnv* e, int k, int w, int q, jobject r, jclass c, jobject* o)\n{\n  switch (k) {\n" + backs + "  }\n}\n"
open(ROOT + "/java/w/JniSigs.java", "w").write(java)
open(ROOT + "/sim/jnisigs.inc", "w").write(cpp)

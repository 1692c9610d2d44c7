#!/usr/bin/env python3
"""Generates java/w/Frames*.java: deterministic programs of many frame shapes (references and primitives live across calls,
allocations, exceptions, monitors), whose result depends only on (method, parameter)."""
import random, os, sys
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "java", "w")
R = random.Random(20240607)
NM = 150
PER = 25

I = ["i0", "i1", "i2", "i3"]
J = ["j0", "j1"]
D = ["d0", "d1"]
F = ["f0"]
N = ["r0", "r1", "r2", "r3"]


class G:
    def __init__(self, k):
        self.k = k
        self.depth = 0
        self.lab = 0
        self.loop = []
        self.tries = 0
        self.budget = R.randint(14, 34)
        self.tmp = 0

    def i(self, d=0):
        r = R.random()
        if d > 2 or r < 0.25:
            return R.choice(I)
        if r < 0.35:
            return str(R.choice([0, 1, 2, 3, 5, 7, 31, -1, 100, 1000, 65535, 2147483647, -2147483648 + 1, R.randint(-9999, 9999)]))
        a, b = self.i(d + 1), self.i(d + 1)
        c = R.randrange(24)
        if c == 20: return "v(%s)" % self.n(d + 1)
        if c == 21: return "mk(c, %s, %s).get(%s)" % (a, R.choice(N), b)
        if c == 22: return "(int) %s" % self.j(d + 1)
        if c == 23: return "three(c, %s, %s, %s)" % (a, self.n(d + 1), b)
        if c < 3: return "(%s + %s)" % (a, b)
        if c < 5: return "(%s - %s)" % (a, b)
        if c == 5: return "(%s * %s)" % (a, b)
        if c == 6: return "(%s / %s)" % (a, b if self.tries else "(%s | 1)" % b)
        if c == 7: return "(%s %% %s)" % (a, b if self.tries else "(%s | 1)" % b)
        if c == 8: return "(%s << %s)" % (a, b)
        if c == 9: return "(%s >> %s)" % (a, b)
        if c == 10: return "(%s >>> %s)" % (a, b)
        if c == 11: return "(%s ^ %s)" % (a, b)
        if c == 12: return "(%s & %s)" % (a, b)
        if c == 13: return "(int) %s" % R.choice(J)
        if c == 14: return "(%s %s)" % (R.choice(["(byte)", "(short)", "(char)"]), a)
        if c == 15: return "(%s ? %s : %s)" % (self.cond(d + 1), a, b)
        if c == 16: return "a0[%s & 7]" % a
        if c == 17: return "%s.get(%s)" % (self.shape(), a)
        if c == 18: return "s0.length()"
        return "v(%s)" % R.choice(N)

    def j(self, d=0):
        r = R.random()
        if d > 2 or r < 0.3: return R.choice(J)
        if r < 0.4: return "(long) " + self.i(2)
        if r < 0.5: return "%dL" % R.randint(-10**12, 10**12)
        a, b = self.j(d + 1), self.j(d + 1)
        c = R.randrange(16)
        if c == 11: return "mk(c, %s, %s).lg(c, %s, %s)" % (self.i(2), R.choice(N), a, self.n(2))
        if c == 12: return "sl(c, %s, %s, %s)" % (self.n(2), a, self.i(2))
        if c == 13: return "(%s ? %s : %s)" % (self.cond(d + 1), a, b)
        if c == 14: return "(long) %s" % self.d(2)
        if c == 15: return "(%s %s sl(c, %s, %s, %s))" % (a, R.choice("+-^"), self.n(2), b, self.i(2))
        if c < 2: return "(%s + %s)" % (a, b)
        if c < 4: return "(%s - %s)" % (a, b)
        if c == 4: return "(%s * %s)" % (a, b)
        if c == 5: return "(%s / %s)" % (a, b if self.tries else "(%s | 1L)" % b)
        if c == 6: return "(%s %% (%s | 1L))" % (a, b)
        if c == 7: return "(%s << %s)" % (a, self.i(2))
        if c == 8: return "(%s >>> %s)" % (a, self.i(2))
        if c == 9: return "(%s ^ %s)" % (a, b)
        return "(%s & %s)" % (a, b)

    def d(self, d=0):
        r = R.random()
        if d > 1 or r < 0.4: return R.choice(D)
        if r < 0.6: return "(double) " + self.i(2)
        a, b = self.d(d + 1), self.d(d + 1)
        if r < 0.68: return "dl(c, %s, %s, %s)" % (self.n(2), a, self.j(2))
        return "(%s %s %s)" % (a, R.choice("+-*"), b)

    def cond(self, d=0):
        r = R.random()
        if r < 0.3: return "%s %s %s" % (self.i(2), R.choice(["<", ">", "<=", ">=", "==", "!="]), self.i(2))
        if r < 0.4: return "%s %s %s" % (self.j(2), R.choice(["<", ">", "<=", "==", "!="]), self.j(2))
        if r < 0.5: return "%s %s %s" % (self.d(2), R.choice(["<", ">", "<=", ">=", "=="]), self.d(2))
        if r < 0.65: return "%s %s null" % (R.choice(N), R.choice(["==", "!="]))
        if r < 0.75: return "%s %s %s" % (R.choice(N), R.choice(["==", "!="]), R.choice(N))
        if r < 0.85: return "%s instanceof %s" % (R.choice(N + ["o0"]), R.choice(["Nd", "Nd2"]))
        if d > 1: return "true"
        return "(%s %s %s)" % (self.cond(d + 1), R.choice(["&&", "||"]), self.cond(d + 1))

    def shape(self):
        return R.choice(["h0", "h0", "sh(c, %s)" % self.i(2)])

    def n(self, d=0):
        r = R.random()
        if r < 0.25 or d > 2: return R.choice(N)
        if r < 0.5: return "new Nd(%s, %s)" % (self.i(1), R.choice(N + ["null"]))
        if r < 0.6: return "new Nd2(%s, %s, %s)" % (self.i(1), R.choice(N + ["null"]), self.j(2))
        if r < 0.68: return "(%s ? %s : %s)" % (self.cond(1), self.n(d + 1), self.n(d + 1))
        if r < 0.76 and self.tries: return "%s.l" % R.choice(N)
        if r < 0.82: return "left(%s)" % R.choice(N)
        if r < 0.88: return "link(c, %s, %s)" % (self.n(d + 1), self.n(d + 1))
        if r < 0.93: return "b0[%s & 3]" % self.i(2)
        if r < 0.96 and self.tries: return "(Nd) o0"
        return "null"

    def call(self):
        k = R.randrange(max(0, self.k - 12), self.k) if self.k else 0
        if not self.k: return "(long) %s" % self.i(1)
        return "%s.m%d(c, %s, %s)" % (cls(k), k, self.i(1), self.n(1))

    def block(self, ind):
        n = R.randint(1, 4)
        return "".join(self.stmt(ind) for _ in range(n))

    def local(self, p):
        """a block with objects of its own, used before, during and after calls in the middle of expressions"""
        self.lab += 1
        ts = ["t%d_%d" % (self.lab, q) for q in range(R.randint(1, 2))]
        s = p + "{\n"
        for q, t in enumerate(ts):
            s += p + "  Nd %s = %s;\n" % (t, R.choice(["new Nd(%s, %s)" % (self.i(1), R.choice(N + ["null"])), "new Nd2(%s, %s, %s)" % (self.i(2), R.choice(N), self.j(1)), "mk(c, %s, %s)" % (self.i(1), self.n(2))]))
        for _ in range(R.randint(2, 5)):
            t, u = R.choice(ts), R.choice(ts)
            k = R.randrange(9)
            s += p + "  " + (
                "%s = %s * 31 + %s.lg(c, %s, %s);" % ((x := R.choice(J)), x, t, self.j(2), self.n(2)) if k == 0 else
                "%s = %s * 31 + sl(c, %s, %s, %s);" % ((x := R.choice(J)), x, t, self.j(2), self.i(1)) if k == 1 else
                "%s.v = %s ? 1 : 0;" % (t, self.cond()) if k == 2 else
                "%s.l = link(c, %s, %s);" % (t, self.n(2), self.n(2)) if k == 3 else
                "%s += three(c, %s, %s, %s.get(%s));" % (R.choice(I), self.i(2), u, t, self.i(2)) if k == 4 else
                "%s.v += v(%s) + %s;" % (t, self.n(1), self.i(1)) if k == 5 else
                "%s = link(c, %s, new Nd(%s.v, %s));" % (R.choice(N), R.choice(N), t, R.choice(N)) if k == 6 else
                "d1 = d1 * 0.5 + dl(c, %s, %s, %s.lg(c, %s, %s));" % (u, self.d(2), t, self.j(2), R.choice(N)) if k == 7 else
                "%s = (%s ? %s : %s).get(%s) + v(%s);" % (R.choice(I), self.cond(), t, u, self.i(2), t)) + "\n"
        for t in ts:
            s += p + "  %s ^= chain(%s);\n" % (R.choice(I), t)
        return s + p + "}\n"

    def stmt(self, ind):
        self.budget -= 1
        p = "  " * ind
        r = R.random()
        deep = self.depth < 4 and self.budget > 0
        if r < 0.16: return p + "%s = %s;\n" % (R.choice(I), self.i())
        if r < 0.22: return p + "%s = %s;\n" % (R.choice(J), self.j())
        if r < 0.25: return p + "%s = %s;\n" % (R.choice(D), self.d())
        if r < 0.26: return p + "f0 = f0 * 0.5f + (float) (%s & 1023);\n" % self.i(2)
        if r < 0.40: return p + "%s = %s;\n" % (R.choice(N), self.n())
        if r < 0.44: return p + "j0 ^= %s;\n" % self.call()
        if r < 0.47: return p + "a0[%s & 7] = %s;\n" % (self.i(2), self.i(1))
        if r < 0.50: return p + "b0[%s & 3] = %s;\n" % (self.i(2), self.n())
        if r < 0.52: return p + "o0 = %s;\n" % R.choice([self.n(), "new int[] {%s, 3}" % self.i(1), "s0", "new Object[] {r0, r1, o0}", "Integer.valueOf(%s)" % self.i(1)])
        if r < 0.54: return p + "s0 = cut(s0 + %s);\n" % R.choice([self.i(1), self.j(2), "\"x\"", "(char) (65 + (%s & 15))" % R.choice(I)])
        if r < 0.56: return p + "h0 = sh(c, %s);\n" % self.i(1)
        if r < 0.58 and self.tries:
            return p + "if (%s) throw %s;\n" % (self.cond(), R.choice(["new Ex(%s)" % self.i(1), "new Ex2(%s, %s)" % (self.i(1), R.choice(N)), "new RuntimeException(s0)"]))
        if r < 0.60 and self.tries: return p + "%s\n" % R.choice(["r1.v = %s;" % self.i(1), "i1 = a0[%s];" % self.i(1), "r2 = (Nd2) r3;", "i2 = ((int[]) o0)[0];", "b0[%s] = r0;" % R.choice(I), "i3 = new int[%s & 0x8000000f].length;" % R.choice(I)])
        if r < 0.62 and self.loop: return p + "if (%s) %s;\n" % (self.cond(), R.choice(["break", "continue"]) + R.choice(["", " " + self.loop[-1][0], " " + self.loop[0][0]]))
        if r < 0.63 and self.depth > 0: return p + "if (%s) return fin(c, j1, i0, %s);\n" % (self.cond(), R.choice(N))
        if r < 0.65: return p + "c.point();\n"
        if r < 0.70: return self.local(p)
        if not deep: return p + "%s += %s;\n" % (R.choice(I), self.i(2))
        self.depth += 1
        try:
            if r < 0.75:
                s = p + "if (%s) {\n%s%s}" % (self.cond(), self.block(ind + 1), p)
                if R.random() < 0.6: s += " else {\n%s%s}" % (self.block(ind + 1), p)
                return s + "\n"
            if r < 0.83:
                self.lab += 1
                l = "L%d" % self.lab
                v = "q%d" % self.lab
                self.loop.append((l, v))
                s = p + "%s: for (int %s = 0; %s < %d && --c.fuel > 0; ++%s) {\n%s%s}\n" % (l, v, v, R.randint(1, 4), v, self.block(ind + 1), p)
                self.loop.pop()
                return s
            if r < 0.93:
                self.tries += 1
                b = self.block(ind + 1)
                self.tries -= 1
                s = p + "try {\n%s%s}" % (b, p)
                kinds = R.sample(["Ex", "ArithmeticException", "NullPointerException", "ArrayIndexOutOfBoundsException", "ClassCastException", "NegativeArraySizeException"], R.randint(0, 3))
                kinds += ["RuntimeException"] if R.random() < 0.85 or not kinds else []
                fin = R.random() < 0.35
                for q, kd in enumerate(kinds):
                    self.tmp += 1
                    e = "e%d" % self.tmp
                    s += " catch (%s %s) {\n%s  %s = %s ^ code(%s);\n%s%s}" % (kd, e, p, R.choice(I), R.choice(I), e, self.block(ind + 1), p)
                if fin:
                    lp, self.loop = self.loop, []
                    t, self.tries = self.tries, 0
                    s += " finally {\n%s%s}" % (self.block(ind + 1).replace("return fin(", "j0 ^= fin("), p)
                    self.loop = lp
                    self.tries = t
                return s + "\n"
            if r < 0.96:
                return p + "synchronized (lk(c, %s)) {\n%s%s}\n" % (R.choice(N), self.block(ind + 1), p)
            n = R.randint(2, 5)
            cs = R.sample(range(8), n) if R.random() < 0.5 else R.sample([-100, 0, 3, 77, 1000, 100000, -5], min(n, 5))
            s = p + "switch (%s) {\n" % (self.i(1) + " & 7" if max(cs) < 8 else R.choice(I))
            for x in cs:
                s += p + "case %d:\n%s" % (x, self.block(ind + 1))
                if R.random() < 0.7: s += p + "  break;\n"
            if R.random() < 0.5:
                s += p + "default:\n%s" % self.block(ind + 1)
            return s + p + "}\n"
        finally:
            self.depth -= 1


def cls(k):
    return "Frames%d" % (k // PER)


def method(k):
    g = G(k)
    body = ""
    while g.budget > 0:
        body += g.stmt(2)
    # break statements in a switch inside no loop are fine; unreachable code is avoided by guards
    return """  static %slong m%d(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + %d, i2 = c.fuel & 15, i3 = %d;
    long j0 = p * 1000003L, j1 = %dL;
    double d0 = p, d1 = %d.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
%s    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }
""" % ("synchronized " if R.random() < 0.1 else "", k, R.randint(0, 99), R.randint(-9, 9), R.randint(-10**9, 10**9), R.randint(0, 9), body)


HEAD = """package w;

/** Generated by tools/genframes.py. */
"""

BASE = """public class Frames {
  public static class Ctx {
    public int fuel;
    public void point() {}
  }
  static class Nd {
    int v;
    Nd l;
    Nd(int v, Nd l) { this.v = v; this.l = l; }
    int get(int i) { return v + i; }
    long lg(Ctx c, long x, Nd n) { return x * 7 + chain(new Nd(v, n)); }
  }
  static class Nd2 extends Nd {
    long w;
    Object o;
    double d;
    Nd2(int v, Nd l, long w) { super(v, l); this.w = w; this.o = l; this.d = v; }
    int get(int i) { return super.get(i) ^ (int) w; }
    long lg(Ctx c, long x, Nd n) { return super.lg(c, w, n) ^ x; }
  }
  static class Ex extends RuntimeException {
    final int n;
    Ex(int n) { super("ex" + n); this.n = n; }
  }
  static class Ex2 extends Ex {
    final Nd o;
    Ex2(int n, Nd o) { super(n); this.o = o; }
  }
  interface Shape { int get(int i); }
  static class S0 implements Shape {
    Nd n = new Nd(5, null);
    public int get(int i) { return n.get(i); }
  }
  static class S1 implements Shape {
    int[] a = {1, 2, 3, 4};
    public int get(int i) { return a[i & 3] + new Nd(i, null).get(1); }
  }
  static class S2 extends S1 {
    public int get(int i) { return super.get(i) * 3; }
  }
  static Shape sh(Ctx c, int i) {
    switch (i & 3) {
    case 0: return new S0();
    case 1: return new S1();
    default: return new S2();
    }
  }
  static int v(Nd n) { return n == null ? -3 : n.v; }
  static Nd mk(Ctx c, int i, Nd n) { return (i & 1) == 0 ? new Nd(i, n) : new Nd2(i, n, i * 77L); }
  static int three(Ctx c, int a, Nd n, int b) { return a * 31 + b + chain(new Nd(b, n)); }
  static long sl(Ctx c, Nd n, long x, int i) { return x * 3 + i + chain(new Nd(i, n)); }
  static double dl(Ctx c, Nd n, double d, long x) { return d * 0.5 + (x & 1023) + v(mk(c, (int) x, n)); }
  static Nd left(Nd n) { return n == null ? null : n.l; }
  static Nd link(Ctx c, Nd a, Nd b) {
    if (a == null) return b;
    // bounded and free of cycles
    int d = 0;
    for (Nd x = b; x != null; x = x.l) if (x == a || ++d > 12) return new Nd(a.v, null);
    return a instanceof Nd2 ? new Nd2(a.v, b, ((Nd2) a).w) : new Nd(a.v + 1, b);
  }
  static Object lk(Ctx c, Nd n) { return n == null ? (Object) c : n; }
  static String cut(String s) { return s.length() > 24 ? s.substring(s.length() - 9) : s; }
  static int code(RuntimeException e) {
    int x = e.getClass().getName().hashCode();
    if (e instanceof Ex) x += ((Ex) e).n;
    if (e instanceof Ex2) x += v(((Ex2) e).o) * 3;
    if (e.getClass() == RuntimeException.class) x += e.getMessage().hashCode();
    return x;
  }
  static int sum(int[] a) {
    int s = 0;
    for (int i = 0; i < a.length; ++i) s = s * 3 + a[i];
    return s;
  }
  static int sum(Nd[] a) {
    int s = 0;
    for (int i = 0; i < a.length; ++i) s = s * 5 + chain(a[i]);
    return s;
  }
  static int chain(Nd n) {
    int s = 0;
    for (int d = 0; n != null && d < 40; n = n.l, ++d) {
      s = s * 31 + n.v;
      if (n instanceof Nd2) s += (int) ((Nd2) n).w + (((Nd2) n).o == null ? 1 : 2);
    }
    return s;
  }
  static int kind(Object o) {
    if (o instanceof Nd) return chain((Nd) o);
    if (o instanceof int[]) return sum((int[]) o);
    if (o instanceof String) return o.hashCode();
    if (o instanceof Integer) return ((Integer) o).intValue();
    if (o instanceof Object[]) {
      Object[] a = (Object[]) o;
      return a.length + (a[0] instanceof Nd ? ((Nd) a[0]).v : 9);
    }
    return 4;
  }
  static long fin(Ctx c, long j, int i, Nd n) {
    return (j * 31 + i) * 31 + chain(n);
  }
  public static long run(Ctx c, int m, int p) {
    c.fuel = 400;
    try {
      return run0(c, m, p);
    } catch (RuntimeException e) {
      return code(e) * 1000003L;
    }
  }
  static long run0(Ctx c, int m, int p) {
    switch (m) {
%s    }
    throw new IllegalArgumentException();
  }
  public static final int COUNT = %d;

  /** on a reference VM: the expected results */
  public static void main(String[] a) {
    int params = Integer.parseInt(a[0]);
    StringBuilder sb = new StringBuilder();
    for (int m = 0; m < COUNT; ++m)
      for (int p = 0; p < params; ++p) sb.append(m).append(' ').append(p).append(' ').append(run(new Ctx(), m, p)).append('\\n');
    System.out.print(sb);
  }
}
"""
files = {}
for k in range(NM):
    files.setdefault(cls(k), []).append(method(k))
for c, ms in files.items():
    open(os.path.join(OUT, c + ".java"), "w").write(HEAD + "class %s extends Frames {\n%s}\n" % (c, "\n".join(ms)))
open(os.path.join(OUT, "Frames.java"), "w").write(HEAD + BASE % ("".join("    case %d: return %s.m%d(c, p, new Nd(p, null));\n" % (k, cls(k), k) for k in range(NM)), NM))

#!/usr/bin/env python3
"""Generates java/w/G*.java, L.java: groups of classes that call, access, convert and construct each other in every way the
language has; the result of an entry point depends only on (group, entry, parameter). Classes named Late* are compiled again
from java/late, after the others, so that some references do not resolve."""
import os, random, re
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "java")
R = random.Random(77)
GROUPS = 24
SIGS = 16
ENTRIES = 8
NC = 6


class Group:
    def __init__(self, g):
        self.g = g
        self.ifaces = []  # (name, supers, {i: default?})
        self.classes = []
        g = str(g)
        self.inames = ["I%s_%d" % (g, k) for k in range(3)]
        self.isup = {0: [], 1: [0] if R.random() < .4 else [], 2: [R.randrange(2)]}
        self.imeth = {0: [0, 1], 1: [2], 2: [3]}
        self.idef = {k: {m for m in self.imeth[k] if R.random() < .35} for k in range(3)}
        self.cname = ["C%s_%d" % (g, k) for k in range(NC)]
        self.sup = [None] + [R.choice([None] + list(range(k)) * 2) for k in range(1, NC)]
        self.impl = [[i for i in range(3) if R.random() < .35] for _ in range(NC)]
        self.abs = [R.random() < .25 and k < 3 for k in range(NC)]
        if all(self.abs[:NC]): self.abs[0] = False
        self.decl = []       # virtual methods a0..a4 declared (k -> 'abs'|'def')
        for k in range(NC):
            d = {}
            for m in range(5):
                if R.random() < .45: d[m] = 'abs' if self.abs[k] and R.random() < .4 else 'def'
            self.decl.append(d)
        self.ideclared = []
        # make concrete classes complete
        for k in range(NC):
            need = set()
            if not self.abs[k]:
                for m in range(5):
                    st = self.find(k, m)
                    if st == 'abs': self.decl[k][m] = 'def'
            d = set()
            for m in range(4):
                if self.owner_ifaces(k, m):
                    if R.random() < .3: d.add(m)
                    elif not self.abs[k] and not self.has_impl(k, m, d): d.add(m)
            self.ideclared.append(d)
        self.vis = [R.choice(['', 'public ', 'protected ']) for _ in range(5)]
        self.fields = []
        for k in range(NC):
            self.fields.append({n: R.choice(["int", "long", "byte", "short", "char", "boolean", "float", "double", "String", "Object"])
                                for n in ["f%d" % i for i in range(4)] if R.random() < .6})

    def find(self, k, m):
        while k is not None:
            if m in self.decl[k]: return self.decl[k][m]
            k = self.sup[k]
        return None

    def all_ifaces(self, k):
        out = set()
        while k is not None:
            todo = list(self.impl[k])
            while todo:
                i = todo.pop()
                if i not in out:
                    out.add(i)
                    todo += self.isup[i]
            k = self.sup[k]
        return out

    def owner_ifaces(self, k, m):
        return [i for i in self.all_ifaces(k) if m in self.imeth[i]]

    def has_impl(self, k, m, mine):
        x = self.sup[k]
        while x is not None:
            if m in self.ideclared[x]: return True
            x = self.sup[x]
        return any(m in self.idef[i] for i in self.owner_ifaces(k, m))

    def concrete(self): return [k for k in range(NC) if not self.abs[k]]

    def is_sub(self, k, j):
        while k is not None:
            if k == j: return True
            k = self.sup[k]
        return False

    # ---- expressions of type long; rank bounds the calls
    def field(self, k, this):
        """an expression for a field visible from class k's methods (or of a new object)"""
        chain = []
        x = k
        while x is not None:
            for n, t in self.fields[x].items(): chain.append((x, n, t))
            x = self.sup[x]
        if not chain: return "7"
        x, n, t = R.choice(chain)
        o = this if x == k else "((%s) %s)" % (self.cname[x], this)
        e = "%s.%s" % (o, n)
        return {"boolean": "(%s ? 3 : 4)", "String": "%s.length()", "Object": "L.h(%s)", "float": "(long) %s", "double": "(long) %s"}.get(t, "%s") % e

    def term(self, k, rank, this, depth=0):
        """k: class of this or None"""
        c = R.randrange(24)
        g = self
        con = self.concrete()
        p = R.choice(["p", "(p + %d)" % R.randint(1, 9), "(p ^ %d)" % R.randint(1, 15), "-p"])
        if c < 2: return p
        if c == 2: return str(R.randint(-1000, 100000)) + R.choice(["", "L"])
        if c == 3 and k is not None: return self.field(k, this)
        if c == 4: return "%s.t(%s)" % (self.cname[R.randrange(NC)], p)
        if c == 5: return "%s.s" % self.cname[R.randrange(NC)]
        if c == 6:
            j = R.choice(con)
            return self.field(j, "new %s(%s)" % (self.cname[j], p))
        if c == 7:
            j = R.randrange(NC)
            return "(G%d.mk(%s) instanceof %s ? 5 : 6)" % (g.g, p, self.cname[j])
        if c == 8:
            i = R.randrange(3)
            return "(G%d.mk(%s) instanceof %s ? 15 : 16)" % (g.g, p, self.inames[i])
        if c == 9: return "L.name(%s)" % R.choice(["%s.class" % R.choice(self.cname), "%s[].class" % R.choice(self.cname), "%s.class" % R.choice(self.inames), "int[][].class", "long.class"])
        if c == 10: return R.choice(['"%s%d"' % ("x" * R.randrange(5), R.randrange(100)) + ".length()", '"k%d".hashCode()' % R.randrange(9)])
        if c == 11:
            return "L.sw(%s)" % p
        if c == 12:
            v = R.randint(1, 99)
            return R.choice(["L.fn((int x) -> x * %dL + p, %s)" % (v, p), "L.fn(%s::t, %s)" % (R.choice(self.cname), p),
                             "L.fn((int x) -> %s.t(x) + %d, %s)" % (R.choice(self.cname), v, p)])
        if c == 13:
            j = R.choice(con)
            return "L.len(new %s[%s & 3][2])" % (self.cname[j], p)
        if c == 14: return "E%d.values()[%s & 3].v(%s)" % (g.g, p, p)
        if c == 15:
            j = R.randrange(NC)
            return "G%d.cast%d(%s)" % (g.g, j, p)
        if c == 16: return "new %s.In(%s).w(%s)" % (R.choice([self.cname[x] for x in range(NC)]), p, p)
        # calls
        if c >= 17 and rank > 0 and depth < 2:
            m = R.randrange(5)
            if 2 * m + 2 < rank and c < 20:
                opts = []
                if k is not None and self.find(k, m): opts.append("%s.a%d(%s)" % (this, m, p))
                if k is not None and this == "this" and self.sup[k] is not None and self.find(self.sup[k], m) == 'def': opts.append("super.a%d(%s)" % (m, p))
                for j in con:
                    if self.find(j, m): opts.append("new %s(%s).a%d(%s)" % (self.cname[j], p, m, p))
                for j in range(NC):
                    if self.find(j, m) and any(self.is_sub(x, j) for x in con):
                        opts.append("G%d.as%d(%s).a%d(%s)" % (g.g, j, p, m, p))
                if opts: return R.choice(opts)
            m = R.randrange(4)
            if 2 * m + 1 < rank:
                for i in range(3):
                    if m in self.imeth[i] and any(i in self.all_ifaces(j) for j in con):
                        return "G%d.ai%d(%s).i%d(%s)" % (g.g, i, p, m, p)
        return p

    def expr(self, k, rank, this, n=3):
        e = self.term(k, rank, this)
        for _ in range(R.randint(1, n)):
            e = "(%s %s %s)" % (e, R.choice(["+", "*", "-", "^"]), self.term(k, rank, this, 1))
        return e

    def classsrc(self, k):
        n = self.cname[k]
        s = "%sclass %s%s%s {\n" % ("abstract " if self.abs[k] else "", n, " extends " + self.cname[self.sup[k]] if self.sup[k] is not None else "",
                                    " implements " + ", ".join(self.inames[i] for i in self.impl[k]) if self.impl[k] else "")
        base = [x for x in range(k)]
        s += "  static long s = %s;\n" % (("%s.s + %d" % (self.cname[R.choice(base)], R.randint(1, 99))) if base and R.random() < .5
                                            else 'Integer.parseInt("%d")' % R.randint(1, 999))
        s += "  static final int CONST = %d;\n  static final String TEXT = \"%s-%d\";\n" % (R.randint(1, 10**6), n, R.randint(1, 99))
        for f, t in self.fields[k].items(): s += "  %s %s;\n" % (t, f)
        s += "  %s(int p) {\n" % n
        if self.sup[k] is not None: s += "    super(p * %d);\n" % R.randint(1, 5)
        for f, t in self.fields[k].items():
            s += "    %s = %s;\n" % (f, {"boolean": "(p & 1) == 0", "String": '"v" + p', "Object": R.choice(["TEXT", '"o" + p', "Integer.valueOf(p)"]),
                                          "int": "p * 3", "long": "p * 5000000000L"}.get(t, "(%s) (p * 7)" % t))
        s += "  }\n"
        s += "  static long t(int p) { return p * %dL + CONST + TEXT.length(); }\n" % R.randint(2, 50)
        for m, w in sorted(self.decl[k].items()):
            if w == 'abs': s += "  %sabstract long a%d(int p);\n" % (self.vis[m], m)
            else: s += "  %s%slong a%d(int p) { return %s; }\n" % (self.vis[m], R.choice(["", "", "synchronized "]), m, self.expr(k, 2 * m + 2, "this"))
        for m in sorted(self.ideclared[k]):
            s += "  public %slong i%d(int p) { return %s; }\n" % (R.choice(["", "synchronized ", "final " if not any(self.is_sub(x, k) and x != k and m in (self.ideclared[x] if x < len(self.ideclared) else ()) for x in range(NC)) else ""]),
                                                        m, self.expr(k, 2 * m + 1, "this"))
        s += "  private long pv(int p) { return p ^ %d; }\n" % R.randint(1, 999)
        s += "  static class In {\n    final int q;\n    In(int q) { this.q = q; }\n    long w(int p) { return q * 3 + p + %s.t(q); }\n  }\n" % n
        s += "  class Inner {\n    long w(int p) { return pv(p)%s; }\n  }\n" % ("" if not self.fields[k] else " + " + self.field(k, n + ".this"))
        return s + "}\n"

    def source(self):
        g = self.g
        s = "package w;\n/* generated by tools/genlink.py */\n"
        for i in range(3):
            s += "interface %s%s {\n" % (self.inames[i], " extends " + ", ".join(self.inames[x] for x in self.isup[i]) if self.isup[i] else "")
            s += "  int K%d = Integer.parseInt(\"%d\");\n" % (i, R.randint(1, 99))
            for m in self.imeth[i]:
                if m in self.idef[i]: s += "  default long i%d(int p) { return %s; }\n" % (m, self.expr(None, 2 * m + 1, ""))
                else: s += "  long i%d(int p);\n" % m
            s += "}\n"
        for k in range(NC): s += self.classsrc(k)
        s += "enum E%d {\n  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * %d; } }, C, D;\n  long v(int p) { return ordinal() * 10 + p; }\n}\n" % (g, R.randint(2, 9))
        con = self.concrete()
        s += "class Fb%d implements L.Fn<Long>, L.Both<Long> {\n  public Long f(Long x) { return x * %d; }\n}\n" % (g, R.randint(2, 9))
        s += "public class G%d {\n" % g
        s += "  static Object mk(int p) {\n    switch (p & 7) {\n"
        for x in range(8): s += "    %s return new %s(p);\n" % ("case %d:" % x if x < 7 else "default:", self.cname[R.choice(con)]) if R.random() < .85 or x == 7 else \
            "    case %d: return %s;\n" % (x, R.choice(['"text" + p', "null", "new int[2]", "Integer.valueOf(p)"]))
        s += "    }\n  }\n"
        for j in range(NC):
            subs = [x for x in con if self.is_sub(x, j)]
            if subs:
                s += "  static %s as%d(int p) {\n" % (self.cname[j], j)
                for x in subs[:-1]: s += "    if ((p & 3) == %d) return new %s(p + 1);\n" % (R.randrange(4), self.cname[x])
                s += "    return new %s(p);\n  }\n" % self.cname[subs[-1]]
            s += "  static long cast%d(int p) {\n    try {\n      %s c = (%s) mk(p);\n      return c == null ? 70 : 71;\n    } catch (ClassCastException e) {\n      return 72;\n    }\n  }\n" % (j, self.cname[j], self.cname[j])
        for i in range(3):
            im = [x for x in con if i in self.all_ifaces(x)]
            if im:
                s += "  static %s ai%d(int p) {\n" % (self.inames[i], i)
                for x in im[:-1]: s += "    if ((p & 3) == %d) return new %s(p + 2);\n" % (R.randrange(4), self.cname[x])
                s += "    return new %s(p);\n  }\n" % self.cname[im[-1]]
        for e in range(ENTRIES):
            s += "  static long e%d(int p) {\n    long r = %d;\n" % (e, e)
            for _ in range(R.randint(3, 6)):
                c = R.randrange(12)
                if c == 0:
                    x = R.choice(con)
                    m = R.choice([q for q in range(5) if self.find(x, q)] or [None])
                    if m is not None: s += "    r = r * 31 + L.reflect(new %s(p), \"a%d\", p);\n" % (self.cname[x], m)
                elif c == 1:
                    i = R.randrange(3)
                    s += "    r = r * 31 + ((%s) L.proxy(%s.class)).i%d(p);\n" % (self.inames[i], self.inames[i], R.choice(self.imeth[i]))
                elif c == 2: s += "    r = r * 31 + new Fb%d().f((long) p) + (Long) ((L.Fn) new Fb%d()).f(5L) + ((L.Both<Long>) new Fb%d()).f(6L);\n" % (g, g, g)
                elif c == 3:
                    x = R.choice(con)
                    s += "    r = r * 31 + new %s(p).new Inner().w(p);\n" % self.cname[x]
                elif c == 4:
                    x = R.choice(con)
                    s += "    r = r * 31 + L.construct(%s.class, p);\n" % self.cname[x]
                elif c == 5:
                    i = R.randrange(3)
                    s += "    r = r * 31 + %s.K%d;\n" % (self.inames[i], i)
                elif c == 6:
                    late = R.randrange(7)
                    body = ["r += Late%d.gone(p);", "r += Late%d.here(p);", "r += Late%d.field;", "r += new Late%d().virt(p);", "r += Late%d.now;",
                            "r += new Late%d().inst;", "r += new Late%d(p).virt(p);"][late] % (g % 4)
                    s += "    try {\n      %s\n    } catch (LinkageError x) {\n      r = r * 7 + L.kind(x);\n    }\n" % body
                elif c == 7:
                    a, b, d = R.choice(con), R.randrange(NC), R.randrange(3)
                    s += "    {\n      Object[] o = new %s[2];\n      r = r * 31 + (o instanceof %s[] ? 1 : 2) + (o instanceof %s[] ? 3 : 4) + o.getClass().getName().length();\n    }\n" % (
                        self.cname[a], self.cname[b], self.inames[d])
                else: s += "    r = r * 31 + %s;\n" % self.expr(None, 12, "", 4)
            s += "    return r;\n  }\n"
        s += "  static long run(int e, int p) {\n    switch (e) {\n" + "".join("    case %d: return e%d(p);\n" % (e, e) for e in range(ENTRIES))
        s += "    default: throw new IllegalArgumentException();\n    }\n  }\n}\n"
        return s


TYPES = ["byte", "char", "short", "int", "long", "float", "double", "boolean", "String", "Object", "int[]"]
BOX = {"byte": "Byte", "char": "Character", "short": "Short", "int": "Integer", "long": "Long", "float": "Float", "double": "Double",
       "boolean": "Boolean"}


def val(t, i, p="p"):
    n = R.randint(1, 200)
    return {"byte": "(byte) (%s * %d)" % (p, n), "char": "(char) (%s * %d - 5)" % (p, n * 331), "short": "(short) (%s * %d)" % (p, n * 97),
            "int": "%s * %d" % (p, n * 99991), "long": "%s * %d00000000L" % (p, n), "float": "%s * %d.25f" % (p, n),
            "double": "%s / %d.0" % (p, n), "boolean": "(%s & %d) == 0" % (p, R.choice([1, 2, 3])),
            "String": R.choice(["null", '"a" + %s' % p, '"lit%d"' % n]), "Object": R.choice(["null", '"o" + %s' % p, "(Object) Integer.valueOf(%s)" % p]),
            "int[]": R.choice(["null", "new int[] {%s, %d}" % (p, n)])}[t]


def ret(t):
    return {"void": "acc = r;", "byte": "return (byte) r;", "char": "return (char) r;", "short": "return (short) r;", "int": "return (int) (r ^ r >>> 32);",
            "long": "return r;", "float": "return (float) (r & 0xfffff) / 8;", "double": "return (double) (r & 0xfffffffffL) / 16;",
            "boolean": "return (r & 4) == 0;", "String": 'return (r & 7) == 0 ? null : "r" + (r & 0xfff);',
            "Object": "return (r & 7) == 0 ? null : (Object) Long.valueOf(r);", "int[]": "return new int[] {(int) r, 4};"}[t]


class Sigs:
    """classes whose methods, constructors and fields have all kinds of types, used directly and in every indirect way"""
    def __init__(self, g):
        self.g = g
        self.sigs = []
        for _ in range(5):
            n = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12])
            self.sigs.append(([R.choice(TYPES) for _ in range(n)], R.choice(TYPES + ["void", "long", "int"])))
        self.caps = [[R.choice(TYPES) for _ in range(R.randint(1, 4))] for _ in range(5)]

    def params(self, k): return ", ".join("%s a%d" % (t, i) for i, t in enumerate(self.sigs[k][0]))
    def args(self, k, p="p"): return ", ".join(val(t, i, p) for i, t in enumerate(self.sigs[k][0]))
    def hash(self, k): return "long r = %d;%s" % (R.randint(1, 99), "".join("\n    r = r * 31 + L.v(a%d);" % i for i in range(len(self.sigs[k][0]))))
    def use(self, k, call, x="r"):
        """statement that adds the result of a call"""
        if self.sigs[k][1] == "void": return "%s; r = r * 31 + acc;" % call
        return "r = r * 31 + L.v(%s);" % call

    def source(self):
        g = self.g
        s = "package w;\n/* generated by tools/genlink.py */\n"
        s += "interface J%d {\n" % g + "".join("  %s m%d(%s);\n" % (r, k, self.params(k)) for k, (a, r) in enumerate(self.sigs)) + \
             "  default long d(int p) { return p + %d; }\n}\n" % R.randint(1, 99)
        for k, (a, r) in enumerate(self.sigs): s += "interface F%d_%d { %s f(%s); }\n" % (g, k, r, self.params(k))
        for k, (a, r) in enumerate(self.sigs): s += "interface N%d_%d { D%d f(%s); }\n" % (g, k, g, self.params(k))
        s += "abstract class D%d {\n  long base;\n" % g
        for k, (a, r) in enumerate(self.sigs):
            if R.random() < .5: s += "  %s m%d(%s) throws RuntimeException { long r = 5; long acc; %s }\n" % ("public " + r, k, self.params(k), ret(r))
            else: s += "  public abstract %s m%d(%s);\n" % (r, k, self.params(k))
        s += "}\n"
        # one class for each constructor signature, and one with the fields and methods
        for k in range(len(self.sigs)):
            s += "class S%d_%d extends D%d implements J%d {\n" % (g, k, g, g)
            fs = R.sample(TYPES, 5)
            for i, t in enumerate(fs): s += "  %s%s f%d = %s;\n" % (R.choice(["", "volatile ", "public "]), t, i, val(t, i, "3"))
            for i, t in enumerate(fs[:3]): s += "  static %s%s s%d = %s;\n" % (R.choice(["", "volatile "]), t, i, val(t, i, "3"))
            s += "  static long acc;\n"
            s += "  S%d_%d(%s) {\n    %s\n    base = r;\n%s  }\n" % (g, k, self.params(k), self.hash(k), "    if ((r & 31) == 3) throw new L.Odd(r);\n" if R.random() < .5 else "")
            for j, (a, r) in enumerate(self.sigs):
                odd = "    if ((r & 15) == 5) throw new L.Odd(r);\n" if R.random() < .3 else ""
                s += "  %spublic %s m%d(%s) {\n    %s\n    r += base;\n%s    %s\n  }\n" % (R.choice(["", "", "synchronized "]), r, j, self.params(j), self.hash(j), odd, ret(r).replace("acc", "G%d.acc" % g))
                s += "  static %s%s t%d(%s) {\n    %s\n%s    %s\n  }\n" % (R.choice(["", "synchronized ", "private "]) if j != k else "", r, j, self.params(j), self.hash(j), odd, ret(r).replace("acc", "G%d.acc" % g))
            s += "  static long fields(int p) {\n    S%d_%d o = new S%d_%d(%s);\n    long r = 1;\n" % (g, k, g, k, self.args(k))
            for _ in range(6):
                i = R.randrange(5)
                c = R.randrange(3)
                st = i < 3 and R.random() < .4
                n, o = ("s%d" % i, "null") if st else ("f%d" % i, "o")
                if st: continue  # statics are shared between the threads
                if c == 0: s += "    o.f%d = %s;\n    r = r * 31 + L.v(o.f%d);\n" % (i, val(fs[i], i), i)
                elif c == 1: s += "    r = r * 31 + L.set(o, \"%s\", %s);\n" % (n, ("new Object[] {%s}[0]" if fs[i] in BOX else "%s") % val(fs[i], i))
                else: s += "    r = r * 31 + L.get(o, \"%s\");\n" % n
                if fs[i] in ("int", "long", "byte", "short", "char", "float", "double"): s += "    o.f%d += %s;\n    r += L.v(o.f%d++);\n" % (i, R.choice(["p", "3"]), i)
            for i in range(3): s += "    r = r * 31 + L.v(s%d) + L.get(S%d_%d.class, \"s%d\");\n" % (i, g, k, i)
            s += "    return r;\n  }\n"
            s += "}\n"
        s += "public class G%d {\n  static final ThreadLocal<long[]> box = null;\n  static volatile long acc;\n" % g
        for k, (a, r) in enumerate(self.sigs):
            v = ", ".join("a%d" % i for i in range(len(a)))
            mk = "new S%d_%d(%s)" % (g, k, self.args(k, "q"))
        def obj(p="p"):
            j = R.randrange(len(self.sigs))
            return "new S%d_%d(%s)" % (g, j, self.args(j, p)), "S%d_%d" % (g, j)
        for e in range(ENTRIES):
            s += "  static long e%d(int p) {\n    long r = %d;\n" % (e, e)
            for _ in range(R.randint(3, 6)):
                k = R.randrange(len(self.sigs))
                a, rt = self.sigs[k]
                while rt == "void" and R.random() < .7:
                    k = R.randrange(len(self.sigs))
                    a, rt = self.sigs[k]
                c = R.randrange(16)
                o, cn = obj()
                body = None
                void = rt == "void"
                def use(call): return call + ";" if void else "r = r * 31 + L.v(%s);" % call
                if c == 0: body = use("S%d_%d.t%d(%s)" % (g, k, k, self.args(k)))
                elif c == 1: body = use("%s.m%d(%s)" % (o, k, self.args(k)))
                elif c == 2: body = use("((D%d) %s).m%d(%s)" % (g, o, k, self.args(k)))
                elif c == 3: body = use("((J%d) %s).m%d(%s)" % (g, o, k, self.args(k)))
                elif c in (4, 5): body = "r = r * 31 + L.call(%s, \"%s%d\"%s);" % ((o, "m", k, "".join(", (Object) (%s)" % x for x in [val(t, 0) for t in a])) if c == 4 else
                    (("S%d_%d.class" % (g, k)), "t", k, "".join(", (Object) (%s)" % x for x in [val(t, 0) for t in a])))
                elif c == 6: body = use("((J%d) L.full(J%d.class)).m%d(%s)" % (g, g, k, self.args(k)))
                elif c == 7: body = "F%d_%d f = S%d_%d::t%d;\n      " % (g, k, g, k, k) + use("f.f(%s)" % self.args(k))
                elif c == 8: body = "F%d_%d f = %s::m%d;\n      " % (g, k, o, k) + use("f.f(%s)" % self.args(k))
                elif c == 9: body = "N%d_%d f = S%d_%d::new;\n      r = r * 31 + f.f(%s).base;" % (g, k, g, k, self.args(k))
                elif c == 10:
                    caps = self.caps[k]
                    body = "".join("final %s c%d = %s;\n      " % (t, i, val(t, i)) for i, t in enumerate(caps))
                    pn = ", ".join("x%d" % i for i in range(len(a)))
                    sum_ = "".join(" + L.v(c%d)" % i for i in range(len(caps))) + "".join(" - L.v(x%d)" % i for i in range(len(a)))
                    body += "F%d_%d f = (%s) -> { long r0 = p%s; long r1 = r0; %s };\n      " % (g, k, pn, sum_, re.sub(r"\br\b", "r1", ret(rt)).replace("acc", "G%d.acc" % g))
                    body += use("f.f(%s)" % self.args(k))
                elif c == 11: body = "r = r * 31 + L.make(S%d_%d.class%s);" % (g, k, "".join(", (Object) (%s)" % x for x in [val(t, 0) for t in a]))
                elif c == 12: body = "r = r * 31 + S%d_%d.fields(p);" % (g, k)
                elif c >= 14:
                    n = R.randint(1, 50)
                    body = R.choice(["L.Gn<Integer, Long> f = L::il;\n      r = r * 31 + f.f(p + N);", "L.ToL<String> f = String::length;\n      r = r * 31 + f.f(\"x\" + p);",
                        "L.ToL<Integer> f = L::wide;\n      r = r * 31 + f.f(p * N);", "L.ToL<Byte> f = L::wide;\n      r = r * 31 + f.f((byte) (p * N));",
                        "L.Gn<String, Integer> f = Integer::parseInt;\n      r = r * 31 + f.f(\"\" + p * N);", "L.Gn<Integer, int[]> f = int[]::new;\n      r = r * 31 + f.f(p & 7).length;",
                        "L.Gn<int[], int[]> f = int[]::clone;\n      r = r * 31 + L.v(f.f(new int[] {p, N}));", "L.Gn<String, Integer> f = (\"b\" + p)::compareTo;\n      r = r * 31 + f.f(\"aN\");",
                        "L.Gn2<String, String, Integer> f = String::indexOf;\n      r = r * 31 + f.f(\"xy\" + p, \"\" + p);", "L.ToD<Float> f = L::dbl;\n      r = r * 31 + L.v(f.f(p / 3f));",
                        "L.ToD<Character> f = L::dbl;\n      r = r * 31 + L.v(f.f((char) (p + 70)));", "L.ToD<Long> f = Long::longValue;\n      r = r * 31 + L.v(f.f(p * 3L));",
                        "L.Gn<Long, Number> f = x -> x * N;\n      r = r * 31 + f.f((long) p).longValue();", "L.Gn<Integer, Object> f = L::cube;\n      r = r * 31 + L.v(f.f(p));",
                        "L.Gn<String, StringBuilder> f = StringBuilder::new;\n      r = r * 31 + f.f(\"s\" + p).length();", "L.Gn<Boolean, Boolean> f = L::not;\n      r = r * 31 + L.v(f.f(p > N));",
                        "L.Gn<L.Gn<Integer, Long>, Long> f = x -> x.f(p);\n      r = r * 31 + f.f(y -> y * (long) p);", "java.util.Comparator<String> f = String::compareTo;\n      r = r * 31 + f.compare(\"a\" + p, \"aN\");",
                        "Runnable f = (Runnable & java.io.Serializable) () -> L.il(p);\n      f.run();\n      r = r * 31 + (f instanceof java.io.Serializable ? 1 : 2);",
                        "L.Gn<Object, String> f = Object::toString;\n      r = r * 31 + f.f(p + N).hashCode();", "L.Gn<java.util.List<Integer>, Integer> f = x -> x.get(0);\n      r = r * 31 + f.f(java.util.Collections.singletonList(p));",
                        "L.IntL f = L::bump;\n      r = r * 31 + f.f(p);", "L.Gn<Integer, L.Gn<Integer, Integer>> f = x -> y -> x - y * N;\n      r = r * 31 + f.f(p).f(p + 3);",
                        "java.util.List<Integer> l = new java.util.ArrayList<Integer>();\n      l.add(p);\n      L.ToL<Integer> f = l::get;\n      r = r * 31 + f.f(0);",
                        "L.ToL<Short> f = x -> x;\n      r = r * 31 + f.f((short) (p * -N));", "L.Gn<Object, Long> f = x -> { switch (x.hashCode() & 1) { case 0: return 5L; default: return (long) N; } };\n      r = r * 31 + f.f(\"q\" + p);"]).replace("N", str(n)).replace("%dumber" % n, "Number")
                else: body = "r = r * 31 + ((J%d) %s).d(p);" % (g, o)
                s += "    try {\n      %s\n    } catch (L.Odd x) {\n      r = r * 7 + x.v;\n    }%s\n" % (body, R.choice(["", " finally {\n      r += 3;\n    }"]))
            s += "    return r;\n  }\n"
        s += "  static long run(int e, int p) {\n    switch (e) {\n" + "".join("    case %d: return e%d(p);\n" % (e, e) for e in range(ENTRIES))
        s += "    default: throw new IllegalArgumentException();\n    }\n  }\n}\n"
        return s


L = '''package w;
/* generated by tools/genlink.py */
import java.lang.reflect.*;

public class L {
  interface Fn<T> { T f(T x); }
  interface Both<T extends Number> { T f(T x); }
  interface F1 { long f(int x); }
  interface Gn<A, B> { B f(A a); }
  interface Gn2<A, B, C> { C f(A a, B b); }
  interface ToL<A> { long f(A a); }
  interface ToD<A> { double f(A a); }
  interface IntL { long f(int x); }
  static long il(int x) { return x * 5000000007L; }
  static long wide(long x) { return x * 3; }
  static double dbl(double x) { return x / 7; }
  static int cube(int x) { return x * x * x; }
  static boolean not(boolean x) { return ! x; }
  static int bump(Integer... x) { return x.length * 100 + x[0]; }
  static long fn(F1 f, int p) { return f.f(p) ^ f.f(p + 1); }
  static long h(Object o) { return o.hashCode(); }
  static long name(Class c) { return c.getName().hashCode(); }
  static long len(Object[][] a) { return a.length * 10 + (a.length > 0 ? a[0].length : 9); }
  static long sw(int p) {
    switch (p) {
    case 0: return 3;
    case 1: return 4;
    case 2: return 50;
    case 4: return 7;
    case 1000: return 1;
    case -5: return 2;
    default: return p * 2;
    }
  }
  static long reflect(Object o, String m, int p) {
    try {
      Class c = o.getClass();
      while (true) {
        try {
          Method x = c.getDeclaredMethod(m, int.class);
          x.setAccessible(true);
          return (Long) x.invoke(o, p);
        } catch (NoSuchMethodException e) {
          c = c.getSuperclass();
        }
      }
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }
  static long construct(Class c, int p) {
    try {
      Constructor k = c.getDeclaredConstructor(int.class);
      k.setAccessible(true);
      return k.newInstance(p).getClass() == c ? 1 : 2;
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }
  static Object proxy(Class c) {
    return Proxy.newProxyInstance(L.class.getClassLoader(), new Class[] {c}, new InvocationHandler() {
      public Object invoke(Object proxy, Method m, Object[] a) {
        return (long) (m.getName().hashCode() + (Integer) a[0]);
      }
    });
  }
  static class Odd extends RuntimeException {
    final long v;
    Odd(long v) { this.v = v; }
  }
  static long v(byte x) { return x; }
  static long v(char x) { return x + 1; }
  static long v(short x) { return x + 2; }
  static long v(int x) { return x + 3; }
  static long v(long x) { return x + 4; }
  static long v(float x) { return Float.floatToIntBits(x); }
  static long v(double x) { return Double.doubleToLongBits(x); }
  static long v(boolean x) { return x ? 11 : 12; }
  static long v(String x) { return x == null ? 13 : x.hashCode(); }
  static long v(int[] x) { return x == null ? 15 : x.length * 100 + x[0]; }
  static long v(Object x) {
    if (x == null) return 16;
    if (x instanceof int[]) return v((int[]) x);
    // (hash codes of these differ between class libraries)
    if (x instanceof Boolean) return (Boolean) x ? 17 : 18;
    if (x instanceof Long) return (Long) x + 19;
    if (x instanceof Double) return Double.doubleToLongBits((Double) x) + 20;
    return x.hashCode() + x.getClass().getName().hashCode();
  }
  /** by reflection: a method of an object, or a static one of a class */
  static long call(Object o, String name, Object... a) {
    Class c = o instanceof Class ? (Class) o : o.getClass();
    for (Method m : c.getDeclaredMethods()) {
      if (! m.getName().equals(name) || m.isSynthetic()) continue;
      try {
        m.setAccessible(true);
        Object r = m.invoke(o instanceof Class ? null : o, a);
        return (r == null ? 16 : v(r)) + m.getParameterTypes().length;
      } catch (InvocationTargetException e) {
        if (e.getCause() instanceof Odd) throw (Odd) e.getCause();
        throw new RuntimeException(e);
      } catch (IllegalAccessException e) {
        throw new RuntimeException(e);
      }
    }
    throw new RuntimeException(name);
  }
  static long make(Class c, Object... a) {
    try {
      Constructor k = c.getDeclaredConstructors()[0];
      k.setAccessible(true);
      Object o = k.newInstance(a);
      Field f = c.getSuperclass().getDeclaredField("base");
      f.setAccessible(true);
      return f.getLong(o);
    } catch (InvocationTargetException e) {
      if (e.getCause() instanceof Odd) throw (Odd) e.getCause();
      throw new RuntimeException(e);
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }
  static long get(Object o, String name) {
    try {
      Field f = (o instanceof Class ? (Class) o : o.getClass()).getDeclaredField(name);
      f.setAccessible(true);
      return v(f.get(o instanceof Class ? null : o)) + f.getType().getName().hashCode();
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }
  static long set(Object o, String name, Object v) {
    try {
      Field f = o.getClass().getDeclaredField(name);
      f.setAccessible(true);
      f.set(o, v);
      return v(f.get(o)) + (f.getModifiers() & Modifier.VOLATILE);
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }
  static Object full(Class c) {
    return Proxy.newProxyInstance(L.class.getClassLoader(), new Class[] {c}, new InvocationHandler() {
      public Object invoke(Object proxy, Method m, Object[] a) {
        long r = m.getName().hashCode();
        if (a != null) for (Object x : a) r = r * 31 + v(x);
        if ((r & 15) == 5) throw new Odd(r);
        Class t = m.getReturnType();
        return t == void.class ? null : t == byte.class ? (Object) (byte) r : t == char.class ? (Object) (char) r : t == short.class ? (Object) (short) r
          : t == int.class ? (Object) (int) r : t == long.class ? (Object) r : t == float.class ? (Object) (float) r : t == double.class ? (Object) (double) r
          : t == boolean.class ? (Object) (r > 0) : t == String.class ? "p" + r : t == int[].class ? new int[] {(int) r} : (Object) r;
      }
    });
  }
  static long kind(LinkageError e) {
    return e instanceof NoSuchMethodError ? 11 : e instanceof NoSuchFieldError ? 13 : e instanceof IncompatibleClassChangeError ? 17
      : e instanceof NoClassDefFoundError ? 19 : 23;
  }
%s
}
'''
EARLY = '''package w;
class Late%d {
  static long gone(int p) { return p; }
  static long here(int p) { return p * 2; }
  static long field = 5;
  static int now = 7;
  int inst = 3;
  Late%d() { }
  Late%d(int x) { }
  long virt(int p) { return p + 1; }
}
'''
LATES = ['''  static long here(int p) { return p * 2; }
  static int now = 7;
  int inst = 3;
  Late0() { }
  long virt(int p) { return p + 100; }
''', '''  static long here(int p) { return p * 3; }
  static long field = 5;
  static int now = 8;
  Late1() { }
  Late1(int x) { }
''', '''  static long gone(int p) { return p; }
  static long now = 7;
  int inst = 4;
  Late2() { }
  Late2(long x) { }
  long virt(long p) { return p + 1; }
''', '''  static long here(long p) { return p * 2; }
  static long field = 6;
  int inst = 3;
  Late3() { }
  Late3(int x) { }
  long virt(int p) { return p - 1; }
''']

if __name__ == "__main__":
    for f in os.listdir(ROOT + "/w"):
        if f.startswith("G") and f[1:-5].isdigit() or f == "L.java" or f.startswith("Late"): os.remove(ROOT + "/w/" + f)
    os.makedirs(ROOT + "/late", exist_ok=True)
    for g in range(GROUPS): open(ROOT + "/w/G%d.java" % g, "w").write(Group(g).source())
    for g in range(GROUPS, GROUPS + SIGS): open(ROOT + "/w/G%d.java" % g, "w").write(Sigs(g).source())
    GROUPS += SIGS
    run = "  static final int GROUPS = %d, ENTRIES = %d;\n  static long run(int g, int e, int p) {\n    switch (g) {\n" % (GROUPS, ENTRIES)
    run += "".join("    case %d: return G%d.run(e, p);\n" % (g, g) for g in range(GROUPS))
    run += "    default: throw new IllegalArgumentException();\n    }\n  }\n"
    run += '''  public static void main(String[] a) {
    for (int g = 0; g < GROUPS; ++g)
      for (int e = 0; e < ENTRIES; ++e)
        for (int p = 0; p < Integer.parseInt(a[0]); ++p) System.out.println(g + " " + e + " " + p + " " + out(g, e, p));
  }
  static Object out(int g, int e, int p) {
    try {
      return run(g, e, p);
    } catch (Throwable x) {
      x.printStackTrace();
      return x;
    }
  }
'''
    open(ROOT + "/w/L.java", "w").write(L % run)
    for k in range(4):
        open(ROOT + "/w/Late%d.java" % k, "w").write(EARLY % (k, k, k))
        open(ROOT + "/late/Late%d.java" % k, "w").write("package w;\nclass Late%d {\n%s}\n" % (k, LATES[k]))

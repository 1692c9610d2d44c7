package w;
/* generated by tools/genlink.py */
interface I4_0 {
  int K0 = Integer.parseInt("59");
  long i0(int p);
  long i1(int p);
}
interface I4_1 extends I4_0 {
  int K1 = Integer.parseInt("41");
  long i2(int p);
}
interface I4_2 extends I4_1 {
  int K2 = Integer.parseInt("9");
  long i3(int p);
}
abstract class C4_0 implements I4_0, I4_1, I4_2 {
  static long s = Integer.parseInt("463");
  static final int CONST = 693278;
  static final String TEXT = "C4_0-89";
  double f2;
  C4_0(int p) {
    f2 = (double) (p * 7);
  }
  static long t(int p) { return p * 11L + CONST + TEXT.length(); }
  abstract long a1(int p);
  protected long a3(int p) { return ((L.len(new C4_1[-p & 3][2]) - (new C4_4((p + 3)).f3 ? 3 : 4)) ^ G4.as3(p).a1(p)); }
  public long i0(int p) { return ((((p ^ 10) * (p ^ 12)) + (p + 3)) * L.name(I4_2.class)); }
  public synchronized long i1(int p) { return (("xxxx76".length() + (p ^ 4)) ^ L.len(new C4_5[-p & 3][2])); }
  private long pv(int p) { return p ^ 558; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C4_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C4_0.this.f2; }
  }
}
class C4_1 extends C4_0 implements I4_1 {
  static long s = Integer.parseInt("473");
  static final int CONST = 967938;
  static final String TEXT = "C4_1-19";
  int f1;
  short f2;
  long f3;
  C4_1(int p) {
    super(p * 5);
    f1 = p * 3;
    f2 = (short) (p * 7);
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 20L + CONST + TEXT.length(); }
  protected long a0(int p) { return ((C4_2.t((p + 2)) + new C4_0.In(-p).w(-p)) + C4_0.s); }
  long a1(int p) { return (((p + 6) - G4.ai0((p + 3)).i1((p + 3))) * L.fn(C4_3::t, (p ^ 7))); }
  protected synchronized long a2(int p) { return ((((G4.mk((p + 5)) instanceof C4_5 ? 5 : 6) - G4.ai0((p + 4)).i1((p + 4))) - L.fn((int x) -> C4_0.t(x) + 79, p)) * new C4_1((p ^ 3)).f2); }
  protected synchronized long a4(int p) { return (((L.fn(C4_0::t, -p) ^ G4.as1((p ^ 15)).a3((p ^ 15))) + L.fn(C4_3::t, -p)) - (G4.mk((p + 7)) instanceof I4_1 ? 15 : 16)); }
  public long i2(int p) { return (p + L.name(I4_0.class)); }
  public long i3(int p) { return ((C4_0.s - L.fn(C4_3::t, p)) ^ (G4.mk(p) instanceof C4_4 ? 5 : 6)); }
  private long pv(int p) { return p ^ 320; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C4_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C4_0) C4_1.this).f2; }
  }
}
abstract class C4_2 extends C4_1 {
  static long s = Integer.parseInt("610");
  static final int CONST = 361325;
  static final String TEXT = "C4_2-67";
  Object f1;
  short f3;
  C4_2(int p) {
    super(p * 1);
    f1 = "o" + p;
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 3L + CONST + TEXT.length(); }
  public final long i1(int p) { return (((G4.cast0((p + 2)) - C4_1.s) + G4.ai0((p ^ 4)).i0((p ^ 4))) + L.name(long.class)); }
  private long pv(int p) { return p ^ 667; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C4_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C4_0) C4_2.this).f2; }
  }
}
class C4_3 extends C4_2 implements I4_2 {
  static long s = Integer.parseInt("315");
  static final int CONST = 493728;
  static final String TEXT = "C4_3-71";
  int f0;
  String f2;
  char f3;
  C4_3(int p) {
    super(p * 2);
    f0 = p * 3;
    f2 = "v" + p;
    f3 = (char) (p * 7);
  }
  static long t(int p) { return p * 13L + CONST + TEXT.length(); }
  protected long a2(int p) { return ((((p ^ 5) * L.len(new C4_1[(p + 5) & 3][2])) ^ -p) + (G4.mk((p + 9)) instanceof I4_0 ? 15 : 16)); }
  protected long a3(int p) { return ((p ^ 8) - G4.cast5((p + 6))); }
  public long i2(int p) { return (((C4_3.s + new C4_2.In((p + 5)).w((p + 5))) * (G4.mk(-p) instanceof I4_2 ? 15 : 16)) - L.len(new C4_5[(p + 5) & 3][2])); }
  public final long i3(int p) { return (64579 * G4.as5(p).a1(p)); }
  private long pv(int p) { return p ^ 749; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C4_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C4_1) C4_3.this).f2; }
  }
}
class C4_4 extends C4_0 implements I4_1, I4_2 {
  static long s = C4_2.s + 40;
  static final int CONST = 651667;
  static final String TEXT = "C4_4-61";
  String f0;
  double f1;
  float f2;
  boolean f3;
  C4_4(int p) {
    super(p * 4);
    f0 = "v" + p;
    f1 = (double) (p * 7);
    f2 = (float) (p * 7);
    f3 = (p & 1) == 0;
  }
  static long t(int p) { return p * 2L + CONST + TEXT.length(); }
  protected synchronized long a0(int p) { return (((L.sw((p + 4)) - C4_2.s) * p) ^ "k6".hashCode()); }
  long a1(int p) { return ((G4.mk((p + 5)) instanceof C4_4 ? 5 : 6) ^ G4.ai0((p ^ 6)).i1((p ^ 6))); }
  protected synchronized long a4(int p) { return (((G4.ai0(-p).i1(-p) + C4_4.s) ^ C4_3.t((p ^ 4))) + L.name(C4_0[].class)); }
  public long i1(int p) { return (p * (p + 5)); }
  public long i2(int p) { return (new C4_1.In(-p).w(-p) ^ "17".length()); }
  public long i3(int p) { return ((long) this.f1 * C4_3.t(-p)); }
  private long pv(int p) { return p ^ 758; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C4_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C4_4.this.f1; }
  }
}
class C4_5 extends C4_0 {
  static long s = Integer.parseInt("402");
  static final int CONST = 847300;
  static final String TEXT = "C4_5-21";
  double f0;
  boolean f1;
  long f2;
  C4_5(int p) {
    super(p * 4);
    f0 = (double) (p * 7);
    f1 = (p & 1) == 0;
    f2 = p * 5000000000L;
  }
  static long t(int p) { return p * 44L + CONST + TEXT.length(); }
  long a1(int p) { return (L.name(C4_1[].class) - 99053L); }
  protected synchronized long a2(int p) { return ((72025 * L.sw(-p)) * L.name(C4_5.class)); }
  protected synchronized long a3(int p) { return ((new C4_0.In(-p).w(-p) * E4.values()[(p ^ 14) & 3].v((p ^ 14))) * E4.values()[p & 3].v(p)); }
  protected long a4(int p) { return ((G4.mk(-p) instanceof C4_0 ? 5 : 6) + this.f2); }
  public final long i2(int p) { return ((p + 3) ^ "14".length()); }
  public final long i3(int p) { return (((L.fn((int x) -> x * 37L + p, (p ^ 10)) ^ (G4.mk((p + 8)) instanceof I4_2 ? 15 : 16)) + (G4.mk((p + 8)) instanceof C4_4 ? 5 : 6)) + C4_0.t(-p)); }
  private long pv(int p) { return p ^ 684; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C4_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C4_5.this.f0; }
  }
}
enum E4 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 3; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb4 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 5; }
}
public class G4 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return Integer.valueOf(p);
    case 1: return Integer.valueOf(p);
    case 2: return new C4_1(p);
    case 3: return new int[2];
    case 4: return new C4_5(p);
    case 5: return new C4_3(p);
    case 6: return new C4_3(p);
    default: return new C4_1(p);
    }
  }
  static C4_0 as0(int p) {
    if ((p & 3) == 0) return new C4_1(p + 1);
    if ((p & 3) == 1) return new C4_3(p + 1);
    if ((p & 3) == 3) return new C4_4(p + 1);
    return new C4_5(p);
  }
  static long cast0(int p) {
    try {
      C4_0 c = (C4_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C4_1 as1(int p) {
    if ((p & 3) == 3) return new C4_1(p + 1);
    return new C4_3(p);
  }
  static long cast1(int p) {
    try {
      C4_1 c = (C4_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C4_2 as2(int p) {
    return new C4_3(p);
  }
  static long cast2(int p) {
    try {
      C4_2 c = (C4_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C4_3 as3(int p) {
    return new C4_3(p);
  }
  static long cast3(int p) {
    try {
      C4_3 c = (C4_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C4_4 as4(int p) {
    return new C4_4(p);
  }
  static long cast4(int p) {
    try {
      C4_4 c = (C4_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C4_5 as5(int p) {
    return new C4_5(p);
  }
  static long cast5(int p) {
    try {
      C4_5 c = (C4_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I4_0 ai0(int p) {
    if ((p & 3) == 0) return new C4_1(p + 2);
    if ((p & 3) == 2) return new C4_3(p + 2);
    if ((p & 3) == 0) return new C4_4(p + 2);
    return new C4_5(p);
  }
  static I4_1 ai1(int p) {
    if ((p & 3) == 1) return new C4_1(p + 2);
    if ((p & 3) == 2) return new C4_3(p + 2);
    if ((p & 3) == 3) return new C4_4(p + 2);
    return new C4_5(p);
  }
  static I4_2 ai2(int p) {
    if ((p & 3) == 2) return new C4_1(p + 2);
    if ((p & 3) == 3) return new C4_3(p + 2);
    if ((p & 3) == 0) return new C4_4(p + 2);
    return new C4_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + L.construct(C4_4.class, p);
    r = r * 31 + ((G4.mk(-p) instanceof C4_2 ? 5 : 6) ^ "xxx12".length());
    r = r * 31 + L.reflect(new C4_1(p), "a2", p);
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + L.construct(C4_4.class, p);
    r = r * 31 + ((((L.sw(p) * G4.cast1(-p)) + G4.cast4((p + 2))) * L.name(C4_1.class)) ^ (long) new C4_4((p + 2)).f2);
    r = r * 31 + new Fb4().f((long) p) + (Long) ((L.Fn) new Fb4()).f(5L) + ((L.Both<Long>) new Fb4()).f(6L);
    try {
      r += Late0.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + ((12779L ^ G4.ai0((p + 9)).i1((p + 9))) ^ 1316);
    r = r * 31 + (L.sw(-p) * G4.ai1(-p).i2(-p));
    r = r * 31 + L.construct(C4_4.class, p);
    r = r * 31 + L.construct(C4_1.class, p);
    try {
      r += new Late0().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    {
      Object[] o = new C4_3[2];
      r = r * 31 + (o instanceof C4_1[] ? 1 : 2) + (o instanceof I4_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((((E4.values()[(p ^ 15) & 3].v((p ^ 15)) ^ L.name(int[][].class)) - G4.as2(p).a0(p)) ^ E4.values()[-p & 3].v(-p)) + L.len(new C4_3[(p + 6) & 3][2]));
    r = r * 31 + new Fb4().f((long) p) + (Long) ((L.Fn) new Fb4()).f(5L) + ((L.Both<Long>) new Fb4()).f(6L);
    try {
      r += new Late0(p).virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new C4_1(p).new Inner().w(p);
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + L.construct(C4_1.class, p);
    r = r * 31 + L.reflect(new C4_4(p), "a4", p);
    r = r * 31 + I4_0.K0;
    r = r * 31 + new Fb4().f((long) p) + (Long) ((L.Fn) new Fb4()).f(5L) + ((L.Both<Long>) new Fb4()).f(6L);
    {
      Object[] o = new C4_1[2];
      r = r * 31 + (o instanceof C4_5[] ? 1 : 2) + (o instanceof I4_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + (G4.as4((p ^ 3)).a3((p ^ 3)) ^ (p ^ 10));
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + (((84115L - C4_4.t(p)) * L.sw(-p)) + G4.cast0((p ^ 15)));
    r = r * 31 + ((((G4.as5(-p).a1(-p) * G4.as3(p).a0(p)) + (p ^ 6)) ^ L.fn((int x) -> C4_1.t(x) + 18, (p + 7))) * C4_4.s);
    r = r * 31 + L.construct(C4_3.class, p);
    r = r * 31 + ((I4_2) L.proxy(I4_2.class)).i3(p);
    r = r * 31 + ((new C4_5.In(-p).w(-p) * -p) - new C4_1.In(-p).w(-p));
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + new Fb4().f((long) p) + (Long) ((L.Fn) new Fb4()).f(5L) + ((L.Both<Long>) new Fb4()).f(6L);
    r = r * 31 + ((G4.as5(-p).a3(-p) * (new C4_4(-p).f3 ? 3 : 4)) - "k1".hashCode());
    r = r * 31 + ((((C4_2.s + p) - L.sw((p ^ 15))) - L.name(C4_4.class)) * L.len(new C4_1[p & 3][2]));
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((84494 + (p ^ 4)) ^ L.fn(C4_0::t, (p ^ 6)));
    r = r * 31 + (((("xx54".length() - p) ^ G4.ai0((p ^ 9)).i1((p ^ 9))) - 82751L) * -p);
    r = r * 31 + new Fb4().f((long) p) + (Long) ((L.Fn) new Fb4()).f(5L) + ((L.Both<Long>) new Fb4()).f(6L);
    try {
      r += new Late0().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((((G4.mk((p + 3)) instanceof C4_2 ? 5 : 6) ^ G4.ai0(-p).i1(-p)) + (p + 5)) + 11233);
    r = r * 31 + L.reflect(new C4_1(p), "a3", p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

package w;
/* generated by tools/genlink.py */
interface I21_0 {
  int K0 = Integer.parseInt("55");
  default long i0(int p) { return ((E21.values()[(p ^ 5) & 3].v((p ^ 5)) + L.sw(-p)) * C21_1.s); }
  long i1(int p);
}
interface I21_1 {
  int K1 = Integer.parseInt("51");
  long i2(int p);
}
interface I21_2 extends I21_0 {
  int K2 = Integer.parseInt("10");
  default long i3(int p) { return (C21_1.s ^ G21.ai1(p).i2(p)); }
}
class C21_0 implements I21_0 {
  static long s = Integer.parseInt("105");
  static final int CONST = 702266;
  static final String TEXT = "C21_0-15";
  float f0;
  int f3;
  C21_0(int p) {
    f0 = (float) (p * 7);
    f3 = p * 3;
  }
  static long t(int p) { return p * 37L + CONST + TEXT.length(); }
  long a0(int p) { return ((82451L - (long) this.f0) + new C21_4.In((p + 3)).w((p + 3))); }
  protected long a2(int p) { return (((G21.ai0(-p).i0(-p) + new C21_1(p).a1(p)) - (G21.mk((p ^ 6)) instanceof I21_2 ? 15 : 16)) + C21_2.s); }
  public long i1(int p) { return (G21.cast2(-p) + (p + 7)); }
  private long pv(int p) { return p ^ 40; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C21_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C21_0.this.f0; }
  }
}
class C21_1 extends C21_0 implements I21_0 {
  static long s = C21_0.s + 71;
  static final int CONST = 220148;
  static final String TEXT = "C21_1-64";
  float f1;
  char f3;
  C21_1(int p) {
    super(p * 2);
    f1 = (float) (p * 7);
    f3 = (char) (p * 7);
  }
  static long t(int p) { return p * 39L + CONST + TEXT.length(); }
  long a0(int p) { return ((-p - 15561) ^ G21.ai0(p).i0(p)); }
  protected long a1(int p) { return ((G21.ai0((p ^ 12)).i0((p ^ 12)) * 86355L) * G21.ai0((p ^ 1)).i1((p ^ 1))); }
  protected synchronized long a4(int p) { return (((L.fn((int x) -> C21_4.t(x) + 19, (p + 3)) + L.sw((p ^ 10))) * G21.ai2(-p).i3(-p)) - G21.ai0(-p).i1(-p)); }
  private long pv(int p) { return p ^ 721; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C21_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C21_0) C21_1.this).f0; }
  }
}
class C21_2 extends C21_1 implements I21_2 {
  static long s = Integer.parseInt("824");
  static final int CONST = 343505;
  static final String TEXT = "C21_2-42";
  byte f0;
  String f2;
  C21_2(int p) {
    super(p * 1);
    f0 = (byte) (p * 7);
    f2 = "v" + p;
  }
  static long t(int p) { return p * 34L + CONST + TEXT.length(); }
  long a0(int p) { return ((p ^ 7) ^ G21.cast5(p)); }
  protected long a2(int p) { return ((G21.ai0(p).i0(p) - G21.ai0(p).i1(p)) + C21_3.s); }
  public long i3(int p) { return ((super.a1((p + 2)) - 77378) * L.name(long.class)); }
  private long pv(int p) { return p ^ 917; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C21_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C21_0) C21_2.this).f3; }
  }
}
class C21_3 extends C21_2 implements I21_0, I21_1 {
  static long s = Integer.parseInt("208");
  static final int CONST = 759437;
  static final String TEXT = "C21_3-93";
  double f0;
  int f1;
  float f2;
  C21_3(int p) {
    super(p * 1);
    f0 = (double) (p * 7);
    f1 = p * 3;
    f2 = (float) (p * 7);
  }
  static long t(int p) { return p * 12L + CONST + TEXT.length(); }
  long a0(int p) { return (L.fn((int x) -> x * 71L + p, (p + 8)) + (p + 2)); }
  protected long a1(int p) { return (((C21_1.t(-p) + (p + 8)) + G21.ai0(p).i1(p)) - L.len(new C21_2[(p + 4) & 3][2])); }
  protected synchronized long a2(int p) { return ((G21.ai0((p ^ 2)).i0((p ^ 2)) - G21.ai0((p ^ 14)).i1((p ^ 14))) * new C21_0(-p).f3); }
  synchronized long a3(int p) { return ((C21_5.t((p + 6)) + (G21.mk(p) instanceof I21_0 ? 15 : 16)) * "k3".hashCode()); }
  public final long i2(int p) { return (((G21.cast1((p ^ 12)) - C21_4.t((p + 9))) - 16431L) - C21_4.s); }
  public synchronized long i3(int p) { return (((C21_3.t(-p) ^ (p ^ 2)) * L.name(C21_5[].class)) ^ G21.ai0(-p).i0(-p)); }
  private long pv(int p) { return p ^ 235; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C21_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C21_2) C21_3.this).f0; }
  }
}
class C21_4 extends C21_2 implements I21_2 {
  static long s = C21_2.s + 63;
  static final int CONST = 214898;
  static final String TEXT = "C21_4-38";
  C21_4(int p) {
    super(p * 1);
  }
  static long t(int p) { return p * 30L + CONST + TEXT.length(); }
  long a0(int p) { return ((L.sw(p) ^ "x25".length()) + (p ^ 4)); }
  protected long a2(int p) { return (-p ^ L.fn(C21_0::t, (p ^ 14))); }
  protected synchronized long a4(int p) { return ((((C21_2) this).f0 + C21_2.s) * (p + 1)); }
  public final long i0(int p) { return (((G21.cast2(-p) ^ -p) * (p + 2)) + (long) ((C21_0) new C21_5(p)).f0); }
  public final long i3(int p) { return (((((C21_2) new C21_4((p ^ 6))).f0 + ((C21_1) new C21_5(-p)).f3) + C21_2.t((p ^ 6))) + G21.ai0(-p).i0(-p)); }
  private long pv(int p) { return p ^ 533; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C21_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p); }
  }
}
class C21_5 extends C21_1 implements I21_1 {
  static long s = Integer.parseInt("204");
  static final int CONST = 720362;
  static final String TEXT = "C21_5-58";
  float f0;
  Object f1;
  C21_5(int p) {
    super(p * 2);
    f0 = (float) (p * 7);
    f1 = Integer.valueOf(p);
  }
  static long t(int p) { return p * 18L + CONST + TEXT.length(); }
  long a0(int p) { return (((G21.ai0((p ^ 4)).i0((p ^ 4)) + L.name(C21_3.class)) - L.sw((p + 3))) * (G21.mk(p) instanceof I21_1 ? 15 : 16)); }
  protected synchronized long a1(int p) { return ((L.sw((p ^ 8)) ^ E21.values()[(p ^ 11) & 3].v((p ^ 11))) ^ 53617); }
  long a3(int p) { return ((this.a2((p ^ 2)) + G21.ai0((p ^ 9)).i0((p ^ 9))) - ((C21_1) new C21_4((p + 3))).f3); }
  public long i0(int p) { return (((C21_5.t(-p) + p) + p) * (long) new C21_1((p + 4)).f1); }
  public final long i1(int p) { return ((new C21_0.In(p).w(p) * (p + 9)) + p); }
  public long i2(int p) { return (-p + ((C21_0) this).f3); }
  private long pv(int p) { return p ^ 303; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C21_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C21_0) C21_5.this).f3; }
  }
}
enum E21 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 3; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb21 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 2; }
}
public class G21 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new int[2];
    case 1: return new C21_4(p);
    case 2: return new C21_0(p);
    case 3: return new C21_1(p);
    case 4: return new C21_2(p);
    case 5: return new C21_4(p);
    case 6: return new C21_3(p);
    default: return new C21_0(p);
    }
  }
  static C21_0 as0(int p) {
    if ((p & 3) == 3) return new C21_0(p + 1);
    if ((p & 3) == 1) return new C21_1(p + 1);
    if ((p & 3) == 1) return new C21_2(p + 1);
    if ((p & 3) == 2) return new C21_3(p + 1);
    if ((p & 3) == 0) return new C21_4(p + 1);
    return new C21_5(p);
  }
  static long cast0(int p) {
    try {
      C21_0 c = (C21_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C21_1 as1(int p) {
    if ((p & 3) == 0) return new C21_1(p + 1);
    if ((p & 3) == 0) return new C21_2(p + 1);
    if ((p & 3) == 1) return new C21_3(p + 1);
    if ((p & 3) == 1) return new C21_4(p + 1);
    return new C21_5(p);
  }
  static long cast1(int p) {
    try {
      C21_1 c = (C21_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C21_2 as2(int p) {
    if ((p & 3) == 3) return new C21_2(p + 1);
    if ((p & 3) == 3) return new C21_3(p + 1);
    return new C21_4(p);
  }
  static long cast2(int p) {
    try {
      C21_2 c = (C21_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C21_3 as3(int p) {
    return new C21_3(p);
  }
  static long cast3(int p) {
    try {
      C21_3 c = (C21_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C21_4 as4(int p) {
    return new C21_4(p);
  }
  static long cast4(int p) {
    try {
      C21_4 c = (C21_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C21_5 as5(int p) {
    return new C21_5(p);
  }
  static long cast5(int p) {
    try {
      C21_5 c = (C21_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I21_0 ai0(int p) {
    if ((p & 3) == 2) return new C21_0(p + 2);
    if ((p & 3) == 0) return new C21_1(p + 2);
    if ((p & 3) == 2) return new C21_2(p + 2);
    if ((p & 3) == 0) return new C21_3(p + 2);
    if ((p & 3) == 3) return new C21_4(p + 2);
    return new C21_5(p);
  }
  static I21_1 ai1(int p) {
    if ((p & 3) == 3) return new C21_3(p + 2);
    return new C21_5(p);
  }
  static I21_2 ai2(int p) {
    if ((p & 3) == 2) return new C21_2(p + 2);
    if ((p & 3) == 1) return new C21_3(p + 2);
    return new C21_4(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + (((((G21.mk((p ^ 15)) instanceof I21_1 ? 15 : 16) - E21.values()[-p & 3].v(-p)) ^ p) - G21.ai0((p + 2)).i1((p + 2))) + p);
    r = r * 31 + ((-p - new C21_2((p ^ 3)).f0) - L.sw((p ^ 4)));
    try {
      r += Late1.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((I21_1) L.proxy(I21_1.class)).i2(p);
    r = r * 31 + (G21.as5((p + 3)).a2((p + 3)) + "k4".hashCode());
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + L.reflect(new C21_0(p), "a0", p);
    r = r * 31 + (L.name(C21_5.class) * 73224L);
    r = r * 31 + ((((long) ((C21_0) new C21_5((p + 5))).f0 * E21.values()[-p & 3].v(-p)) ^ ((C21_1) new C21_2(p)).f3) * new C21_1.In(p).w(p));
    r = r * 31 + ((((new C21_0(p).a0(p) - C21_4.t(p)) + L.len(new C21_4[p & 3][2])) * new C21_4((p ^ 15)).a1((p ^ 15))) - G21.cast5(-p));
    r = r * 31 + ((I21_0) L.proxy(I21_0.class)).i1(p);
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + ((G21.ai2(p).i3(p) - (p + 5)) - new C21_1.In((p ^ 2)).w((p ^ 2)));
    r = r * 31 + L.construct(C21_4.class, p);
    r = r * 31 + (((-p * -p) + G21.ai2((p ^ 13)).i3((p ^ 13))) * C21_5.t(p));
    try {
      r += new Late1().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((I21_2) L.proxy(I21_2.class)).i3(p);
    r = r * 31 + (((new C21_0((p + 8)).f3 + (G21.mk((p + 1)) instanceof I21_2 ? 15 : 16)) ^ "k7".hashCode()) + (G21.mk(p) instanceof I21_1 ? 15 : 16));
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + ((I21_1) L.proxy(I21_1.class)).i2(p);
    r = r * 31 + L.reflect(new C21_1(p), "a4", p);
    r = r * 31 + I21_2.K2;
    return r;
  }
  static long e4(int p) {
    long r = 4;
    {
      Object[] o = new C21_1[2];
      r = r * 31 + (o instanceof C21_3[] ? 1 : 2) + (o instanceof I21_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((68038 * new C21_1((p ^ 15)).a4((p ^ 15))) * p);
    r = r * 31 + L.construct(C21_0.class, p);
    r = r * 31 + new C21_2(p).new Inner().w(p);
    {
      Object[] o = new C21_2[2];
      r = r * 31 + (o instanceof C21_0[] ? 1 : 2) + (o instanceof I21_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    {
      Object[] o = new C21_3[2];
      r = r * 31 + (o instanceof C21_4[] ? 1 : 2) + (o instanceof I21_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + (C21_2.t((p + 6)) + G21.ai2(p).i3(p));
    r = r * 31 + (((E21.values()[(p + 2) & 3].v((p + 2)) + L.fn((int x) -> x * 87L + p, (p + 3))) + G21.as3((p ^ 10)).a1((p ^ 10))) ^ (p + 5));
    try {
      r += new Late1().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += Late1.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + new Fb21().f((long) p) + (Long) ((L.Fn) new Fb21()).f(5L) + ((L.Both<Long>) new Fb21()).f(6L);
    r = r * 31 + L.reflect(new C21_3(p), "a2", p);
    r = r * 31 + ((I21_0) L.proxy(I21_0.class)).i1(p);
    r = r * 31 + ((G21.as4((p + 9)).a2((p + 9)) + C21_5.s) ^ p);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    {
      Object[] o = new C21_0[2];
      r = r * 31 + (o instanceof C21_3[] ? 1 : 2) + (o instanceof I21_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + L.reflect(new C21_0(p), "a2", p);
    r = r * 31 + ((((new C21_4(-p).a1(-p) ^ G21.ai1(p).i2(p)) - new C21_1(-p).a4(-p)) + new C21_5(-p).a3(-p)) + L.fn(C21_5::t, p));
    r = r * 31 + ((((C21_5.s - G21.ai1((p ^ 15)).i2((p ^ 15))) - (p ^ 11)) - G21.ai2(p).i3(p)) + C21_3.s);
    r = r * 31 + I21_2.K2;
    r = r * 31 + L.construct(C21_3.class, p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

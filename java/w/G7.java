package w;
/* generated by tools/genlink.py */
interface I7_0 {
  int K0 = Integer.parseInt("13");
  long i0(int p);
  default long i1(int p) { return ((p ^ L.sw((p ^ 1))) - new C7_0.In((p ^ 7)).w((p ^ 7))); }
}
interface I7_1 {
  int K1 = Integer.parseInt("15");
  long i2(int p);
}
interface I7_2 extends I7_1 {
  int K2 = Integer.parseInt("6");
  long i3(int p);
}
class C7_0 implements I7_0 {
  static long s = Integer.parseInt("548");
  static final int CONST = 187072;
  static final String TEXT = "C7_0-20";
  String f1;
  short f2;
  double f3;
  C7_0(int p) {
    f1 = "v" + p;
    f2 = (short) (p * 7);
    f3 = (double) (p * 7);
  }
  static long t(int p) { return p * 29L + CONST + TEXT.length(); }
  protected long a1(int p) { return (((G7.ai0((p + 4)).i1((p + 4)) + (p ^ 12)) * E7.values()[(p ^ 12) & 3].v((p ^ 12))) * new C7_3(p).f2.length()); }
  public synchronized long i0(int p) { return ((((long) this.f3 - (p ^ 2)) ^ "99".length()) + "x11".length()); }
  private long pv(int p) { return p ^ 732; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C7_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C7_0.this.f1.length(); }
  }
}
class C7_1 implements I7_2 {
  static long s = Integer.parseInt("199");
  static final int CONST = 909081;
  static final String TEXT = "C7_1-32";
  float f1;
  C7_1(int p) {
    f1 = (float) (p * 7);
  }
  static long t(int p) { return p * 12L + CONST + TEXT.length(); }
  protected long a0(int p) { return (((E7.values()[(p + 4) & 3].v((p + 4)) * p) + (G7.mk(-p) instanceof C7_5 ? 5 : 6)) ^ -p); }
  protected synchronized long a1(int p) { return ((E7.values()[(p + 9) & 3].v((p + 9)) + G7.ai0((p + 9)).i1((p + 9))) * C7_1.t(p)); }
  public synchronized long i2(int p) { return ((((long) this.f1 * L.fn(C7_3::t, -p)) - (long) new C7_0((p ^ 6)).f3) * G7.as0(-p).a1(-p)); }
  public final long i3(int p) { return (E7.values()[p & 3].v(p) * C7_4.s); }
  private long pv(int p) { return p ^ 951; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C7_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C7_1.this.f1; }
  }
}
class C7_2 {
  static long s = Integer.parseInt("264");
  static final int CONST = 290158;
  static final String TEXT = "C7_2-59";
  byte f0;
  double f3;
  C7_2(int p) {
    f0 = (byte) (p * 7);
    f3 = (double) (p * 7);
  }
  static long t(int p) { return p * 15L + CONST + TEXT.length(); }
  private long pv(int p) { return p ^ 688; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C7_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C7_2.this.f0; }
  }
}
class C7_3 extends C7_1 implements I7_1 {
  static long s = Integer.parseInt("608");
  static final int CONST = 292527;
  static final String TEXT = "C7_3-55";
  String f2;
  short f3;
  C7_3(int p) {
    super(p * 2);
    f2 = "v" + p;
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 27L + CONST + TEXT.length(); }
  long a2(int p) { return (((G7.ai1(-p).i2(-p) ^ C7_4.t((p + 2))) - (G7.mk(-p) instanceof I7_1 ? 15 : 16)) * C7_1.s); }
  public final long i2(int p) { return (((L.fn(C7_5::t, p) + (G7.mk(-p) instanceof I7_2 ? 15 : 16)) - this.a1(-p)) ^ (G7.mk(-p) instanceof I7_1 ? 15 : 16)); }
  private long pv(int p) { return p ^ 497; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C7_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C7_1) C7_3.this).f1; }
  }
}
class C7_4 implements I7_2 {
  static long s = Integer.parseInt("373");
  static final int CONST = 747435;
  static final String TEXT = "C7_4-38";
  double f1;
  long f3;
  C7_4(int p) {
    f1 = (double) (p * 7);
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 36L + CONST + TEXT.length(); }
  protected synchronized long a1(int p) { return (L.len(new C7_2[(p ^ 12) & 3][2]) + (p ^ 5)); }
  synchronized long a2(int p) { return (new C7_5(p).a0(p) ^ L.sw(p)); }
  public synchronized long a4(int p) { return ((G7.as4((p + 5)).a2((p + 5)) ^ G7.as3(p).a0(p)) * (G7.mk((p + 2)) instanceof I7_2 ? 15 : 16)); }
  public synchronized long i2(int p) { return (L.fn((int x) -> x * 91L + p, (p + 1)) + C7_1.s); }
  public synchronized long i3(int p) { return (p + G7.as4(p).a2(p)); }
  private long pv(int p) { return p ^ 701; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C7_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C7_4.this.f3; }
  }
}
class C7_5 extends C7_2 {
  static long s = Integer.parseInt("116");
  static final int CONST = 747361;
  static final String TEXT = "C7_5-43";
  boolean f0;
  long f1;
  C7_5(int p) {
    super(p * 1);
    f0 = (p & 1) == 0;
    f1 = p * 5000000000L;
  }
  static long t(int p) { return p * 21L + CONST + TEXT.length(); }
  protected synchronized long a0(int p) { return ((long) new C7_0((p + 5)).f3 - C7_5.s); }
  public long a3(int p) { return (C7_5.s ^ L.name(long.class)); }
  private long pv(int p) { return p ^ 557; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C7_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C7_2) C7_5.this).f3; }
  }
}
enum E7 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 7; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb7 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 8; }
}
public class G7 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C7_4(p);
    case 1: return new C7_1(p);
    case 2: return new C7_3(p);
    case 3: return new C7_0(p);
    case 4: return new C7_0(p);
    case 5: return new C7_4(p);
    case 6: return new C7_3(p);
    default: return new C7_0(p);
    }
  }
  static C7_0 as0(int p) {
    return new C7_0(p);
  }
  static long cast0(int p) {
    try {
      C7_0 c = (C7_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C7_1 as1(int p) {
    if ((p & 3) == 1) return new C7_1(p + 1);
    return new C7_3(p);
  }
  static long cast1(int p) {
    try {
      C7_1 c = (C7_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C7_2 as2(int p) {
    if ((p & 3) == 2) return new C7_2(p + 1);
    return new C7_5(p);
  }
  static long cast2(int p) {
    try {
      C7_2 c = (C7_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C7_3 as3(int p) {
    return new C7_3(p);
  }
  static long cast3(int p) {
    try {
      C7_3 c = (C7_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C7_4 as4(int p) {
    return new C7_4(p);
  }
  static long cast4(int p) {
    try {
      C7_4 c = (C7_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C7_5 as5(int p) {
    return new C7_5(p);
  }
  static long cast5(int p) {
    try {
      C7_5 c = (C7_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I7_0 ai0(int p) {
    return new C7_0(p);
  }
  static I7_1 ai1(int p) {
    if ((p & 3) == 1) return new C7_1(p + 2);
    if ((p & 3) == 2) return new C7_3(p + 2);
    return new C7_4(p);
  }
  static I7_2 ai2(int p) {
    if ((p & 3) == 1) return new C7_1(p + 2);
    if ((p & 3) == 1) return new C7_3(p + 2);
    return new C7_4(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + new C7_0(p).new Inner().w(p);
    r = r * 31 + (((new C7_2(p).f0 * (G7.mk(-p) instanceof C7_1 ? 5 : 6)) * G7.as5(p).a0(p)) - G7.as3(p).a1(p));
    r = r * 31 + ((((C7_5.s ^ C7_5.t(-p)) * (G7.mk((p + 5)) instanceof C7_2 ? 5 : 6)) ^ L.fn(C7_0::t, (p ^ 7))) - L.sw(-p));
    {
      Object[] o = new C7_1[2];
      r = r * 31 + (o instanceof C7_1[] ? 1 : 2) + (o instanceof I7_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + I7_1.K1;
    r = r * 31 + ((I7_0) L.proxy(I7_0.class)).i1(p);
    r = r * 31 + I7_1.K1;
    {
      Object[] o = new C7_4[2];
      r = r * 31 + (o instanceof C7_0[] ? 1 : 2) + (o instanceof I7_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + L.reflect(new C7_5(p), "a3", p);
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + I7_0.K0;
    {
      Object[] o = new C7_1[2];
      r = r * 31 + (o instanceof C7_4[] ? 1 : 2) + (o instanceof I7_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    {
      Object[] o = new C7_5[2];
      r = r * 31 + (o instanceof C7_2[] ? 1 : 2) + (o instanceof I7_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + I7_1.K1;
    r = r * 31 + L.reflect(new C7_0(p), "a1", p);
    r = r * 31 + ((((L.name(I7_2.class) * (G7.mk(p) instanceof I7_1 ? 15 : 16)) * (p ^ 14)) - (p ^ 10)) + new C7_5.In((p + 7)).w((p + 7)));
    return r;
  }
  static long e3(int p) {
    long r = 3;
    {
      Object[] o = new C7_1[2];
      r = r * 31 + (o instanceof C7_2[] ? 1 : 2) + (o instanceof I7_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    {
      Object[] o = new C7_1[2];
      r = r * 31 + (o instanceof C7_1[] ? 1 : 2) + (o instanceof I7_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((I7_2) L.proxy(I7_2.class)).i3(p);
    r = r * 31 + ((C7_1.s + G7.as3((p + 9)).a1((p + 9))) - L.sw((p ^ 13)));
    {
      Object[] o = new C7_5[2];
      r = r * 31 + (o instanceof C7_1[] ? 1 : 2) + (o instanceof I7_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + ((I7_2) L.proxy(I7_2.class)).i3(p);
    r = r * 31 + L.reflect(new C7_0(p), "a1", p);
    r = r * 31 + (G7.ai1(p).i2(p) + (p ^ 12));
    {
      Object[] o = new C7_1[2];
      r = r * 31 + (o instanceof C7_5[] ? 1 : 2) + (o instanceof I7_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    try {
      r += Late3.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.reflect(new C7_1(p), "a0", p);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + new Fb7().f((long) p) + (Long) ((L.Fn) new Fb7()).f(5L) + ((L.Both<Long>) new Fb7()).f(6L);
    r = r * 31 + (((p + 9) ^ L.name(I7_0.class)) + L.len(new C7_1[p & 3][2]));
    r = r * 31 + L.construct(C7_5.class, p);
    r = r * 31 + ((C7_2.t((p ^ 3)) * p) - new C7_4((p ^ 4)).a2((p ^ 4)));
    r = r * 31 + new Fb7().f((long) p) + (Long) ((L.Fn) new Fb7()).f(5L) + ((L.Both<Long>) new Fb7()).f(6L);
    r = r * 31 + L.reflect(new C7_0(p), "a1", p);
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + (((p ^ 9) + (p + 6)) * C7_3.s);
    r = r * 31 + ((L.len(new C7_4[-p & 3][2]) ^ E7.values()[p & 3].v(p)) + (G7.mk(-p) instanceof I7_1 ? 15 : 16));
    r = r * 31 + ((((new C7_0(p).a1(p) * L.fn(C7_0::t, (p + 4))) + G7.ai0((p ^ 1)).i1((p ^ 1))) + L.name(C7_5[].class)) * (long) new C7_1(-p).f1);
    r = r * 31 + L.construct(C7_2.class, p);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((((G7.mk(p) instanceof I7_2 ? 15 : 16) - L.name(I7_2.class)) ^ L.fn(C7_0::t, p)) + (G7.mk((p + 5)) instanceof I7_2 ? 15 : 16));
    {
      Object[] o = new C7_4[2];
      r = r * 31 + (o instanceof C7_0[] ? 1 : 2) + (o instanceof I7_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((new C7_3.In((p + 8)).w((p + 8)) - C7_0.t(p)) * new C7_0.In((p + 1)).w((p + 1)));
    r = r * 31 + (((new C7_3.In(p).w(p) - G7.ai0(p).i1(p)) - (G7.mk(p) instanceof C7_2 ? 5 : 6)) - "56".length());
    {
      Object[] o = new C7_5[2];
      r = r * 31 + (o instanceof C7_0[] ? 1 : 2) + (o instanceof I7_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

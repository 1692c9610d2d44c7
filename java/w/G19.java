package w;
/* generated by tools/genlink.py */
interface I19_0 {
  int K0 = Integer.parseInt("58");
  long i0(int p);
  long i1(int p);
}
interface I19_1 {
  int K1 = Integer.parseInt("40");
  long i2(int p);
}
interface I19_2 extends I19_0 {
  int K2 = Integer.parseInt("86");
  long i3(int p);
}
class C19_0 implements I19_0, I19_2 {
  static long s = Integer.parseInt("315");
  static final int CONST = 444389;
  static final String TEXT = "C19_0-44";
  long f0;
  int f1;
  double f2;
  boolean f3;
  C19_0(int p) {
    f0 = p * 5000000000L;
    f1 = p * 3;
    f2 = (double) (p * 7);
    f3 = (p & 1) == 0;
  }
  static long t(int p) { return p * 22L + CONST + TEXT.length(); }
  protected long a3(int p) { return (((E19.values()[(p + 8) & 3].v((p + 8)) - "k1".hashCode()) + new C19_2.In(p).w(p)) + L.fn((int x) -> x * 32L + p, -p)); }
  synchronized long a4(int p) { return (((G19.ai2((p ^ 6)).i3((p ^ 6)) + (this.f3 ? 3 : 4)) ^ (G19.mk(p) instanceof C19_3 ? 5 : 6)) ^ L.name(long.class)); }
  public long i0(int p) { return (((G19.cast0((p + 2)) + L.name(int[][].class)) ^ L.len(new C19_0[(p ^ 1) & 3][2])) + -p); }
  public long i1(int p) { return (-p - L.len(new C19_4[-p & 3][2])); }
  public long i3(int p) { return (((L.name(I19_1.class) * C19_5.t((p + 8))) * L.fn(C19_2::t, (p + 8))) ^ "x0".length()); }
  private long pv(int p) { return p ^ 761; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C19_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C19_0.this.f2; }
  }
}
class C19_1 extends C19_0 implements I19_1, I19_2 {
  static long s = C19_0.s + 70;
  static final int CONST = 143345;
  static final String TEXT = "C19_1-3";
  float f0;
  int f1;
  String f3;
  C19_1(int p) {
    super(p * 4);
    f0 = (float) (p * 7);
    f1 = p * 3;
    f3 = "v" + p;
  }
  static long t(int p) { return p * 46L + CONST + TEXT.length(); }
  long a0(int p) { return (G19.ai0((p ^ 15)).i0((p ^ 15)) - (G19.mk(p) instanceof I19_0 ? 15 : 16)); }
  public long a1(int p) { return ((39930 - p) * -p); }
  protected long a2(int p) { return (((new C19_4((p + 5)).a0((p + 5)) + G19.ai0(p).i1(p)) - (G19.mk(p) instanceof I19_2 ? 15 : 16)) ^ (G19.mk(p) instanceof C19_1 ? 5 : 6)); }
  long a4(int p) { return (L.fn((int x) -> x * 55L + p, p) - G19.cast3(-p)); }
  public long i0(int p) { return (((p ^ 10) - (((C19_0) new C19_4((p + 3))).f3 ? 3 : 4)) ^ -p); }
  public long i1(int p) { return (((C19_4.t((p ^ 14)) ^ new C19_2.In(p).w(p)) - (p ^ 8)) + (G19.mk((p ^ 10)) instanceof I19_0 ? 15 : 16)); }
  public synchronized long i2(int p) { return ("k1".hashCode() + "xxx32".length()); }
  public synchronized long i3(int p) { return (L.len(new C19_5[(p ^ 15) & 3][2]) * new C19_3(p).a1(p)); }
  private long pv(int p) { return p ^ 9; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C19_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C19_0) C19_1.this).f2; }
  }
}
class C19_2 implements I19_1 {
  static long s = Integer.parseInt("63");
  static final int CONST = 604238;
  static final String TEXT = "C19_2-74";
  float f0;
  byte f2;
  long f3;
  C19_2(int p) {
    f0 = (float) (p * 7);
    f2 = (byte) (p * 7);
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 39L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return (((C19_3.s - -p) + (long) this.f0) - L.name(C19_0.class)); }
  public long i2(int p) { return ((long) this.f0 + this.f3); }
  private long pv(int p) { return p ^ 158; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C19_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C19_2.this.f2; }
  }
}
class C19_3 extends C19_1 implements I19_0, I19_2 {
  static long s = C19_2.s + 47;
  static final int CONST = 755885;
  static final String TEXT = "C19_3-70";
  boolean f0;
  C19_3(int p) {
    super(p * 2);
    f0 = (p & 1) == 0;
  }
  static long t(int p) { return p * 38L + CONST + TEXT.length(); }
  long a0(int p) { return ((C19_0.t(p) - "k5".hashCode()) - -p); }
  protected long a2(int p) { return ((G19.cast1((p ^ 13)) ^ -p) * G19.ai1((p + 8)).i2((p + 8))); }
  public long i0(int p) { return (L.fn((int x) -> C19_4.t(x) + 60, (p + 8)) ^ 86648); }
  public long i2(int p) { return (((G19.ai0((p + 8)).i0((p + 8)) * new C19_3.In(-p).w(-p)) ^ p) ^ G19.ai0((p ^ 13)).i0((p ^ 13))); }
  public synchronized long i3(int p) { return (((G19.ai1(p).i2(p) * G19.ai0(p).i0(p)) * G19.as5(-p).a2(-p)) * 99688); }
  private long pv(int p) { return p ^ 603; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C19_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C19_1) C19_3.this).f0; }
  }
}
class C19_4 extends C19_0 implements I19_1 {
  static long s = C19_3.s + 7;
  static final int CONST = 883366;
  static final String TEXT = "C19_4-21";
  long f1;
  C19_4(int p) {
    super(p * 3);
    f1 = p * 5000000000L;
  }
  static long t(int p) { return p * 3L + CONST + TEXT.length(); }
  long a0(int p) { return (((L.name(long.class) * new C19_4(p).f1) + 96834) + -p); }
  protected long a2(int p) { return ((new C19_2.In((p ^ 10)).w((p ^ 10)) - (p + 1)) - 61203L); }
  protected synchronized long a3(int p) { return (((G19.ai1((p ^ 1)).i2((p ^ 1)) + G19.ai1(p).i2(p)) ^ (G19.mk(-p) instanceof I19_1 ? 15 : 16)) * L.name(I19_2.class)); }
  public long i2(int p) { return (((L.sw((p + 9)) - C19_0.s) * L.len(new C19_5[-p & 3][2])) ^ L.len(new C19_2[-p & 3][2])); }
  private long pv(int p) { return p ^ 480; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C19_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C19_0) C19_4.this).f1; }
  }
}
class C19_5 extends C19_2 {
  static long s = Integer.parseInt("683");
  static final int CONST = 417175;
  static final String TEXT = "C19_5-43";
  char f1;
  char f2;
  float f3;
  C19_5(int p) {
    super(p * 3);
    f1 = (char) (p * 7);
    f2 = (char) (p * 7);
    f3 = (float) (p * 7);
  }
  static long t(int p) { return p * 3L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return (((99495 ^ L.len(new C19_3[(p + 6) & 3][2])) + "xxx56".length()) + "xxx91".length()); }
  public synchronized long a1(int p) { return (G19.ai0((p + 2)).i1((p + 2)) ^ (G19.mk(-p) instanceof I19_1 ? 15 : 16)); }
  protected long a2(int p) { return ((((G19.mk((p + 5)) instanceof C19_2 ? 5 : 6) ^ C19_0.s) * p) + G19.ai0(p).i0(p)); }
  protected long a3(int p) { return (((C19_1.s - (G19.mk((p + 4)) instanceof C19_0 ? 5 : 6)) ^ G19.as3((p ^ 15)).a2((p ^ 15))) ^ C19_0.t((p ^ 15))); }
  long a4(int p) { return ((L.sw((p ^ 6)) - L.len(new C19_4[(p + 2) & 3][2])) - "k4".hashCode()); }
  private long pv(int p) { return p ^ 279; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C19_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C19_5.this.f2; }
  }
}
enum E19 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 8; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb19 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 4; }
}
public class G19 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C19_4(p);
    case 1: return new C19_2(p);
    case 2: return new C19_2(p);
    case 3: return new C19_2(p);
    case 4: return new C19_4(p);
    case 5: return new C19_1(p);
    case 6: return new C19_0(p);
    default: return new C19_2(p);
    }
  }
  static C19_0 as0(int p) {
    if ((p & 3) == 3) return new C19_0(p + 1);
    if ((p & 3) == 0) return new C19_1(p + 1);
    if ((p & 3) == 1) return new C19_3(p + 1);
    return new C19_4(p);
  }
  static long cast0(int p) {
    try {
      C19_0 c = (C19_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C19_1 as1(int p) {
    if ((p & 3) == 1) return new C19_1(p + 1);
    return new C19_3(p);
  }
  static long cast1(int p) {
    try {
      C19_1 c = (C19_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C19_2 as2(int p) {
    if ((p & 3) == 3) return new C19_2(p + 1);
    return new C19_5(p);
  }
  static long cast2(int p) {
    try {
      C19_2 c = (C19_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C19_3 as3(int p) {
    return new C19_3(p);
  }
  static long cast3(int p) {
    try {
      C19_3 c = (C19_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C19_4 as4(int p) {
    return new C19_4(p);
  }
  static long cast4(int p) {
    try {
      C19_4 c = (C19_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C19_5 as5(int p) {
    return new C19_5(p);
  }
  static long cast5(int p) {
    try {
      C19_5 c = (C19_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I19_0 ai0(int p) {
    if ((p & 3) == 3) return new C19_0(p + 2);
    if ((p & 3) == 1) return new C19_1(p + 2);
    if ((p & 3) == 1) return new C19_3(p + 2);
    return new C19_4(p);
  }
  static I19_1 ai1(int p) {
    if ((p & 3) == 2) return new C19_1(p + 2);
    if ((p & 3) == 0) return new C19_2(p + 2);
    if ((p & 3) == 3) return new C19_3(p + 2);
    if ((p & 3) == 1) return new C19_4(p + 2);
    return new C19_5(p);
  }
  static I19_2 ai2(int p) {
    if ((p & 3) == 3) return new C19_0(p + 2);
    if ((p & 3) == 1) return new C19_1(p + 2);
    if ((p & 3) == 0) return new C19_3(p + 2);
    return new C19_4(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + L.reflect(new C19_0(p), "a3", p);
    r = r * 31 + ((((C19_0.t((p ^ 8)) * new C19_5.In((p ^ 13)).w((p ^ 13))) * (G19.mk(p) instanceof I19_2 ? 15 : 16)) + L.fn(C19_5::t, (p + 1))) ^ p);
    r = r * 31 + (new C19_1.In(p).w(p) * G19.ai1((p ^ 3)).i2((p ^ 3)));
    r = r * 31 + ((G19.as4(p).a4(p) * "xx99".length()) - "xxxx4".length());
    r = r * 31 + ((G19.cast3((p + 7)) ^ "k0".hashCode()) * G19.ai0((p ^ 5)).i1((p ^ 5)));
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r += new Late3().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + I19_1.K1;
    r = r * 31 + L.construct(C19_3.class, p);
    try {
      r += Late3.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + I19_0.K0;
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + (p * G19.ai0(p).i1(p));
    r = r * 31 + ((L.len(new C19_3[(p ^ 3) & 3][2]) * G19.as3(-p).a0(-p)) * new C19_5((p + 8)).a1((p + 8)));
    try {
      r += Late3.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + ((((L.sw(p) * "k6".hashCode()) ^ (G19.mk(-p) instanceof I19_2 ? 15 : 16)) - new C19_1(p).a1(p)) + (G19.mk((p ^ 5)) instanceof C19_2 ? 5 : 6));
    r = r * 31 + (L.sw((p + 3)) ^ L.fn(C19_0::t, p));
    try {
      r += new Late3().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    {
      Object[] o = new C19_5[2];
      r = r * 31 + (o instanceof C19_3[] ? 1 : 2) + (o instanceof I19_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + new Fb19().f((long) p) + (Long) ((L.Fn) new Fb19()).f(5L) + ((L.Both<Long>) new Fb19()).f(6L);
    r = r * 31 + ((I19_0) L.proxy(I19_0.class)).i1(p);
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + ((I19_2) L.proxy(I19_2.class)).i3(p);
    r = r * 31 + L.reflect(new C19_2(p), "a0", p);
    r = r * 31 + ((L.len(new C19_1[(p + 6) & 3][2]) - (G19.mk((p + 4)) instanceof C19_5 ? 5 : 6)) * G19.ai1(p).i2(p));
    r = r * 31 + ((((L.fn(C19_2::t, (p + 2)) + G19.ai0((p + 4)).i1((p + 4))) + new C19_3.In(p).w(p)) ^ G19.cast0((p + 1))) - 41272L);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + (((new C19_5(-p).a1(-p) * new C19_4((p ^ 4)).a2((p ^ 4))) + C19_0.t((p + 5))) - G19.ai1(-p).i2(-p));
    r = r * 31 + ((I19_2) L.proxy(I19_2.class)).i3(p);
    r = r * 31 + new Fb19().f((long) p) + (Long) ((L.Fn) new Fb19()).f(5L) + ((L.Both<Long>) new Fb19()).f(6L);
    {
      Object[] o = new C19_5[2];
      r = r * 31 + (o instanceof C19_1[] ? 1 : 2) + (o instanceof I19_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((E19.values()[-p & 3].v(-p) ^ new C19_2.In((p ^ 8)).w((p ^ 8))) ^ (long) ((C19_2) new C19_5((p + 6))).f0);
    r = r * 31 + ((I19_2) L.proxy(I19_2.class)).i3(p);
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + ((new C19_5((p ^ 1)).a0((p ^ 1)) + C19_2.s) ^ E19.values()[p & 3].v(p));
    r = r * 31 + new Fb19().f((long) p) + (Long) ((L.Fn) new Fb19()).f(5L) + ((L.Both<Long>) new Fb19()).f(6L);
    r = r * 31 + new C19_1(p).new Inner().w(p);
    r = r * 31 + L.construct(C19_3.class, p);
    r = r * 31 + new C19_1(p).new Inner().w(p);
    {
      Object[] o = new C19_5[2];
      r = r * 31 + (o instanceof C19_5[] ? 1 : 2) + (o instanceof I19_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((G19.ai0((p + 2)).i0((p + 2)) - "k8".hashCode()) - p);
    r = r * 31 + new C19_4(p).new Inner().w(p);
    r = r * 31 + L.reflect(new C19_1(p), "a2", p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

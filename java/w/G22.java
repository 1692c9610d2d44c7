package w;
/* generated by tools/genlink.py */
interface I22_0 {
  int K0 = Integer.parseInt("10");
  default long i0(int p) { return (G22.cast3(-p) * (G22.mk((p ^ 4)) instanceof C22_5 ? 5 : 6)); }
  default long i1(int p) { return ((((p ^ 1) + E22.values()[(p + 4) & 3].v((p + 4))) + (G22.mk(p) instanceof I22_1 ? 15 : 16)) * (G22.mk((p + 9)) instanceof I22_2 ? 15 : 16)); }
}
interface I22_1 {
  int K1 = Integer.parseInt("28");
  long i2(int p);
}
interface I22_2 extends I22_1 {
  int K2 = Integer.parseInt("64");
  default long i3(int p) { return ((((C22_0) new C22_4((p ^ 7))).f3 - -p) + E22.values()[(p ^ 13) & 3].v((p ^ 13))); }
}
class C22_0 implements I22_0 {
  static long s = Integer.parseInt("687");
  static final int CONST = 550147;
  static final String TEXT = "C22_0-90";
  double f0;
  float f2;
  short f3;
  C22_0(int p) {
    f0 = (double) (p * 7);
    f2 = (float) (p * 7);
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 12L + CONST + TEXT.length(); }
  public long a2(int p) { return ((((long) this.f2 * L.sw(-p)) - E22.values()[(p + 3) & 3].v((p + 3))) - (G22.mk(p) instanceof C22_0 ? 5 : 6)); }
  public synchronized long a3(int p) { return (G22.ai0((p + 2)).i1((p + 2)) ^ G22.ai0((p + 7)).i0((p + 7))); }
  long a4(int p) { return (((p ^ 9) ^ new C22_1.In((p + 4)).w((p + 4))) - G22.cast4(p)); }
  private long pv(int p) { return p ^ 711; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C22_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C22_0.this.f0; }
  }
}
class C22_1 extends C22_0 {
  static long s = C22_0.s + 89;
  static final int CONST = 399006;
  static final String TEXT = "C22_1-92";
  long f3;
  C22_1(int p) {
    super(p * 1);
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 13L + CONST + TEXT.length(); }
  protected long a0(int p) { return (((C22_5.t(p) ^ 77305) - p) ^ L.len(new C22_2[p & 3][2])); }
  public long a3(int p) { return ((new C22_1((p + 4)).a0((p + 4)) ^ (p + 4)) * new C22_1((p + 6)).a0((p + 6))); }
  synchronized long a4(int p) { return (((G22.mk(p) instanceof C22_5 ? 5 : 6) ^ (G22.mk(-p) instanceof I22_1 ? 15 : 16)) ^ G22.cast5((p ^ 13))); }
  private long pv(int p) { return p ^ 307; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C22_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C22_1.this.f3; }
  }
}
class C22_2 extends C22_0 implements I22_2 {
  static long s = C22_0.s + 30;
  static final int CONST = 494847;
  static final String TEXT = "C22_2-82";
  long f0;
  String f1;
  Object f2;
  byte f3;
  C22_2(int p) {
    super(p * 2);
    f0 = p * 5000000000L;
    f1 = "v" + p;
    f2 = "o" + p;
    f3 = (byte) (p * 7);
  }
  static long t(int p) { return p * 33L + CONST + TEXT.length(); }
  protected long a1(int p) { return (C22_3.t(-p) - new C22_3.In((p + 5)).w((p + 5))); }
  public long a2(int p) { return ((((G22.mk((p + 1)) instanceof C22_1 ? 5 : 6) - C22_5.t((p ^ 3))) + (long) ((C22_0) this).f0) * G22.as5(-p).a1(-p)); }
  long a4(int p) { return (L.sw(p) * L.fn((int x) -> x * 25L + p, -p)); }
  public long i2(int p) { return (C22_1.t(p) * (G22.mk(p) instanceof I22_1 ? 15 : 16)); }
  private long pv(int p) { return p ^ 644; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C22_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C22_2.this.f0; }
  }
}
class C22_3 extends C22_2 implements I22_2 {
  static long s = C22_1.s + 14;
  static final int CONST = 19343;
  static final String TEXT = "C22_3-53";
  char f3;
  C22_3(int p) {
    super(p * 2);
    f3 = (char) (p * 7);
  }
  static long t(int p) { return p * 45L + CONST + TEXT.length(); }
  protected long a0(int p) { return (L.fn((int x) -> x * 74L + p, (p ^ 11)) - p); }
  public long a3(int p) { return ((G22.ai0((p ^ 5)).i0((p ^ 5)) - L.fn((int x) -> x * 83L + p, (p + 2))) ^ C22_4.s); }
  public final long i0(int p) { return ((L.h(((C22_2) this).f2) + -p) * C22_2.s); }
  public synchronized long i2(int p) { return ((G22.mk(p) instanceof C22_0 ? 5 : 6) - new C22_2(p).a1(p)); }
  private long pv(int p) { return p ^ 484; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C22_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C22_0) C22_3.this).f3; }
  }
}
class C22_4 extends C22_2 implements I22_0, I22_1 {
  static long s = C22_1.s + 69;
  static final int CONST = 886607;
  static final String TEXT = "C22_4-4";
  long f1;
  short f2;
  int f3;
  C22_4(int p) {
    super(p * 1);
    f1 = p * 5000000000L;
    f2 = (short) (p * 7);
    f3 = p * 3;
  }
  static long t(int p) { return p * 33L + CONST + TEXT.length(); }
  public long a3(int p) { return (((p ^ 7) + E22.values()[(p + 6) & 3].v((p + 6))) - (G22.mk(p) instanceof I22_2 ? 15 : 16)); }
  public final long i2(int p) { return ((long) ((C22_0) new C22_1((p ^ 12))).f2 * L.fn((int x) -> x * 40L + p, p)); }
  private long pv(int p) { return p ^ 512; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C22_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C22_4.this.f2; }
  }
}
class C22_5 extends C22_1 implements I22_0, I22_2 {
  static long s = C22_3.s + 62;
  static final int CONST = 178760;
  static final String TEXT = "C22_5-53";
  byte f0;
  char f1;
  byte f2;
  double f3;
  C22_5(int p) {
    super(p * 5);
    f0 = (byte) (p * 7);
    f1 = (char) (p * 7);
    f2 = (byte) (p * 7);
    f3 = (double) (p * 7);
  }
  static long t(int p) { return p * 48L + CONST + TEXT.length(); }
  protected long a1(int p) { return ((L.name(I22_2.class) ^ 47927) * (G22.mk(-p) instanceof I22_1 ? 15 : 16)); }
  public long a3(int p) { return (((p - 23993L) - 80806L) * -p); }
  long a4(int p) { return (51956L - C22_3.t(p)); }
  public final long i0(int p) { return (((-p + (G22.mk(p) instanceof C22_5 ? 5 : 6)) ^ (p ^ 2)) * (p ^ 9)); }
  public long i2(int p) { return ((-p - (p ^ 8)) * C22_4.t(-p)); }
  public final long i3(int p) { return ((L.fn((int x) -> x * 70L + p, (p ^ 8)) ^ ((C22_1) this).f3) - (p ^ 10)); }
  private long pv(int p) { return p ^ 945; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C22_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C22_0) C22_5.this).f0; }
  }
}
enum E22 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 7; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb22 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 6; }
}
public class G22 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C22_1(p);
    case 1: return new C22_3(p);
    case 2: return new C22_4(p);
    case 3: return new C22_5(p);
    case 4: return new C22_2(p);
    case 5: return new C22_0(p);
    case 6: return new C22_5(p);
    default: return new C22_0(p);
    }
  }
  static C22_0 as0(int p) {
    if ((p & 3) == 1) return new C22_0(p + 1);
    if ((p & 3) == 0) return new C22_1(p + 1);
    if ((p & 3) == 1) return new C22_2(p + 1);
    if ((p & 3) == 1) return new C22_3(p + 1);
    if ((p & 3) == 1) return new C22_4(p + 1);
    return new C22_5(p);
  }
  static long cast0(int p) {
    try {
      C22_0 c = (C22_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C22_1 as1(int p) {
    if ((p & 3) == 3) return new C22_1(p + 1);
    return new C22_5(p);
  }
  static long cast1(int p) {
    try {
      C22_1 c = (C22_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C22_2 as2(int p) {
    if ((p & 3) == 0) return new C22_2(p + 1);
    if ((p & 3) == 2) return new C22_3(p + 1);
    return new C22_4(p);
  }
  static long cast2(int p) {
    try {
      C22_2 c = (C22_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C22_3 as3(int p) {
    return new C22_3(p);
  }
  static long cast3(int p) {
    try {
      C22_3 c = (C22_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C22_4 as4(int p) {
    return new C22_4(p);
  }
  static long cast4(int p) {
    try {
      C22_4 c = (C22_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C22_5 as5(int p) {
    return new C22_5(p);
  }
  static long cast5(int p) {
    try {
      C22_5 c = (C22_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I22_0 ai0(int p) {
    if ((p & 3) == 3) return new C22_0(p + 2);
    if ((p & 3) == 2) return new C22_1(p + 2);
    if ((p & 3) == 3) return new C22_2(p + 2);
    if ((p & 3) == 0) return new C22_3(p + 2);
    if ((p & 3) == 2) return new C22_4(p + 2);
    return new C22_5(p);
  }
  static I22_1 ai1(int p) {
    if ((p & 3) == 1) return new C22_2(p + 2);
    if ((p & 3) == 3) return new C22_3(p + 2);
    if ((p & 3) == 1) return new C22_4(p + 2);
    return new C22_5(p);
  }
  static I22_2 ai2(int p) {
    if ((p & 3) == 0) return new C22_2(p + 2);
    if ((p & 3) == 2) return new C22_3(p + 2);
    if ((p & 3) == 3) return new C22_4(p + 2);
    return new C22_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + ((I22_1) L.proxy(I22_1.class)).i2(p);
    r = r * 31 + ((I22_2) L.proxy(I22_2.class)).i3(p);
    r = r * 31 + L.reflect(new C22_2(p), "a1", p);
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r += Late2.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new Fb22().f((long) p) + (Long) ((L.Fn) new Fb22()).f(5L) + ((L.Both<Long>) new Fb22()).f(6L);
    r = r * 31 + ((((new C22_2(p).f1.length() ^ (G22.mk((p + 7)) instanceof C22_5 ? 5 : 6)) * G22.cast0((p + 8))) * G22.as5((p ^ 9)).a1((p ^ 9))) * (G22.mk((p + 5)) instanceof I22_2 ? 15 : 16));
    r = r * 31 + (62038 + new C22_4(p).a1(p));
    r = r * 31 + ((((G22.cast2((p + 1)) - 11068L) - L.sw((p ^ 7))) - G22.as4((p + 4)).a3((p + 4))) * -p);
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + I22_1.K1;
    r = r * 31 + ((((p ^ 12) ^ G22.ai0((p + 7)).i1((p + 7))) * (long) new C22_0((p ^ 12)).f0) ^ (p ^ 6));
    r = r * 31 + new C22_1(p).new Inner().w(p);
    try {
      r += Late2.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += Late2.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += Late2.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    {
      Object[] o = new C22_4[2];
      r = r * 31 + (o instanceof C22_2[] ? 1 : 2) + (o instanceof I22_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + L.reflect(new C22_5(p), "a2", p);
    r = r * 31 + (((p + 7) + G22.ai2((p ^ 7)).i3((p ^ 7))) * C22_2.t((p + 6)));
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + L.construct(C22_4.class, p);
    {
      Object[] o = new C22_1[2];
      r = r * 31 + (o instanceof C22_5[] ? 1 : 2) + (o instanceof I22_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    {
      Object[] o = new C22_1[2];
      r = r * 31 + (o instanceof C22_4[] ? 1 : 2) + (o instanceof I22_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + new Fb22().f((long) p) + (Long) ((L.Fn) new Fb22()).f(5L) + ((L.Both<Long>) new Fb22()).f(6L);
    r = r * 31 + L.reflect(new C22_4(p), "a1", p);
    r = r * 31 + ((((G22.cast0(p) ^ (p + 6)) + L.name(C22_2.class)) * (p ^ 10)) ^ p);
    r = r * 31 + I22_0.K0;
    r = r * 31 + new C22_5(p).new Inner().w(p);
    {
      Object[] o = new C22_4[2];
      r = r * 31 + (o instanceof C22_1[] ? 1 : 2) + (o instanceof I22_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r += new Late2().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (L.len(new C22_4[(p + 6) & 3][2]) * L.fn(C22_0::t, -p));
    r = r * 31 + new Fb22().f((long) p) + (Long) ((L.Fn) new Fb22()).f(5L) + ((L.Both<Long>) new Fb22()).f(6L);
    try {
      r += new Late2().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new C22_5(p).new Inner().w(p);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((I22_2) L.proxy(I22_2.class)).i3(p);
    r = r * 31 + (G22.as0(-p).a3(-p) - (long) ((C22_0) new C22_2(p)).f2);
    r = r * 31 + ((I22_2) L.proxy(I22_2.class)).i3(p);
    r = r * 31 + new C22_1(p).new Inner().w(p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

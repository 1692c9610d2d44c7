package w;
/* generated by tools/genlink.py */
interface I2_0 {
  int K0 = Integer.parseInt("82");
  default long i0(int p) { return (((G2.mk((p + 9)) instanceof I2_2 ? 15 : 16) * p) ^ p); }
  long i1(int p);
}
interface I2_1 {
  int K1 = Integer.parseInt("29");
  long i2(int p);
}
interface I2_2 extends I2_1 {
  int K2 = Integer.parseInt("67");
  long i3(int p);
}
class C2_0 implements I2_1, I2_2 {
  static long s = Integer.parseInt("616");
  static final int CONST = 696063;
  static final String TEXT = "C2_0-25";
  int f1;
  C2_0(int p) {
    f1 = p * 3;
  }
  static long t(int p) { return p * 50L + CONST + TEXT.length(); }
  public synchronized long a0(int p) { return ((((p + 7) ^ p) ^ C2_3.t(p)) + (G2.mk((p ^ 6)) instanceof C2_4 ? 5 : 6)); }
  public long a1(int p) { return (L.name(I2_0.class) + C2_3.t(p)); }
  public long a2(int p) { return (((G2.ai1(p).i2(p) + E2.values()[-p & 3].v(-p)) * L.len(new C2_3[(p ^ 7) & 3][2])) - G2.ai0((p + 9)).i1((p + 9))); }
  public long i2(int p) { return (L.sw((p + 2)) - C2_4.t((p + 2))); }
  public long i3(int p) { return (G2.ai0((p ^ 3)).i1((p ^ 3)) * G2.ai0((p + 4)).i1((p + 4))); }
  private long pv(int p) { return p ^ 535; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C2_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C2_0.this.f1; }
  }
}
class C2_1 extends C2_0 {
  static long s = C2_0.s + 89;
  static final int CONST = 391129;
  static final String TEXT = "C2_1-52";
  float f0;
  long f1;
  String f2;
  long f3;
  C2_1(int p) {
    super(p * 3);
    f0 = (float) (p * 7);
    f1 = p * 5000000000L;
    f2 = "v" + p;
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 42L + CONST + TEXT.length(); }
  public long a1(int p) { return ((E2.values()[(p + 2) & 3].v((p + 2)) - (G2.mk(p) instanceof C2_3 ? 5 : 6)) * (G2.mk((p + 6)) instanceof I2_2 ? 15 : 16)); }
  public synchronized long i2(int p) { return (C2_5.t((p + 3)) + this.f1); }
  private long pv(int p) { return p ^ 704; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C2_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C2_1.this.f2.length(); }
  }
}
class C2_2 extends C2_0 implements I2_0, I2_2 {
  static long s = Integer.parseInt("115");
  static final int CONST = 620328;
  static final String TEXT = "C2_2-14";
  byte f1;
  float f2;
  C2_2(int p) {
    super(p * 2);
    f1 = (byte) (p * 7);
    f2 = (float) (p * 7);
  }
  static long t(int p) { return p * 36L + CONST + TEXT.length(); }
  public synchronized long a1(int p) { return (G2.ai0((p ^ 8)).i1((p ^ 8)) + -p); }
  public long i1(int p) { return (((C2_0) new C2_2(-p)).f1 * this.f1); }
  public long i2(int p) { return ((E2.values()[-p & 3].v(-p) * new C2_0.In((p ^ 4)).w((p ^ 4))) ^ -p); }
  private long pv(int p) { return p ^ 306; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C2_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C2_0) C2_2.this).f1; }
  }
}
class C2_3 extends C2_2 implements I2_0, I2_1, I2_2 {
  static long s = Integer.parseInt("580");
  static final int CONST = 861828;
  static final String TEXT = "C2_3-6";
  double f0;
  char f2;
  short f3;
  C2_3(int p) {
    super(p * 5);
    f0 = (double) (p * 7);
    f2 = (char) (p * 7);
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 7L + CONST + TEXT.length(); }
  public long a1(int p) { return (E2.values()[-p & 3].v(-p) - G2.ai0(-p).i1(-p)); }
  public synchronized long i2(int p) { return (((G2.mk(-p) instanceof I2_1 ? 15 : 16) - (G2.mk(p) instanceof I2_1 ? 15 : 16)) * G2.ai0((p ^ 8)).i1((p ^ 8))); }
  public long i3(int p) { return ((new C2_2((p + 3)).a2((p + 3)) - L.name(C2_0.class)) - G2.ai0((p + 1)).i1((p + 1))); }
  private long pv(int p) { return p ^ 406; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C2_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C2_2) C2_3.this).f1; }
  }
}
class C2_4 extends C2_0 implements I2_2 {
  static long s = C2_3.s + 82;
  static final int CONST = 503670;
  static final String TEXT = "C2_4-41";
  byte f0;
  String f1;
  Object f3;
  C2_4(int p) {
    super(p * 1);
    f0 = (byte) (p * 7);
    f1 = "v" + p;
    f3 = "o" + p;
  }
  static long t(int p) { return p * 15L + CONST + TEXT.length(); }
  long a3(int p) { return (((G2.ai0(-p).i0(-p) - (p + 3)) * G2.cast3(-p)) - C2_3.s); }
  protected long a4(int p) { return ((L.name(int[][].class) ^ G2.ai2(-p).i3(-p)) + this.a3(-p)); }
  private long pv(int p) { return p ^ 52; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C2_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C2_0) C2_4.this).f1; }
  }
}
class C2_5 implements I2_1 {
  static long s = C2_2.s + 1;
  static final int CONST = 359360;
  static final String TEXT = "C2_5-55";
  String f0;
  boolean f1;
  int f2;
  byte f3;
  C2_5(int p) {
    f0 = "v" + p;
    f1 = (p & 1) == 0;
    f2 = p * 3;
    f3 = (byte) (p * 7);
  }
  static long t(int p) { return p * 12L + CONST + TEXT.length(); }
  public long a1(int p) { return ((this.f1 ? 3 : 4) + L.name(I2_1.class)); }
  public final long i2(int p) { return (L.sw((p + 1)) - "k3".hashCode()); }
  private long pv(int p) { return p ^ 185; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C2_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C2_5.this.f0.length(); }
  }
}
enum E2 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 3; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb2 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 5; }
}
public class G2 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C2_4(p);
    case 1: return new C2_2(p);
    case 2: return new C2_5(p);
    case 3: return new C2_2(p);
    case 4: return Integer.valueOf(p);
    case 5: return new C2_3(p);
    case 6: return new C2_4(p);
    default: return new C2_2(p);
    }
  }
  static C2_0 as0(int p) {
    if ((p & 3) == 3) return new C2_0(p + 1);
    if ((p & 3) == 3) return new C2_1(p + 1);
    if ((p & 3) == 1) return new C2_2(p + 1);
    if ((p & 3) == 0) return new C2_3(p + 1);
    return new C2_4(p);
  }
  static long cast0(int p) {
    try {
      C2_0 c = (C2_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C2_1 as1(int p) {
    return new C2_1(p);
  }
  static long cast1(int p) {
    try {
      C2_1 c = (C2_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C2_2 as2(int p) {
    if ((p & 3) == 3) return new C2_2(p + 1);
    return new C2_3(p);
  }
  static long cast2(int p) {
    try {
      C2_2 c = (C2_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C2_3 as3(int p) {
    return new C2_3(p);
  }
  static long cast3(int p) {
    try {
      C2_3 c = (C2_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C2_4 as4(int p) {
    return new C2_4(p);
  }
  static long cast4(int p) {
    try {
      C2_4 c = (C2_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C2_5 as5(int p) {
    return new C2_5(p);
  }
  static long cast5(int p) {
    try {
      C2_5 c = (C2_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I2_0 ai0(int p) {
    if ((p & 3) == 0) return new C2_2(p + 2);
    return new C2_3(p);
  }
  static I2_1 ai1(int p) {
    if ((p & 3) == 0) return new C2_0(p + 2);
    if ((p & 3) == 1) return new C2_1(p + 2);
    if ((p & 3) == 0) return new C2_2(p + 2);
    if ((p & 3) == 2) return new C2_3(p + 2);
    if ((p & 3) == 3) return new C2_4(p + 2);
    return new C2_5(p);
  }
  static I2_2 ai2(int p) {
    if ((p & 3) == 3) return new C2_0(p + 2);
    if ((p & 3) == 2) return new C2_1(p + 2);
    if ((p & 3) == 1) return new C2_2(p + 2);
    if ((p & 3) == 2) return new C2_3(p + 2);
    return new C2_4(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + (L.sw((p + 8)) * C2_4.s);
    {
      Object[] o = new C2_4[2];
      r = r * 31 + (o instanceof C2_4[] ? 1 : 2) + (o instanceof I2_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + I2_0.K0;
    r = r * 31 + (L.fn((int x) -> C2_4.t(x) + 34, (p ^ 14)) + (p + 5));
    r = r * 31 + ((((E2.values()[p & 3].v(p) + (G2.mk(-p) instanceof I2_1 ? 15 : 16)) + (p + 1)) ^ p) * G2.ai0((p + 2)).i0((p + 2)));
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + L.construct(C2_4.class, p);
    r = r * 31 + (((L.name(int[][].class) + G2.cast3((p ^ 2))) - L.len(new C2_2[-p & 3][2])) ^ (G2.mk(-p) instanceof I2_0 ? 15 : 16));
    r = r * 31 + new Fb2().f((long) p) + (Long) ((L.Fn) new Fb2()).f(5L) + ((L.Both<Long>) new Fb2()).f(6L);
    r = r * 31 + new C2_5(p).new Inner().w(p);
    r = r * 31 + (((G2.ai0((p + 3)).i0((p + 3)) ^ L.sw((p ^ 11))) * G2.ai0((p + 5)).i1((p + 5))) + E2.values()[(p + 6) & 3].v((p + 6)));
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + (((new C2_5(p).a1(p) - C2_4.s) * C2_4.s) - L.len(new C2_4[p & 3][2]));
    r = r * 31 + L.construct(C2_5.class, p);
    r = r * 31 + L.reflect(new C2_5(p), "a1", p);
    r = r * 31 + new C2_0(p).new Inner().w(p);
    r = r * 31 + ((new C2_4.In((p + 5)).w((p + 5)) * (G2.mk((p ^ 7)) instanceof C2_3 ? 5 : 6)) ^ G2.cast4(-p));
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r += Late2.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + I2_2.K2;
    try {
      r += Late2.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((I2_1) L.proxy(I2_1.class)).i2(p);
    r = r * 31 + ((L.sw(-p) ^ G2.ai0(p).i1(p)) + C2_5.s);
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r += Late2.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.construct(C2_0.class, p);
    r = r * 31 + ((I2_0) L.proxy(I2_0.class)).i0(p);
    {
      Object[] o = new C2_3[2];
      r = r * 31 + (o instanceof C2_2[] ? 1 : 2) + (o instanceof I2_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + new Fb2().f((long) p) + (Long) ((L.Fn) new Fb2()).f(5L) + ((L.Both<Long>) new Fb2()).f(6L);
    r = r * 31 + I2_1.K1;
    try {
      r += Late2.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((((G2.ai1(p).i2(p) + E2.values()[(p ^ 1) & 3].v((p ^ 1))) - G2.ai1(-p).i2(-p)) ^ (G2.mk((p ^ 9)) instanceof C2_1 ? 5 : 6)) - G2.as0(p).a1(p));
    try {
      r += Late2.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += Late2.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + ((E2.values()[-p & 3].v(-p) + G2.ai0((p + 4)).i0((p + 4))) + G2.ai0((p ^ 15)).i1((p ^ 15)));
    r = r * 31 + (((G2.as0(p).a1(p) + (p ^ 6)) - L.len(new C2_4[-p & 3][2])) + -p);
    r = r * 31 + ((new C2_4.In(p).w(p) ^ new C2_4((p ^ 14)).a4((p ^ 14))) * G2.ai2((p + 5)).i3((p + 5)));
    r = r * 31 + I2_1.K1;
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((I2_1) L.proxy(I2_1.class)).i2(p);
    try {
      r += new Late2().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.reflect(new C2_1(p), "a0", p);
    try {
      r += Late2.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((I2_1) L.proxy(I2_1.class)).i2(p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

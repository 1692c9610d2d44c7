package w;
/* generated by tools/genlink.py */
interface I13_0 {
  int K0 = Integer.parseInt("60");
  long i0(int p);
  long i1(int p);
}
interface I13_1 {
  int K1 = Integer.parseInt("64");
  long i2(int p);
}
interface I13_2 extends I13_0 {
  int K2 = Integer.parseInt("38");
  long i3(int p);
}
class C13_0 implements I13_0, I13_1, I13_2 {
  static long s = Integer.parseInt("429");
  static final int CONST = 21934;
  static final String TEXT = "C13_0-56";
  long f1;
  int f3;
  C13_0(int p) {
    f1 = p * 5000000000L;
    f3 = p * 3;
  }
  static long t(int p) { return p * 20L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return ((p + 6) - L.sw((p ^ 2))); }
  synchronized long a3(int p) { return ((G13.ai2((p + 4)).i3((p + 4)) * G13.cast5((p ^ 1))) ^ E13.values()[-p & 3].v(-p)); }
  protected long a4(int p) { return (((E13.values()[p & 3].v(p) - E13.values()[(p ^ 8) & 3].v((p ^ 8))) * G13.ai1((p + 5)).i2((p + 5))) ^ new C13_2.In((p ^ 8)).w((p ^ 8))); }
  public long i0(int p) { return ((p + 3) ^ (p + 3)); }
  public final long i1(int p) { return (18024L + E13.values()[(p ^ 7) & 3].v((p ^ 7))); }
  public synchronized long i2(int p) { return (((p ^ G13.ai0(-p).i0(-p)) ^ G13.cast3(-p)) ^ L.name(long.class)); }
  public final long i3(int p) { return (G13.ai1((p + 8)).i2((p + 8)) - "xxx39".length()); }
  private long pv(int p) { return p ^ 100; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C13_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C13_0.this.f1; }
  }
}
class C13_1 implements I13_0, I13_2 {
  static long s = Integer.parseInt("884");
  static final int CONST = 794472;
  static final String TEXT = "C13_1-49";
  int f1;
  Object f2;
  float f3;
  C13_1(int p) {
    f1 = p * 3;
    f2 = TEXT;
    f3 = (float) (p * 7);
  }
  static long t(int p) { return p * 7L + CONST + TEXT.length(); }
  protected synchronized long a2(int p) { return ((L.name(I13_2.class) + G13.cast1(-p)) + L.sw((p + 4))); }
  protected long a4(int p) { return (((G13.ai1(p).i2(p) * (G13.mk(p) instanceof I13_0 ? 15 : 16)) + G13.ai1(-p).i2(-p)) * G13.ai0(p).i1(p)); }
  public long i0(int p) { return (-p - -p); }
  public long i1(int p) { return ((G13.ai0((p + 4)).i0((p + 4)) * G13.cast2(-p)) + E13.values()[(p ^ 2) & 3].v((p ^ 2))); }
  public long i3(int p) { return (G13.ai0((p ^ 10)).i0((p ^ 10)) * E13.values()[-p & 3].v(-p)); }
  private long pv(int p) { return p ^ 700; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C13_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C13_1.this.f1; }
  }
}
class C13_2 extends C13_1 {
  static long s = C13_0.s + 81;
  static final int CONST = 711637;
  static final String TEXT = "C13_2-90";
  float f0;
  float f1;
  double f2;
  char f3;
  C13_2(int p) {
    super(p * 5);
    f0 = (float) (p * 7);
    f1 = (float) (p * 7);
    f2 = (double) (p * 7);
    f3 = (char) (p * 7);
  }
  static long t(int p) { return p * 35L + CONST + TEXT.length(); }
  long a0(int p) { return ((C13_0.s + (long) this.f2) - E13.values()[(p ^ 5) & 3].v((p ^ 5))); }
  synchronized long a3(int p) { return ((((p + 2) * super.a2((p + 2))) ^ G13.ai0((p + 4)).i0((p + 4))) ^ G13.ai0(-p).i0(-p)); }
  public long i0(int p) { return (((p ^ 14) + (G13.mk(p) instanceof I13_2 ? 15 : 16)) + E13.values()[(p + 4) & 3].v((p + 4))); }
  private long pv(int p) { return p ^ 836; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C13_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C13_2.this.f1; }
  }
}
class C13_3 extends C13_2 implements I13_2 {
  static long s = Integer.parseInt("342");
  static final int CONST = 179414;
  static final String TEXT = "C13_3-1";
  char f1;
  char f2;
  float f3;
  C13_3(int p) {
    super(p * 5);
    f1 = (char) (p * 7);
    f2 = (char) (p * 7);
    f3 = (float) (p * 7);
  }
  static long t(int p) { return p * 11L + CONST + TEXT.length(); }
  public synchronized long a1(int p) { return (((p ^ 12) * new C13_4.In(p).w(p)) + (p + 5)); }
  public long i0(int p) { return ((L.fn((int x) -> x * 67L + p, p) - "xxxx73".length()) + new C13_2((p ^ 13)).f3); }
  public long i1(int p) { return (((-p ^ G13.ai0(-p).i0(-p)) + new C13_4.In(-p).w(-p)) * (p ^ 11)); }
  public synchronized long i3(int p) { return (G13.cast0((p + 1)) ^ (p + 4)); }
  private long pv(int p) { return p ^ 565; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C13_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C13_1) C13_3.this).f1; }
  }
}
class C13_4 extends C13_2 implements I13_0 {
  static long s = Integer.parseInt("848");
  static final int CONST = 21405;
  static final String TEXT = "C13_4-47";
  Object f0;
  int f2;
  Object f3;
  C13_4(int p) {
    super(p * 1);
    f0 = TEXT;
    f2 = p * 3;
    f3 = "o" + p;
  }
  static long t(int p) { return p * 14L + CONST + TEXT.length(); }
  long a0(int p) { return (((C13_0.t(-p) + C13_2.s) * p) * G13.ai0((p ^ 14)).i0((p ^ 14))); }
  private long pv(int p) { return p ^ 574; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C13_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C13_2) C13_4.this).f3; }
  }
}
class C13_5 extends C13_3 {
  static long s = Integer.parseInt("736");
  static final int CONST = 991119;
  static final String TEXT = "C13_5-48";
  double f0;
  Object f1;
  long f2;
  boolean f3;
  C13_5(int p) {
    super(p * 5);
    f0 = (double) (p * 7);
    f1 = "o" + p;
    f2 = p * 5000000000L;
    f3 = (p & 1) == 0;
  }
  static long t(int p) { return p * 7L + CONST + TEXT.length(); }
  public synchronized long a1(int p) { return ((L.name(int[][].class) + 91194) - L.sw((p + 5))); }
  protected long a2(int p) { return (((G13.mk(p) instanceof I13_2 ? 15 : 16) + G13.ai1(-p).i2(-p)) * (long) ((C13_1) this).f3); }
  synchronized long a3(int p) { return (L.name(int[][].class) ^ -p); }
  public final long i1(int p) { return ((G13.mk(p) instanceof C13_2 ? 5 : 6) + (p + 4)); }
  public final long i3(int p) { return (((80501 ^ (G13.mk(p) instanceof C13_3 ? 5 : 6)) * G13.as3(p).a2(p)) + p); }
  private long pv(int p) { return p ^ 593; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C13_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C13_2) C13_5.this).f1; }
  }
}
enum E13 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 5; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb13 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 5; }
}
public class G13 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C13_3(p);
    case 1: return new C13_2(p);
    case 2: return new C13_4(p);
    case 3: return new C13_4(p);
    case 4: return null;
    case 5: return new C13_1(p);
    case 6: return null;
    default: return new C13_1(p);
    }
  }
  static C13_0 as0(int p) {
    return new C13_0(p);
  }
  static long cast0(int p) {
    try {
      C13_0 c = (C13_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C13_1 as1(int p) {
    if ((p & 3) == 2) return new C13_1(p + 1);
    if ((p & 3) == 0) return new C13_2(p + 1);
    if ((p & 3) == 3) return new C13_3(p + 1);
    if ((p & 3) == 2) return new C13_4(p + 1);
    return new C13_5(p);
  }
  static long cast1(int p) {
    try {
      C13_1 c = (C13_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C13_2 as2(int p) {
    if ((p & 3) == 1) return new C13_2(p + 1);
    if ((p & 3) == 1) return new C13_3(p + 1);
    if ((p & 3) == 1) return new C13_4(p + 1);
    return new C13_5(p);
  }
  static long cast2(int p) {
    try {
      C13_2 c = (C13_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C13_3 as3(int p) {
    if ((p & 3) == 0) return new C13_3(p + 1);
    return new C13_5(p);
  }
  static long cast3(int p) {
    try {
      C13_3 c = (C13_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C13_4 as4(int p) {
    return new C13_4(p);
  }
  static long cast4(int p) {
    try {
      C13_4 c = (C13_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C13_5 as5(int p) {
    return new C13_5(p);
  }
  static long cast5(int p) {
    try {
      C13_5 c = (C13_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I13_0 ai0(int p) {
    if ((p & 3) == 2) return new C13_0(p + 2);
    if ((p & 3) == 3) return new C13_1(p + 2);
    if ((p & 3) == 0) return new C13_2(p + 2);
    if ((p & 3) == 0) return new C13_3(p + 2);
    if ((p & 3) == 1) return new C13_4(p + 2);
    return new C13_5(p);
  }
  static I13_1 ai1(int p) {
    return new C13_0(p);
  }
  static I13_2 ai2(int p) {
    if ((p & 3) == 2) return new C13_0(p + 2);
    if ((p & 3) == 1) return new C13_1(p + 2);
    if ((p & 3) == 3) return new C13_2(p + 2);
    if ((p & 3) == 2) return new C13_3(p + 2);
    if ((p & 3) == 2) return new C13_4(p + 2);
    return new C13_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + new Fb13().f((long) p) + (Long) ((L.Fn) new Fb13()).f(5L) + ((L.Both<Long>) new Fb13()).f(6L);
    r = r * 31 + (((L.sw(-p) + L.fn((int x) -> x * 99L + p, p)) ^ (p + 6)) ^ 33083L);
    r = r * 31 + ((((-p * new C13_2.In(-p).w(-p)) - (G13.mk(-p) instanceof I13_2 ? 15 : 16)) + "x82".length()) - (G13.mk(p) instanceof C13_4 ? 5 : 6));
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + L.construct(C13_5.class, p);
    r = r * 31 + I13_1.K1;
    r = r * 31 + ((G13.ai0((p + 9)).i1((p + 9)) + E13.values()[-p & 3].v(-p)) + new C13_0((p + 6)).f1);
    r = r * 31 + ((I13_0) L.proxy(I13_0.class)).i1(p);
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + (((L.sw((p ^ 3)) + -p) * (p + 8)) ^ new C13_0((p + 9)).f1);
    {
      Object[] o = new C13_3[2];
      r = r * 31 + (o instanceof C13_0[] ? 1 : 2) + (o instanceof I13_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((((G13.ai0((p ^ 1)).i1((p ^ 1)) + G13.ai0((p + 4)).i1((p + 4))) ^ G13.ai0(p).i1(p)) ^ G13.ai1((p ^ 10)).i2((p ^ 10))) * C13_3.t(-p));
    r = r * 31 + ((((p + 5) - C13_3.s) ^ new C13_3(p).a1(p)) ^ "k8".hashCode());
    r = r * 31 + new C13_3(p).new Inner().w(p);
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r += new Late1().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    {
      Object[] o = new C13_1[2];
      r = r * 31 + (o instanceof C13_3[] ? 1 : 2) + (o instanceof I13_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + I13_2.K2;
    r = r * 31 + ((((G13.mk(p) instanceof C13_1 ? 5 : 6) + (p ^ 3)) - new C13_4.In((p ^ 9)).w((p ^ 9))) ^ G13.ai0(-p).i1(-p));
    r = r * 31 + L.reflect(new C13_2(p), "a0", p);
    r = r * 31 + (((p + 1) - G13.ai2(-p).i3(-p)) * new C13_5(p).a0(p));
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + ((((C13_0.s - (G13.mk(-p) instanceof I13_2 ? 15 : 16)) - G13.as1(-p).a4(-p)) - E13.values()[(p + 9) & 3].v((p + 9))) + p);
    r = r * 31 + L.construct(C13_1.class, p);
    {
      Object[] o = new C13_0[2];
      r = r * 31 + (o instanceof C13_5[] ? 1 : 2) + (o instanceof I13_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    {
      Object[] o = new C13_4[2];
      r = r * 31 + (o instanceof C13_4[] ? 1 : 2) + (o instanceof I13_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((G13.cast2((p + 4)) - G13.ai1(p).i2(p)) * G13.cast0((p + 5)));
    try {
      r += Late1.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += new Late1().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new C13_3(p).new Inner().w(p);
    r = r * 31 + ((((L.name(C13_1.class) ^ G13.ai2(-p).i3(-p)) * L.len(new C13_1[-p & 3][2])) ^ L.fn(C13_3::t, -p)) ^ L.sw((p ^ 3)));
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + (E13.values()[(p ^ 2) & 3].v((p ^ 2)) ^ "k5".hashCode());
    r = r * 31 + L.reflect(new C13_4(p), "a2", p);
    r = r * 31 + I13_1.K1;
    r = r * 31 + new Fb13().f((long) p) + (Long) ((L.Fn) new Fb13()).f(5L) + ((L.Both<Long>) new Fb13()).f(6L);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((I13_0) L.proxy(I13_0.class)).i0(p);
    try {
      r += new Late1().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new C13_5(p).new Inner().w(p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

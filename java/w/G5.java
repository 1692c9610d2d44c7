package w;
/* generated by tools/genlink.py */
interface I5_0 {
  int K0 = Integer.parseInt("57");
  long i0(int p);
  long i1(int p);
}
interface I5_1 {
  int K1 = Integer.parseInt("43");
  default long i2(int p) { return ((L.sw(p) + p) - C5_5.t((p + 9))); }
}
interface I5_2 extends I5_1 {
  int K2 = Integer.parseInt("47");
  long i3(int p);
}
class C5_0 {
  static long s = Integer.parseInt("284");
  static final int CONST = 73867;
  static final String TEXT = "C5_0-28";
  long f3;
  C5_0(int p) {
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 33L + CONST + TEXT.length(); }
  public long a1(int p) { return ((p - (G5.mk(p) instanceof I5_1 ? 15 : 16)) * C5_2.t(p)); }
  public long a3(int p) { return ((G5.ai2((p + 8)).i3((p + 8)) * L.fn((int x) -> C5_5.t(x) + 90, -p)) * this.f3); }
  protected long a4(int p) { return (((52311 + G5.ai2(-p).i3(-p)) ^ (G5.mk((p + 8)) instanceof C5_3 ? 5 : 6)) ^ new C5_3((p ^ 8)).f1); }
  private long pv(int p) { return p ^ 842; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C5_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C5_0.this.f3; }
  }
}
class C5_1 extends C5_0 implements I5_0, I5_2 {
  static long s = Integer.parseInt("115");
  static final int CONST = 91070;
  static final String TEXT = "C5_1-77";
  float f2;
  String f3;
  C5_1(int p) {
    super(p * 2);
    f2 = (float) (p * 7);
    f3 = "v" + p;
  }
  static long t(int p) { return p * 41L + CONST + TEXT.length(); }
  public long a0(int p) { return (((-p * (p ^ 8)) + (G5.mk((p + 3)) instanceof I5_0 ? 15 : 16)) - (G5.mk(p) instanceof I5_1 ? 15 : 16)); }
  protected long a2(int p) { return (((C5_0) this).f3 + E5.values()[(p + 5) & 3].v((p + 5))); }
  public long a3(int p) { return ((p * (G5.mk((p ^ 5)) instanceof I5_0 ? 15 : 16)) ^ ((C5_0) this).f3); }
  protected synchronized long a4(int p) { return (((p + 9) + C5_0.s) - G5.as5(-p).a0(-p)); }
  public long i0(int p) { return (((p + 7) - C5_3.s) * (p + 4)); }
  public synchronized long i1(int p) { return ((p ^ 13) - 31957L); }
  public long i3(int p) { return ((((long) new C5_1((p ^ 7)).f2 * this.f3.length()) - (G5.mk((p ^ 14)) instanceof C5_4 ? 5 : 6)) - C5_0.t(p)); }
  private long pv(int p) { return p ^ 330; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C5_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C5_1.this.f3.length(); }
  }
}
class C5_2 extends C5_1 implements I5_0, I5_1 {
  static long s = C5_1.s + 63;
  static final int CONST = 578325;
  static final String TEXT = "C5_2-47";
  double f0;
  Object f1;
  boolean f2;
  C5_2(int p) {
    super(p * 5);
    f0 = (double) (p * 7);
    f1 = TEXT;
    f2 = (p & 1) == 0;
  }
  static long t(int p) { return p * 40L + CONST + TEXT.length(); }
  public long a1(int p) { return ((p ^ 11) + G5.ai0(p).i1(p)); }
  public synchronized long i1(int p) { return (((-p + (p ^ 4)) - 96896L) + p); }
  private long pv(int p) { return p ^ 906; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C5_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C5_1) C5_2.this).f3.length(); }
  }
}
class C5_3 implements I5_0, I5_1, I5_2 {
  static long s = Integer.parseInt("582");
  static final int CONST = 695203;
  static final String TEXT = "C5_3-62";
  String f0;
  char f1;
  C5_3(int p) {
    f0 = "v" + p;
    f1 = (char) (p * 7);
  }
  static long t(int p) { return p * 26L + CONST + TEXT.length(); }
  public long a0(int p) { return (G5.cast3(-p) ^ C5_1.t((p ^ 6))); }
  public synchronized long a3(int p) { return (((L.len(new C5_3[(p ^ 9) & 3][2]) + G5.cast3(-p)) - G5.ai0(p).i0(p)) - new C5_5.In(-p).w(-p)); }
  public synchronized long i0(int p) { return (((C5_4.t((p + 8)) - p) * G5.cast3((p + 7))) ^ C5_4.s); }
  public long i1(int p) { return ((new C5_5(-p).a0(-p) + new C5_3(p).a0(p)) - -p); }
  public long i3(int p) { return ((-p * this.f0.length()) + L.name(int[][].class)); }
  private long pv(int p) { return p ^ 19; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C5_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C5_3.this.f1; }
  }
}
class C5_4 extends C5_2 implements I5_2 {
  static long s = C5_0.s + 3;
  static final int CONST = 232816;
  static final String TEXT = "C5_4-30";
  byte f1;
  String f2;
  C5_4(int p) {
    super(p * 5);
    f1 = (byte) (p * 7);
    f2 = "v" + p;
  }
  static long t(int p) { return p * 42L + CONST + TEXT.length(); }
  public long a1(int p) { return ((((G5.mk((p ^ 7)) instanceof C5_4 ? 5 : 6) ^ C5_0.t(-p)) ^ L.h(((C5_2) this).f1)) + (p + 5)); }
  public long a3(int p) { return (((E5.values()[(p + 1) & 3].v((p + 1)) ^ (G5.mk(p) instanceof C5_1 ? 5 : 6)) ^ new C5_5((p + 9)).a0((p + 9))) + L.h(new C5_2((p + 3)).f1)); }
  protected synchronized long a4(int p) { return (((26492 - new C5_5((p + 8)).f2) - C5_5.t((p + 4))) + p); }
  public long i1(int p) { return ((((G5.mk((p ^ 3)) instanceof C5_3 ? 5 : 6) * new C5_4(-p).a0(-p)) + 74561) ^ (long) ((C5_1) this).f2); }
  public final long i3(int p) { return (((L.fn((int x) -> x * 65L + p, (p + 6)) - (G5.mk((p + 1)) instanceof C5_0 ? 5 : 6)) ^ G5.ai0(p).i1(p)) - (G5.mk((p ^ 6)) instanceof C5_0 ? 5 : 6)); }
  private long pv(int p) { return p ^ 178; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C5_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C5_4.this.f1; }
  }
}
class C5_5 extends C5_3 implements I5_2 {
  static long s = Integer.parseInt("415");
  static final int CONST = 992353;
  static final String TEXT = "C5_5-31";
  int f2;
  Object f3;
  C5_5(int p) {
    super(p * 5);
    f2 = p * 3;
    f3 = TEXT;
  }
  static long t(int p) { return p * 50L + CONST + TEXT.length(); }
  public long a1(int p) { return (((G5.ai0(-p).i0(-p) + G5.as3(p).a0(p)) ^ L.sw(p)) * (G5.mk((p ^ 8)) instanceof I5_0 ? 15 : 16)); }
  protected long a2(int p) { return (G5.cast0((p ^ 8)) - (p ^ 10)); }
  public synchronized long a3(int p) { return (G5.ai1(-p).i2(-p) ^ G5.ai2((p ^ 15)).i3((p ^ 15))); }
  protected long a4(int p) { return ("xxxx25".length() - C5_1.s); }
  public final long i0(int p) { return (C5_3.t((p + 1)) - p); }
  public long i1(int p) { return ((G5.mk(p) instanceof I5_1 ? 15 : 16) * new C5_2.In((p ^ 5)).w((p ^ 5))); }
  public synchronized long i2(int p) { return ((new C5_3.In(p).w(p) ^ p) ^ L.name(C5_1.class)); }
  public final long i3(int p) { return (-p + new C5_3((p + 5)).f1); }
  private long pv(int p) { return p ^ 205; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C5_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C5_3) C5_5.this).f0.length(); }
  }
}
enum E5 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 6; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb5 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 3; }
}
public class G5 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C5_5(p);
    case 1: return new C5_2(p);
    case 2: return null;
    case 3: return new C5_0(p);
    case 4: return new C5_4(p);
    case 5: return new C5_0(p);
    case 6: return new C5_1(p);
    default: return new C5_5(p);
    }
  }
  static C5_0 as0(int p) {
    if ((p & 3) == 1) return new C5_0(p + 1);
    if ((p & 3) == 2) return new C5_1(p + 1);
    if ((p & 3) == 1) return new C5_2(p + 1);
    return new C5_4(p);
  }
  static long cast0(int p) {
    try {
      C5_0 c = (C5_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C5_1 as1(int p) {
    if ((p & 3) == 2) return new C5_1(p + 1);
    if ((p & 3) == 3) return new C5_2(p + 1);
    return new C5_4(p);
  }
  static long cast1(int p) {
    try {
      C5_1 c = (C5_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C5_2 as2(int p) {
    if ((p & 3) == 2) return new C5_2(p + 1);
    return new C5_4(p);
  }
  static long cast2(int p) {
    try {
      C5_2 c = (C5_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C5_3 as3(int p) {
    if ((p & 3) == 1) return new C5_3(p + 1);
    return new C5_5(p);
  }
  static long cast3(int p) {
    try {
      C5_3 c = (C5_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C5_4 as4(int p) {
    return new C5_4(p);
  }
  static long cast4(int p) {
    try {
      C5_4 c = (C5_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C5_5 as5(int p) {
    return new C5_5(p);
  }
  static long cast5(int p) {
    try {
      C5_5 c = (C5_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I5_0 ai0(int p) {
    if ((p & 3) == 2) return new C5_1(p + 2);
    if ((p & 3) == 1) return new C5_2(p + 2);
    if ((p & 3) == 0) return new C5_3(p + 2);
    if ((p & 3) == 2) return new C5_4(p + 2);
    return new C5_5(p);
  }
  static I5_1 ai1(int p) {
    if ((p & 3) == 3) return new C5_1(p + 2);
    if ((p & 3) == 0) return new C5_2(p + 2);
    if ((p & 3) == 2) return new C5_3(p + 2);
    if ((p & 3) == 2) return new C5_4(p + 2);
    return new C5_5(p);
  }
  static I5_2 ai2(int p) {
    if ((p & 3) == 2) return new C5_1(p + 2);
    if ((p & 3) == 0) return new C5_2(p + 2);
    if ((p & 3) == 1) return new C5_3(p + 2);
    if ((p & 3) == 2) return new C5_4(p + 2);
    return new C5_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + (((G5.cast0(p) + E5.values()[(p + 7) & 3].v((p + 7))) - G5.cast4((p ^ 8))) + (p + 3));
    r = r * 31 + ((I5_0) L.proxy(I5_0.class)).i0(p);
    r = r * 31 + I5_1.K1;
    r = r * 31 + ("4".length() + (G5.mk(p) instanceof C5_1 ? 5 : 6));
    r = r * 31 + ((((G5.mk(-p) instanceof C5_3 ? 5 : 6) * L.h(new C5_2(p).f1)) - G5.ai0(-p).i0(-p)) + G5.ai0((p + 9)).i1((p + 9)));
    r = r * 31 + (G5.as1((p + 5)).a0((p + 5)) ^ new C5_2(-p).a4(-p));
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r += Late1.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += Late1.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new Fb5().f((long) p) + (Long) ((L.Fn) new Fb5()).f(5L) + ((L.Both<Long>) new Fb5()).f(6L);
    r = r * 31 + I5_2.K2;
    try {
      r += new Late1().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + L.reflect(new C5_4(p), "a4", p);
    r = r * 31 + I5_1.K1;
    try {
      r += Late1.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((((L.name(C5_3[].class) ^ (G5.mk((p ^ 3)) instanceof I5_2 ? 15 : 16)) ^ G5.ai0(p).i1(p)) * new C5_0.In((p + 4)).w((p + 4))) + new C5_0.In((p + 5)).w((p + 5)));
    r = r * 31 + new Fb5().f((long) p) + (Long) ((L.Fn) new Fb5()).f(5L) + ((L.Both<Long>) new Fb5()).f(6L);
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + I5_2.K2;
    r = r * 31 + ((((L.name(C5_2[].class) ^ 60677) ^ new C5_0((p ^ 9)).f3) * (p + 9)) * new C5_4((p ^ 15)).f1);
    r = r * 31 + ((G5.cast5(p) + G5.ai2(p).i3(p)) * 46362);
    r = r * 31 + L.construct(C5_2.class, p);
    {
      Object[] o = new C5_2[2];
      r = r * 31 + (o instanceof C5_3[] ? 1 : 2) + (o instanceof I5_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((((L.name(C5_0[].class) - C5_1.t(-p)) ^ new C5_2((p + 8)).a2((p + 8))) - G5.ai2((p + 6)).i3((p + 6))) ^ L.len(new C5_4[-p & 3][2]));
    return r;
  }
  static long e4(int p) {
    long r = 4;
    {
      Object[] o = new C5_1[2];
      r = r * 31 + (o instanceof C5_2[] ? 1 : 2) + (o instanceof I5_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + new Fb5().f((long) p) + (Long) ((L.Fn) new Fb5()).f(5L) + ((L.Both<Long>) new Fb5()).f(6L);
    try {
      r += new Late1().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + ((G5.mk((p ^ 15)) instanceof C5_3 ? 5 : 6) + ((C5_3) new C5_5((p ^ 9))).f1);
    r = r * 31 + new C5_0(p).new Inner().w(p);
    {
      Object[] o = new C5_3[2];
      r = r * 31 + (o instanceof C5_5[] ? 1 : 2) + (o instanceof I5_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + (G5.ai0(-p).i1(-p) - (G5.mk(p) instanceof I5_1 ? 15 : 16));
    r = r * 31 + ((((G5.ai0((p + 7)).i0((p + 7)) + (p ^ 12)) * (p ^ 11)) + G5.ai1((p ^ 1)).i2((p ^ 1))) - E5.values()[-p & 3].v(-p));
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + ((I5_0) L.proxy(I5_0.class)).i1(p);
    try {
      r += Late1.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.construct(C5_4.class, p);
    r = r * 31 + new Fb5().f((long) p) + (Long) ((L.Fn) new Fb5()).f(5L) + ((L.Both<Long>) new Fb5()).f(6L);
    r = r * 31 + ((I5_2) L.proxy(I5_2.class)).i3(p);
    r = r * 31 + (-p - E5.values()[(p ^ 13) & 3].v((p ^ 13)));
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((((-p - L.name(C5_0.class)) + (p ^ 2)) * "k0".hashCode()) * C5_0.t(p));
    r = r * 31 + new C5_4(p).new Inner().w(p);
    {
      Object[] o = new C5_3[2];
      r = r * 31 + (o instanceof C5_4[] ? 1 : 2) + (o instanceof I5_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    {
      Object[] o = new C5_1[2];
      r = r * 31 + (o instanceof C5_1[] ? 1 : 2) + (o instanceof I5_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((((L.sw((p + 3)) - L.sw(p)) ^ L.h(new C5_2(-p).f1)) - E5.values()[(p ^ 2) & 3].v((p ^ 2))) - G5.ai2(-p).i3(-p));
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

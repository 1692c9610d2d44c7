package w;
/* generated by tools/genlink.py */
interface I12_0 {
  int K0 = Integer.parseInt("33");
  default long i0(int p) { return ((p - -p) * L.sw((p + 6))); }
  long i1(int p);
}
interface I12_1 extends I12_0 {
  int K1 = Integer.parseInt("80");
  long i2(int p);
}
interface I12_2 extends I12_1 {
  int K2 = Integer.parseInt("53");
  default long i3(int p) { return (((G12.ai0(p).i1(p) * -p) * p) - E12.values()[(p + 3) & 3].v((p + 3))); }
}
abstract class C12_0 implements I12_1, I12_2 {
  static long s = Integer.parseInt("571");
  static final int CONST = 907611;
  static final String TEXT = "C12_0-87";
  float f0;
  double f1;
  String f2;
  float f3;
  C12_0(int p) {
    f0 = (float) (p * 7);
    f1 = (double) (p * 7);
    f2 = "v" + p;
    f3 = (float) (p * 7);
  }
  static long t(int p) { return p * 43L + CONST + TEXT.length(); }
  protected synchronized long a1(int p) { return ((G12.as3(-p).a0(-p) + E12.values()[-p & 3].v(-p)) - 32993); }
  protected abstract long a2(int p);
  protected long a4(int p) { return (((C12_1.s - G12.ai0((p + 1)).i1((p + 1))) + E12.values()[(p ^ 9) & 3].v((p ^ 9))) - C12_0.s); }
  public synchronized long i3(int p) { return (53384 - G12.ai0(p).i0(p)); }
  private long pv(int p) { return p ^ 880; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C12_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C12_0.this.f1; }
  }
}
class C12_1 extends C12_0 implements I12_2 {
  static long s = C12_0.s + 7;
  static final int CONST = 669930;
  static final String TEXT = "C12_1-5";
  double f0;
  C12_1(int p) {
    super(p * 1);
    f0 = (double) (p * 7);
  }
  static long t(int p) { return p * 47L + CONST + TEXT.length(); }
  protected long a2(int p) { return (((G12.cast3((p + 4)) + L.len(new C12_3[-p & 3][2])) * E12.values()[(p + 7) & 3].v((p + 7))) * (p ^ 10)); }
  protected synchronized long a4(int p) { return (((G12.as3(p).a2(p) ^ (p + 2)) * G12.ai1(p).i2(p)) - C12_3.t(-p)); }
  public synchronized long i1(int p) { return (C12_4.s - C12_0.s); }
  public long i2(int p) { return ((G12.cast0(-p) ^ L.name(C12_3[].class)) ^ 57518L); }
  private long pv(int p) { return p ^ 722; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C12_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C12_0) C12_1.this).f2.length(); }
  }
}
class C12_2 extends C12_0 implements I12_1, I12_2 {
  static long s = C12_1.s + 84;
  static final int CONST = 26831;
  static final String TEXT = "C12_2-48";
  float f0;
  char f2;
  C12_2(int p) {
    super(p * 5);
    f0 = (float) (p * 7);
    f2 = (char) (p * 7);
  }
  static long t(int p) { return p * 45L + CONST + TEXT.length(); }
  protected long a1(int p) { return ((((p ^ 5) ^ L.name(I12_2.class)) * ((C12_0) this).f2.length()) - new C12_4((p + 7)).a0((p + 7))); }
  protected long a2(int p) { return ((new C12_0.In((p + 4)).w((p + 4)) + new C12_5((p + 2)).a0((p + 2))) - (G12.mk((p + 1)) instanceof C12_0 ? 5 : 6)); }
  long a3(int p) { return (((G12.ai0((p + 5)).i1((p + 5)) - "xxxx12".length()) - new C12_3.In((p + 5)).w((p + 5))) + new C12_5.In(p).w(p)); }
  protected long a4(int p) { return (((new C12_5((p ^ 3)).a0((p ^ 3)) - G12.ai0((p + 3)).i1((p + 3))) ^ G12.ai1((p + 2)).i2((p + 2))) ^ G12.ai2((p + 8)).i3((p + 8))); }
  public final long i1(int p) { return (((G12.mk(-p) instanceof C12_0 ? 5 : 6) ^ (p ^ 7)) ^ p); }
  public final long i2(int p) { return ((G12.ai0(-p).i1(-p) - G12.ai0((p + 9)).i1((p + 9))) ^ this.f2); }
  private long pv(int p) { return p ^ 686; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C12_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C12_0) C12_2.this).f3; }
  }
}
class C12_3 {
  static long s = C12_2.s + 99;
  static final int CONST = 133330;
  static final String TEXT = "C12_3-79";
  int f0;
  int f3;
  C12_3(int p) {
    f0 = p * 3;
    f3 = p * 3;
  }
  static long t(int p) { return p * 22L + CONST + TEXT.length(); }
  public long a0(int p) { return ("k4".hashCode() * "92".length()); }
  protected long a2(int p) { return (p + ((C12_3) new C12_5(-p)).f0); }
  private long pv(int p) { return p ^ 867; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C12_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C12_3.this.f3; }
  }
}
class C12_4 extends C12_3 {
  static long s = C12_0.s + 2;
  static final int CONST = 232899;
  static final String TEXT = "C12_4-22";
  double f1;
  float f2;
  C12_4(int p) {
    super(p * 4);
    f1 = (double) (p * 7);
    f2 = (float) (p * 7);
  }
  static long t(int p) { return p * 42L + CONST + TEXT.length(); }
  protected synchronized long a2(int p) { return (G12.as1(p).a1(p) * G12.ai0(p).i1(p)); }
  private long pv(int p) { return p ^ 800; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C12_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C12_3) C12_4.this).f0; }
  }
}
class C12_5 extends C12_4 implements I12_2 {
  static long s = Integer.parseInt("868");
  static final int CONST = 833606;
  static final String TEXT = "C12_5-72";
  short f1;
  float f2;
  boolean f3;
  C12_5(int p) {
    super(p * 5);
    f1 = (short) (p * 7);
    f2 = (float) (p * 7);
    f3 = (p & 1) == 0;
  }
  static long t(int p) { return p * 50L + CONST + TEXT.length(); }
  public long a0(int p) { return (G12.cast5(p) - (p + 7)); }
  protected long a1(int p) { return ((G12.ai0((p + 3)).i0((p + 3)) * ((C12_3) new C12_5((p ^ 7))).f0) - C12_1.t((p + 9))); }
  protected long a4(int p) { return ((L.sw((p ^ 4)) * G12.ai1(p).i2(p)) + G12.ai2(p).i3(p)); }
  public final long i1(int p) { return (((G12.mk((p + 5)) instanceof C12_3 ? 5 : 6) + L.len(new C12_4[-p & 3][2])) ^ p); }
  public synchronized long i2(int p) { return ((p ^ 5) + G12.cast5((p + 8))); }
  private long pv(int p) { return p ^ 580; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C12_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C12_3) C12_5.this).f0; }
  }
}
enum E12 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 2; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb12 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 5; }
}
public class G12 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C12_3(p);
    case 1: return new C12_1(p);
    case 2: return new C12_2(p);
    case 3: return new C12_1(p);
    case 4: return new C12_1(p);
    case 5: return new C12_5(p);
    case 6: return new C12_4(p);
    default: return new C12_4(p);
    }
  }
  static C12_0 as0(int p) {
    if ((p & 3) == 2) return new C12_1(p + 1);
    return new C12_2(p);
  }
  static long cast0(int p) {
    try {
      C12_0 c = (C12_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C12_1 as1(int p) {
    return new C12_1(p);
  }
  static long cast1(int p) {
    try {
      C12_1 c = (C12_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C12_2 as2(int p) {
    return new C12_2(p);
  }
  static long cast2(int p) {
    try {
      C12_2 c = (C12_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C12_3 as3(int p) {
    if ((p & 3) == 2) return new C12_3(p + 1);
    if ((p & 3) == 1) return new C12_4(p + 1);
    return new C12_5(p);
  }
  static long cast3(int p) {
    try {
      C12_3 c = (C12_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C12_4 as4(int p) {
    if ((p & 3) == 1) return new C12_4(p + 1);
    return new C12_5(p);
  }
  static long cast4(int p) {
    try {
      C12_4 c = (C12_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C12_5 as5(int p) {
    return new C12_5(p);
  }
  static long cast5(int p) {
    try {
      C12_5 c = (C12_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I12_0 ai0(int p) {
    if ((p & 3) == 2) return new C12_1(p + 2);
    if ((p & 3) == 0) return new C12_2(p + 2);
    return new C12_5(p);
  }
  static I12_1 ai1(int p) {
    if ((p & 3) == 1) return new C12_1(p + 2);
    if ((p & 3) == 3) return new C12_2(p + 2);
    return new C12_5(p);
  }
  static I12_2 ai2(int p) {
    if ((p & 3) == 2) return new C12_1(p + 2);
    if ((p & 3) == 2) return new C12_2(p + 2);
    return new C12_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + new Fb12().f((long) p) + (Long) ((L.Fn) new Fb12()).f(5L) + ((L.Both<Long>) new Fb12()).f(6L);
    r = r * 31 + I12_1.K1;
    r = r * 31 + (G12.as3((p ^ 1)).a0((p ^ 1)) - C12_0.s);
    {
      Object[] o = new C12_2[2];
      r = r * 31 + (o instanceof C12_4[] ? 1 : 2) + (o instanceof I12_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + L.reflect(new C12_4(p), "a0", p);
    try {
      r += new Late0(p).virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((G12.ai2(p).i3(p) * G12.cast0(-p)) - G12.ai0((p ^ 14)).i1((p ^ 14)));
    {
      Object[] o = new C12_3[2];
      r = r * 31 + (o instanceof C12_0[] ? 1 : 2) + (o instanceof I12_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + (E12.values()[p & 3].v(p) - (long) ((C12_0) new C12_1(-p)).f1);
    r = r * 31 + I12_1.K1;
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + (((G12.mk(-p) instanceof I12_2 ? 15 : 16) ^ L.name(C12_0.class)) ^ G12.ai0((p + 5)).i1((p + 5)));
    try {
      r += Late0.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (((G12.ai0((p ^ 10)).i1((p ^ 10)) + (G12.mk(-p) instanceof I12_0 ? 15 : 16)) * G12.ai0((p + 9)).i0((p + 9))) + C12_4.t((p ^ 10)));
    r = r * 31 + new C12_1(p).new Inner().w(p);
    r = r * 31 + ((I12_2) L.proxy(I12_2.class)).i3(p);
    r = r * 31 + (((G12.as5(-p).a4(-p) * (G12.mk((p ^ 9)) instanceof C12_4 ? 5 : 6)) + (G12.mk(-p) instanceof I12_0 ? 15 : 16)) ^ L.len(new C12_2[-p & 3][2]));
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + new C12_1(p).new Inner().w(p);
    try {
      r += Late0.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (C12_1.s * "k0".hashCode());
    r = r * 31 + ((((G12.cast3(p) ^ new C12_2.In((p ^ 11)).w((p ^ 11))) * new C12_1(-p).a4(-p)) - G12.ai2(p).i3(p)) ^ G12.ai0(p).i1(p));
    r = r * 31 + ((((G12.ai0(p).i0(p) - C12_0.t((p + 5))) * G12.as1((p + 4)).a1((p + 4))) * new C12_2(-p).a3(-p)) - (p + 6));
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + L.reflect(new C12_1(p), "a4", p);
    r = r * 31 + ((C12_0.t(p) - E12.values()[-p & 3].v(-p)) - (long) ((C12_0) new C12_1((p ^ 8))).f1);
    r = r * 31 + (G12.as2((p ^ 7)).a4((p ^ 7)) * new C12_5(p).a0(p));
    r = r * 31 + L.reflect(new C12_2(p), "a4", p);
    {
      Object[] o = new C12_4[2];
      r = r * 31 + (o instanceof C12_3[] ? 1 : 2) + (o instanceof I12_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + new C12_5(p).new Inner().w(p);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + new Fb12().f((long) p) + (Long) ((L.Fn) new Fb12()).f(5L) + ((L.Both<Long>) new Fb12()).f(6L);
    r = r * 31 + ((67097L * L.name(C12_3.class)) + (p ^ 12));
    r = r * 31 + (G12.ai0((p ^ 10)).i0((p ^ 10)) - C12_3.t(p));
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + (((G12.cast5(p) + (G12.mk(p) instanceof C12_1 ? 5 : 6)) - p) + L.name(int[][].class));
    r = r * 31 + ((I12_0) L.proxy(I12_0.class)).i1(p);
    {
      Object[] o = new C12_3[2];
      r = r * 31 + (o instanceof C12_2[] ? 1 : 2) + (o instanceof I12_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + (new C12_4.In((p + 6)).w((p + 6)) ^ L.sw((p + 1)));
    r = r * 31 + (((G12.ai0((p + 9)).i1((p + 9)) * (p + 6)) * C12_4.t(p)) - L.len(new C12_3[-p & 3][2]));
    r = r * 31 + new Fb12().f((long) p) + (Long) ((L.Fn) new Fb12()).f(5L) + ((L.Both<Long>) new Fb12()).f(6L);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + I12_2.K2;
    r = r * 31 + L.construct(C12_1.class, p);
    {
      Object[] o = new C12_2[2];
      r = r * 31 + (o instanceof C12_2[] ? 1 : 2) + (o instanceof I12_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    {
      Object[] o = new C12_5[2];
      r = r * 31 + (o instanceof C12_0[] ? 1 : 2) + (o instanceof I12_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + I12_2.K2;
    r = r * 31 + ((I12_1) L.proxy(I12_1.class)).i2(p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

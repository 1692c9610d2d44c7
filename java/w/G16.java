package w;
/* generated by tools/genlink.py */
interface I16_0 {
  int K0 = Integer.parseInt("93");
  long i0(int p);
  long i1(int p);
}
interface I16_1 {
  int K1 = Integer.parseInt("70");
  default long i2(int p) { return (((L.len(new C16_5[(p + 4) & 3][2]) * G16.ai0((p ^ 14)).i0((p ^ 14))) ^ L.sw((p + 5))) - L.name(long.class)); }
}
interface I16_2 extends I16_1 {
  int K2 = Integer.parseInt("78");
  default long i3(int p) { return ((new C16_4((p ^ 12)).a0((p ^ 12)) ^ p) - E16.values()[(p + 2) & 3].v((p + 2))); }
}
class C16_0 {
  static long s = Integer.parseInt("688");
  static final int CONST = 872581;
  static final String TEXT = "C16_0-39";
  Object f1;
  boolean f2;
  int f3;
  C16_0(int p) {
    f1 = TEXT;
    f2 = (p & 1) == 0;
    f3 = p * 3;
  }
  static long t(int p) { return p * 31L + CONST + TEXT.length(); }
  protected long a0(int p) { return (C16_3.s ^ new C16_5.In(-p).w(-p)); }
  protected long a2(int p) { return ((G16.mk((p ^ 8)) instanceof C16_5 ? 5 : 6) + C16_3.s); }
  protected synchronized long a3(int p) { return (new C16_2.In(-p).w(-p) - new C16_5(p).a0(p)); }
  private long pv(int p) { return p ^ 424; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C16_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C16_0.this.f3; }
  }
}
class C16_1 implements I16_1, I16_2 {
  static long s = C16_0.s + 34;
  static final int CONST = 862046;
  static final String TEXT = "C16_1-28";
  short f0;
  int f2;
  C16_1(int p) {
    f0 = (short) (p * 7);
    f2 = p * 3;
  }
  static long t(int p) { return p * 45L + CONST + TEXT.length(); }
  protected synchronized long a0(int p) { return ((G16.mk((p + 4)) instanceof I16_0 ? 15 : 16) * -p); }
  public long a1(int p) { return ((((p + 1) - G16.cast1(p)) * G16.ai0(-p).i1(-p)) - (p + 7)); }
  private long pv(int p) { return p ^ 344; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C16_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C16_1.this.f2; }
  }
}
class C16_2 extends C16_0 implements I16_1, I16_2 {
  static long s = C16_0.s + 93;
  static final int CONST = 796640;
  static final String TEXT = "C16_2-36";
  long f0;
  long f1;
  double f2;
  long f3;
  C16_2(int p) {
    super(p * 2);
    f0 = p * 5000000000L;
    f1 = p * 5000000000L;
    f2 = (double) (p * 7);
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 19L + CONST + TEXT.length(); }
  private long pv(int p) { return p ^ 102; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C16_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C16_2.this.f0; }
  }
}
class C16_3 implements I16_0 {
  static long s = Integer.parseInt("659");
  static final int CONST = 202607;
  static final String TEXT = "C16_3-37";
  long f2;
  Object f3;
  C16_3(int p) {
    f2 = p * 5000000000L;
    f3 = Integer.valueOf(p);
  }
  static long t(int p) { return p * 46L + CONST + TEXT.length(); }
  protected long a0(int p) { return (((L.fn((int x) -> x * 24L + p, (p ^ 1)) + this.f2) * (p + 8)) + G16.ai0((p ^ 11)).i0((p ^ 11))); }
  public final long i0(int p) { return ((E16.values()[(p + 8) & 3].v((p + 8)) - E16.values()[-p & 3].v(-p)) - C16_4.s); }
  public synchronized long i1(int p) { return ((p + 7) ^ C16_3.s); }
  private long pv(int p) { return p ^ 460; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C16_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C16_3.this.f2; }
  }
}
class C16_4 extends C16_2 implements I16_2 {
  static long s = Integer.parseInt("951");
  static final int CONST = 742910;
  static final String TEXT = "C16_4-61";
  double f0;
  float f1;
  long f2;
  char f3;
  C16_4(int p) {
    super(p * 2);
    f0 = (double) (p * 7);
    f1 = (float) (p * 7);
    f2 = p * 5000000000L;
    f3 = (char) (p * 7);
  }
  static long t(int p) { return p * 34L + CONST + TEXT.length(); }
  public long a1(int p) { return ((-p * new C16_3.In(-p).w(-p)) - L.fn((int x) -> x * 72L + p, p)); }
  protected long a2(int p) { return (((G16.ai0((p + 7)).i0((p + 7)) - 95211) - L.len(new C16_0[p & 3][2])) * -p); }
  protected long a4(int p) { return ((((C16_2) this).f3 * G16.as2(p).a0(p)) + C16_4.t(p)); }
  public long i3(int p) { return (E16.values()[p & 3].v(p) - C16_3.s); }
  private long pv(int p) { return p ^ 211; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C16_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C16_4.this.f0; }
  }
}
class C16_5 extends C16_3 {
  static long s = Integer.parseInt("539");
  static final int CONST = 398077;
  static final String TEXT = "C16_5-46";
  long f0;
  short f2;
  short f3;
  C16_5(int p) {
    super(p * 4);
    f0 = p * 5000000000L;
    f2 = (short) (p * 7);
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 31L + CONST + TEXT.length(); }
  public synchronized long a1(int p) { return (G16.ai0((p + 4)).i1((p + 4)) - L.sw((p + 7))); }
  protected long a2(int p) { return (G16.ai0((p + 2)).i1((p + 2)) * this.a1(p)); }
  protected long a4(int p) { return (G16.ai2((p + 1)).i3((p + 1)) + G16.ai0(-p).i0(-p)); }
  private long pv(int p) { return p ^ 560; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C16_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + L.h(((C16_3) C16_5.this).f3); }
  }
}
enum E16 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 7; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb16 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 3; }
}
public class G16 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return null;
    case 1: return new C16_3(p);
    case 2: return Integer.valueOf(p);
    case 3: return new C16_4(p);
    case 4: return new C16_1(p);
    case 5: return new C16_3(p);
    case 6: return new C16_1(p);
    default: return new C16_0(p);
    }
  }
  static C16_0 as0(int p) {
    if ((p & 3) == 2) return new C16_0(p + 1);
    if ((p & 3) == 0) return new C16_2(p + 1);
    return new C16_4(p);
  }
  static long cast0(int p) {
    try {
      C16_0 c = (C16_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C16_1 as1(int p) {
    return new C16_1(p);
  }
  static long cast1(int p) {
    try {
      C16_1 c = (C16_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C16_2 as2(int p) {
    if ((p & 3) == 1) return new C16_2(p + 1);
    return new C16_4(p);
  }
  static long cast2(int p) {
    try {
      C16_2 c = (C16_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C16_3 as3(int p) {
    if ((p & 3) == 0) return new C16_3(p + 1);
    return new C16_5(p);
  }
  static long cast3(int p) {
    try {
      C16_3 c = (C16_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C16_4 as4(int p) {
    return new C16_4(p);
  }
  static long cast4(int p) {
    try {
      C16_4 c = (C16_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C16_5 as5(int p) {
    return new C16_5(p);
  }
  static long cast5(int p) {
    try {
      C16_5 c = (C16_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I16_0 ai0(int p) {
    if ((p & 3) == 1) return new C16_3(p + 2);
    return new C16_5(p);
  }
  static I16_1 ai1(int p) {
    if ((p & 3) == 2) return new C16_1(p + 2);
    if ((p & 3) == 1) return new C16_2(p + 2);
    return new C16_4(p);
  }
  static I16_2 ai2(int p) {
    if ((p & 3) == 3) return new C16_1(p + 2);
    if ((p & 3) == 1) return new C16_2(p + 2);
    return new C16_4(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + L.reflect(new C16_2(p), "a2", p);
    try {
      r += new Late0().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.construct(C16_4.class, p);
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + ((C16_4.s * L.sw(-p)) ^ (p + 6));
    r = r * 31 + new Fb16().f((long) p) + (Long) ((L.Fn) new Fb16()).f(5L) + ((L.Both<Long>) new Fb16()).f(6L);
    r = r * 31 + new C16_4(p).new Inner().w(p);
    r = r * 31 + L.construct(C16_1.class, p);
    r = r * 31 + L.reflect(new C16_5(p), "a1", p);
    r = r * 31 + (G16.ai0(p).i0(p) * C16_2.s);
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + L.construct(C16_2.class, p);
    r = r * 31 + (("xxx87".length() * G16.as5(-p).a2(-p)) ^ G16.ai0(p).i1(p));
    r = r * 31 + (L.len(new C16_2[(p ^ 1) & 3][2]) * G16.ai0(-p).i0(-p));
    r = r * 31 + ((I16_1) L.proxy(I16_1.class)).i2(p);
    {
      Object[] o = new C16_2[2];
      r = r * 31 + (o instanceof C16_2[] ? 1 : 2) + (o instanceof I16_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + I16_2.K2;
    r = r * 31 + ((((G16.ai0(p).i1(p) ^ G16.ai1((p ^ 2)).i2((p ^ 2))) + (p + 8)) * G16.cast3((p + 7))) ^ G16.ai0(-p).i1(-p));
    r = r * 31 + I16_1.K1;
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + new Fb16().f((long) p) + (Long) ((L.Fn) new Fb16()).f(5L) + ((L.Both<Long>) new Fb16()).f(6L);
    r = r * 31 + (new C16_1.In(-p).w(-p) ^ G16.cast1((p + 4)));
    r = r * 31 + (G16.ai0(-p).i1(-p) + G16.cast1(-p));
    r = r * 31 + I16_1.K1;
    {
      Object[] o = new C16_4[2];
      r = r * 31 + (o instanceof C16_0[] ? 1 : 2) + (o instanceof I16_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    try {
      r += Late0.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + (((E16.values()[(p ^ 13) & 3].v((p ^ 13)) * C16_2.s) * G16.ai0((p + 5)).i1((p + 5))) ^ C16_4.s);
    r = r * 31 + ((p ^ 11) * -p);
    r = r * 31 + L.reflect(new C16_4(p), "a2", p);
    {
      Object[] o = new C16_4[2];
      r = r * 31 + (o instanceof C16_0[] ? 1 : 2) + (o instanceof I16_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + I16_1.K1;
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + new C16_4(p).new Inner().w(p);
    r = r * 31 + L.reflect(new C16_3(p), "a0", p);
    r = r * 31 + I16_2.K2;
    r = r * 31 + new C16_3(p).new Inner().w(p);
    try {
      r += Late0.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (G16.cast4((p ^ 11)) - C16_0.s);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + new C16_1(p).new Inner().w(p);
    r = r * 31 + ((((36877L * L.name(C16_3[].class)) ^ p) ^ new C16_3(-p).f2) ^ new C16_4(-p).a1(-p));
    r = r * 31 + new C16_3(p).new Inner().w(p);
    r = r * 31 + I16_1.K1;
    {
      Object[] o = new C16_3[2];
      r = r * 31 + (o instanceof C16_0[] ? 1 : 2) + (o instanceof I16_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

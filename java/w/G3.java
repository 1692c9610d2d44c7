package w;
/* generated by tools/genlink.py */
interface I3_0 {
  int K0 = Integer.parseInt("73");
  default long i0(int p) { return ((((p ^ 13) ^ (p ^ 6)) - G3.cast5((p ^ 12))) - new C3_4((p ^ 15)).f0); }
  default long i1(int p) { return ((((G3.mk(p) instanceof C3_3 ? 5 : 6) - L.sw((p + 8))) + new C3_4((p ^ 12)).a0((p ^ 12))) ^ (p + 1)); }
}
interface I3_1 extends I3_0 {
  int K1 = Integer.parseInt("89");
  long i2(int p);
}
interface I3_2 extends I3_1 {
  int K2 = Integer.parseInt("6");
  long i3(int p);
}
abstract class C3_0 implements I3_2 {
  static long s = Integer.parseInt("498");
  static final int CONST = 165001;
  static final String TEXT = "C3_0-56";
  byte f1;
  long f2;
  long f3;
  C3_0(int p) {
    f1 = (byte) (p * 7);
    f2 = p * 5000000000L;
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 20L + CONST + TEXT.length(); }
  public abstract long a1(int p);
  protected abstract long a3(int p);
  public long a4(int p) { return (-p - this.f3); }
  private long pv(int p) { return p ^ 709; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C3_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C3_0.this.f3; }
  }
}
class C3_1 extends C3_0 implements I3_0, I3_2 {
  static long s = C3_0.s + 89;
  static final int CONST = 460241;
  static final String TEXT = "C3_1-47";
  float f0;
  boolean f1;
  String f2;
  long f3;
  C3_1(int p) {
    super(p * 4);
    f0 = (float) (p * 7);
    f1 = (p & 1) == 0;
    f2 = "v" + p;
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 38L + CONST + TEXT.length(); }
  public long a1(int p) { return (((p * (G3.mk((p + 7)) instanceof C3_0 ? 5 : 6)) + (G3.mk(p) instanceof I3_0 ? 15 : 16)) ^ L.name(long.class)); }
  public synchronized long a2(int p) { return (G3.cast3(-p) * G3.ai1(p).i2(p)); }
  protected long a3(int p) { return ((L.sw((p + 5)) - L.name(C3_2[].class)) ^ (G3.mk((p + 4)) instanceof I3_0 ? 15 : 16)); }
  public long i2(int p) { return (new C3_4((p + 6)).f2 * (p ^ 7)); }
  public final long i3(int p) { return (((this.a1(-p) * new C3_4(p).a0(p)) * ((C3_0) this).f2) ^ G3.cast0(-p)); }
  private long pv(int p) { return p ^ 681; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C3_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C3_1.this.f0; }
  }
}
abstract class C3_2 extends C3_0 implements I3_1 {
  static long s = C3_1.s + 88;
  static final int CONST = 146667;
  static final String TEXT = "C3_2-91";
  long f1;
  int f2;
  long f3;
  C3_2(int p) {
    super(p * 3);
    f1 = p * 5000000000L;
    f2 = p * 3;
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 9L + CONST + TEXT.length(); }
  public abstract long a2(int p);
  protected long a3(int p) { return (((new C3_1((p ^ 15)).a1((p ^ 15)) * G3.cast3(-p)) * G3.ai0((p ^ 10)).i1((p ^ 10))) * G3.ai0(-p).i1(-p)); }
  public synchronized long a4(int p) { return ((C3_4.t(p) - C3_5.t(p)) * (G3.mk(p) instanceof C3_0 ? 5 : 6)); }
  private long pv(int p) { return p ^ 353; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C3_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C3_0) C3_2.this).f3; }
  }
}
class C3_3 extends C3_1 implements I3_0, I3_1 {
  static long s = Integer.parseInt("680");
  static final int CONST = 961782;
  static final String TEXT = "C3_3-92";
  short f2;
  C3_3(int p) {
    super(p * 4);
    f2 = (short) (p * 7);
  }
  static long t(int p) { return p * 38L + CONST + TEXT.length(); }
  long a0(int p) { return (((47622 * (p + 7)) * G3.ai0((p + 1)).i0((p + 1))) - (G3.mk((p + 9)) instanceof C3_1 ? 5 : 6)); }
  public final long i0(int p) { return (((57511L ^ (G3.mk(p) instanceof C3_1 ? 5 : 6)) + -p) - (p ^ 3)); }
  private long pv(int p) { return p ^ 764; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C3_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C3_1) C3_3.this).f3; }
  }
}
class C3_4 implements I3_0, I3_2 {
  static long s = C3_0.s + 93;
  static final int CONST = 921191;
  static final String TEXT = "C3_4-48";
  byte f0;
  long f1;
  char f2;
  short f3;
  C3_4(int p) {
    f0 = (byte) (p * 7);
    f1 = p * 5000000000L;
    f2 = (char) (p * 7);
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 18L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return (L.sw((p + 5)) * L.len(new C3_1[(p + 3) & 3][2])); }
  public long i2(int p) { return ((G3.ai0((p ^ 10)).i1((p ^ 10)) + this.f3) + this.f1); }
  public final long i3(int p) { return (new C3_5(p).f1.length() * (p ^ 10)); }
  private long pv(int p) { return p ^ 660; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C3_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C3_4.this.f0; }
  }
}
class C3_5 extends C3_3 implements I3_0, I3_1 {
  static long s = Integer.parseInt("658");
  static final int CONST = 936496;
  static final String TEXT = "C3_5-72";
  int f0;
  String f1;
  short f3;
  C3_5(int p) {
    super(p * 3);
    f0 = p * 3;
    f1 = "v" + p;
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 24L + CONST + TEXT.length(); }
  long a0(int p) { return ((p ^ 13) - (p + 2)); }
  public synchronized long a1(int p) { return ((L.sw((p ^ 13)) * (G3.mk((p + 6)) instanceof I3_0 ? 15 : 16)) ^ ((C3_3) new C3_5((p + 3))).f2); }
  public long a4(int p) { return (-p ^ new C3_2.In((p ^ 5)).w((p ^ 5))); }
  public long i2(int p) { return (((L.len(new C3_5[-p & 3][2]) * -p) - 90364L) + G3.ai0((p ^ 2)).i1((p ^ 2))); }
  private long pv(int p) { return p ^ 900; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C3_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C3_1) C3_5.this).f0; }
  }
}
enum E3 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 2; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb3 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 2; }
}
public class G3 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C3_1(p);
    case 1: return new C3_1(p);
    case 2: return new C3_4(p);
    case 3: return new C3_4(p);
    case 4: return new C3_4(p);
    case 5: return null;
    case 6: return new C3_4(p);
    default: return new C3_1(p);
    }
  }
  static C3_0 as0(int p) {
    if ((p & 3) == 2) return new C3_1(p + 1);
    if ((p & 3) == 3) return new C3_3(p + 1);
    return new C3_5(p);
  }
  static long cast0(int p) {
    try {
      C3_0 c = (C3_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C3_1 as1(int p) {
    if ((p & 3) == 1) return new C3_1(p + 1);
    if ((p & 3) == 3) return new C3_3(p + 1);
    return new C3_5(p);
  }
  static long cast1(int p) {
    try {
      C3_1 c = (C3_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static long cast2(int p) {
    try {
      C3_2 c = (C3_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C3_3 as3(int p) {
    if ((p & 3) == 2) return new C3_3(p + 1);
    return new C3_5(p);
  }
  static long cast3(int p) {
    try {
      C3_3 c = (C3_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C3_4 as4(int p) {
    return new C3_4(p);
  }
  static long cast4(int p) {
    try {
      C3_4 c = (C3_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C3_5 as5(int p) {
    return new C3_5(p);
  }
  static long cast5(int p) {
    try {
      C3_5 c = (C3_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I3_0 ai0(int p) {
    if ((p & 3) == 0) return new C3_1(p + 2);
    if ((p & 3) == 1) return new C3_3(p + 2);
    if ((p & 3) == 3) return new C3_4(p + 2);
    return new C3_5(p);
  }
  static I3_1 ai1(int p) {
    if ((p & 3) == 3) return new C3_1(p + 2);
    if ((p & 3) == 1) return new C3_3(p + 2);
    if ((p & 3) == 1) return new C3_4(p + 2);
    return new C3_5(p);
  }
  static I3_2 ai2(int p) {
    if ((p & 3) == 0) return new C3_1(p + 2);
    if ((p & 3) == 2) return new C3_3(p + 2);
    if ((p & 3) == 1) return new C3_4(p + 2);
    return new C3_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + (((C3_5.t((p + 8)) ^ G3.ai1((p ^ 1)).i2((p ^ 1))) - C3_2.s) * (p ^ 13));
    try {
      r += Late3.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (new C3_5.In((p + 4)).w((p + 4)) ^ G3.as0(-p).a1(-p));
    r = r * 31 + new C3_1(p).new Inner().w(p);
    r = r * 31 + I3_1.K1;
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + L.construct(C3_5.class, p);
    r = r * 31 + new Fb3().f((long) p) + (Long) ((L.Fn) new Fb3()).f(5L) + ((L.Both<Long>) new Fb3()).f(6L);
    r = r * 31 + ((p + 3) ^ L.len(new C3_1[-p & 3][2]));
    r = r * 31 + ((G3.ai0((p ^ 13)).i0((p ^ 13)) * G3.cast1(-p)) ^ (p + 9));
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + L.construct(C3_4.class, p);
    r = r * 31 + L.reflect(new C3_1(p), "a3", p);
    r = r * 31 + ((I3_2) L.proxy(I3_2.class)).i3(p);
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r += new Late3().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.construct(C3_3.class, p);
    r = r * 31 + I3_1.K1;
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + I3_2.K2;
    r = r * 31 + ((I3_0) L.proxy(I3_0.class)).i1(p);
    r = r * 31 + I3_0.K0;
    try {
      r += Late3.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    {
      Object[] o = new C3_3[2];
      r = r * 31 + (o instanceof C3_3[] ? 1 : 2) + (o instanceof I3_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    {
      Object[] o = new C3_5[2];
      r = r * 31 + (o instanceof C3_1[] ? 1 : 2) + (o instanceof I3_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + L.reflect(new C3_5(p), "a3", p);
    r = r * 31 + new Fb3().f((long) p) + (Long) ((L.Fn) new Fb3()).f(5L) + ((L.Both<Long>) new Fb3()).f(6L);
    r = r * 31 + ((I3_1) L.proxy(I3_1.class)).i2(p);
    r = r * 31 + ((((G3.ai0(-p).i0(-p) * 13388) ^ (p ^ 13)) * -p) - E3.values()[-p & 3].v(-p));
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + ((((G3.as1((p + 6)).a1((p + 6)) - -p) * L.sw((p + 5))) - new C3_3(-p).a0(-p)) * E3.values()[(p + 6) & 3].v((p + 6)));
    r = r * 31 + new Fb3().f((long) p) + (Long) ((L.Fn) new Fb3()).f(5L) + ((L.Both<Long>) new Fb3()).f(6L);
    r = r * 31 + I3_2.K2;
    r = r * 31 + ((I3_0) L.proxy(I3_0.class)).i0(p);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + new C3_5(p).new Inner().w(p);
    r = r * 31 + L.construct(C3_3.class, p);
    r = r * 31 + (("xxxx0".length() * C3_5.s) ^ C3_1.t(-p));
    r = r * 31 + I3_2.K2;
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

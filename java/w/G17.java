package w;
/* generated by tools/genlink.py */
interface I17_0 {
  int K0 = Integer.parseInt("78");
  long i0(int p);
  long i1(int p);
}
interface I17_1 {
  int K1 = Integer.parseInt("61");
  long i2(int p);
}
interface I17_2 extends I17_1 {
  int K2 = Integer.parseInt("45");
  long i3(int p);
}
class C17_0 implements I17_0 {
  static long s = Integer.parseInt("259");
  static final int CONST = 320593;
  static final String TEXT = "C17_0-8";
  short f1;
  C17_0(int p) {
    f1 = (short) (p * 7);
  }
  static long t(int p) { return p * 19L + CONST + TEXT.length(); }
  public synchronized long a1(int p) { return (p ^ "xx17".length()); }
  protected long a2(int p) { return ((L.sw(-p) - 24629L) * G17.ai0((p ^ 13)).i1((p ^ 13))); }
  synchronized long a3(int p) { return ((G17.ai1(-p).i2(-p) + G17.ai1(p).i2(p)) ^ L.len(new C17_0[(p ^ 2) & 3][2])); }
  synchronized long a4(int p) { return (((G17.ai0(-p).i0(-p) + new C17_4.In((p ^ 6)).w((p ^ 6))) * L.sw((p ^ 3))) ^ new C17_5((p + 1)).a0((p + 1))); }
  public long i0(int p) { return ((((p ^ 8) + new C17_1.In(-p).w(-p)) ^ (p + 4)) - -p); }
  public synchronized long i1(int p) { return ((p + 3) + (p + 2)); }
  private long pv(int p) { return p ^ 736; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C17_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C17_0.this.f1; }
  }
}
class C17_1 implements I17_0 {
  static long s = Integer.parseInt("349");
  static final int CONST = 604797;
  static final String TEXT = "C17_1-58";
  C17_1(int p) {
  }
  static long t(int p) { return p * 17L + CONST + TEXT.length(); }
  public synchronized long i0(int p) { return ((-p * G17.cast5(-p)) * L.name(C17_2.class)); }
  public long i1(int p) { return (G17.ai0(p).i0(p) + "52".length()); }
  private long pv(int p) { return p ^ 809; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C17_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p); }
  }
}
class C17_2 extends C17_0 implements I17_0 {
  static long s = Integer.parseInt("569");
  static final int CONST = 225677;
  static final String TEXT = "C17_2-74";
  byte f0;
  String f1;
  short f3;
  C17_2(int p) {
    super(p * 1);
    f0 = (byte) (p * 7);
    f1 = "v" + p;
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 44L + CONST + TEXT.length(); }
  public synchronized long a1(int p) { return (L.fn((int x) -> C17_4.t(x) + 76, p) + L.sw((p ^ 14))); }
  long a3(int p) { return (L.len(new C17_1[(p + 4) & 3][2]) ^ p); }
  synchronized long a4(int p) { return (((new C17_4.In(-p).w(-p) - E17.values()[(p ^ 9) & 3].v((p ^ 9))) + L.len(new C17_0[p & 3][2])) ^ -p); }
  public synchronized long i0(int p) { return ((C17_2.s + (G17.mk((p + 1)) instanceof C17_4 ? 5 : 6)) - G17.cast5(p)); }
  private long pv(int p) { return p ^ 477; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C17_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C17_0) C17_2.this).f1; }
  }
}
class C17_3 extends C17_0 {
  static long s = C17_1.s + 59;
  static final int CONST = 864514;
  static final String TEXT = "C17_3-97";
  int f2;
  long f3;
  C17_3(int p) {
    super(p * 4);
    f2 = p * 3;
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 16L + CONST + TEXT.length(); }
  long a0(int p) { return ((p * "k8".hashCode()) + -p); }
  long a3(int p) { return ((("k3".hashCode() + G17.ai0(-p).i0(-p)) * (p + 7)) * G17.ai0(-p).i1(-p)); }
  long a4(int p) { return ((new C17_0((p ^ 11)).a1((p ^ 11)) - (G17.mk((p ^ 6)) instanceof C17_4 ? 5 : 6)) + L.len(new C17_1[p & 3][2])); }
  public long i0(int p) { return (G17.cast1((p ^ 9)) * (p ^ 13)); }
  private long pv(int p) { return p ^ 501; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C17_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C17_3.this.f2; }
  }
}
class C17_4 extends C17_1 implements I17_1 {
  static long s = C17_1.s + 96;
  static final int CONST = 819133;
  static final String TEXT = "C17_4-37";
  String f0;
  float f1;
  double f3;
  C17_4(int p) {
    super(p * 3);
    f0 = "v" + p;
    f1 = (float) (p * 7);
    f3 = (double) (p * 7);
  }
  static long t(int p) { return p * 14L + CONST + TEXT.length(); }
  protected long a2(int p) { return ((((G17.mk(-p) instanceof C17_5 ? 5 : 6) - -p) - C17_4.t((p ^ 3))) ^ L.sw((p ^ 15))); }
  long a4(int p) { return ((98915 ^ (G17.mk((p + 4)) instanceof C17_3 ? 5 : 6)) - new C17_1.In((p ^ 7)).w((p ^ 7))); }
  public synchronized long i1(int p) { return ((G17.ai0((p ^ 6)).i0((p ^ 6)) + L.name(long.class)) * L.name(C17_5.class)); }
  public synchronized long i2(int p) { return ((C17_3.s ^ 7028L) + G17.cast1((p + 7))); }
  private long pv(int p) { return p ^ 266; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C17_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C17_4.this.f1; }
  }
}
class C17_5 extends C17_0 {
  static long s = Integer.parseInt("271");
  static final int CONST = 951047;
  static final String TEXT = "C17_5-89";
  String f2;
  int f3;
  C17_5(int p) {
    super(p * 4);
    f2 = "v" + p;
    f3 = p * 3;
  }
  static long t(int p) { return p * 33L + CONST + TEXT.length(); }
  long a0(int p) { return (((G17.mk(p) instanceof I17_1 ? 15 : 16) + (p ^ 12)) - 66299); }
  public long a1(int p) { return ((((p ^ 9) - C17_4.t((p + 8))) ^ G17.ai0((p ^ 12)).i0((p ^ 12))) - -p); }
  protected long a2(int p) { return (((p ^ new C17_0(p).f1) * (p ^ 7)) + G17.ai1(-p).i2(-p)); }
  long a3(int p) { return ((G17.as5(p).a0(p) + this.f3) * (p + 1)); }
  long a4(int p) { return ((L.fn(C17_1::t, p) - (G17.mk((p + 9)) instanceof I17_2 ? 15 : 16)) - p); }
  public synchronized long i1(int p) { return (("xx57".length() + C17_4.s) ^ (p ^ 7)); }
  private long pv(int p) { return p ^ 303; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C17_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C17_0) C17_5.this).f1; }
  }
}
enum E17 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 5; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb17 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 2; }
}
public class G17 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C17_5(p);
    case 1: return new C17_0(p);
    case 2: return new C17_2(p);
    case 3: return new C17_2(p);
    case 4: return new C17_0(p);
    case 5: return Integer.valueOf(p);
    case 6: return new C17_1(p);
    default: return new C17_0(p);
    }
  }
  static C17_0 as0(int p) {
    if ((p & 3) == 3) return new C17_0(p + 1);
    if ((p & 3) == 1) return new C17_2(p + 1);
    if ((p & 3) == 3) return new C17_3(p + 1);
    return new C17_5(p);
  }
  static long cast0(int p) {
    try {
      C17_0 c = (C17_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C17_1 as1(int p) {
    if ((p & 3) == 2) return new C17_1(p + 1);
    return new C17_4(p);
  }
  static long cast1(int p) {
    try {
      C17_1 c = (C17_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C17_2 as2(int p) {
    return new C17_2(p);
  }
  static long cast2(int p) {
    try {
      C17_2 c = (C17_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C17_3 as3(int p) {
    return new C17_3(p);
  }
  static long cast3(int p) {
    try {
      C17_3 c = (C17_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C17_4 as4(int p) {
    return new C17_4(p);
  }
  static long cast4(int p) {
    try {
      C17_4 c = (C17_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C17_5 as5(int p) {
    return new C17_5(p);
  }
  static long cast5(int p) {
    try {
      C17_5 c = (C17_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I17_0 ai0(int p) {
    if ((p & 3) == 0) return new C17_0(p + 2);
    if ((p & 3) == 3) return new C17_1(p + 2);
    if ((p & 3) == 0) return new C17_2(p + 2);
    if ((p & 3) == 2) return new C17_3(p + 2);
    if ((p & 3) == 2) return new C17_4(p + 2);
    return new C17_5(p);
  }
  static I17_1 ai1(int p) {
    return new C17_4(p);
  }
  static long e0(int p) {
    long r = 0;
    try {
      r += Late1.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += Late1.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += Late1.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + L.construct(C17_2.class, p);
    try {
      r += new Late1(p).virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new Fb17().f((long) p) + (Long) ((L.Fn) new Fb17()).f(5L) + ((L.Both<Long>) new Fb17()).f(6L);
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + L.reflect(new C17_4(p), "a4", p);
    r = r * 31 + ((I17_2) L.proxy(I17_2.class)).i3(p);
    r = r * 31 + (((((C17_0) new C17_3((p + 7))).f1 + G17.ai0((p ^ 2)).i0((p ^ 2))) ^ G17.ai0(p).i1(p)) + "x74".length());
    r = r * 31 + ((I17_2) L.proxy(I17_2.class)).i3(p);
    r = r * 31 + new C17_1(p).new Inner().w(p);
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + (new C17_0((p + 9)).a2((p + 9)) * G17.ai0((p + 7)).i1((p + 7)));
    r = r * 31 + ((C17_5.t((p ^ 2)) * G17.cast3((p ^ 6))) * L.len(new C17_0[(p + 7) & 3][2]));
    r = r * 31 + ((I17_1) L.proxy(I17_1.class)).i2(p);
    r = r * 31 + new C17_0(p).new Inner().w(p);
    {
      Object[] o = new C17_1[2];
      r = r * 31 + (o instanceof C17_5[] ? 1 : 2) + (o instanceof I17_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + new C17_5(p).new Inner().w(p);
    r = r * 31 + I17_1.K1;
    r = r * 31 + ((I17_0) L.proxy(I17_0.class)).i0(p);
    r = r * 31 + (((p + 6) ^ L.sw(p)) + G17.ai0((p + 2)).i1((p + 2)));
    r = r * 31 + (((((G17.mk((p + 6)) instanceof I17_2 ? 15 : 16) - "k2".hashCode()) - new C17_4.In((p ^ 10)).w((p ^ 10))) - L.name(I17_2.class)) * p);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    {
      Object[] o = new C17_3[2];
      r = r * 31 + (o instanceof C17_3[] ? 1 : 2) + (o instanceof I17_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    {
      Object[] o = new C17_4[2];
      r = r * 31 + (o instanceof C17_0[] ? 1 : 2) + (o instanceof I17_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    {
      Object[] o = new C17_5[2];
      r = r * 31 + (o instanceof C17_5[] ? 1 : 2) + (o instanceof I17_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((((G17.as3(p).a0(p) - -p) ^ "k1".hashCode()) - C17_2.s) + L.fn((int x) -> x * 38L + p, (p + 9)));
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + I17_0.K0;
    r = r * 31 + L.construct(C17_2.class, p);
    r = r * 31 + (-p - new C17_5((p + 4)).a2((p + 4)));
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + L.construct(C17_3.class, p);
    r = r * 31 + ((("xx80".length() + L.len(new C17_1[-p & 3][2])) + p) + G17.ai0((p + 8)).i0((p + 8)));
    r = r * 31 + new Fb17().f((long) p) + (Long) ((L.Fn) new Fb17()).f(5L) + ((L.Both<Long>) new Fb17()).f(6L);
    r = r * 31 + I17_0.K0;
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

package w;
/* generated by tools/genlink.py */
interface I20_0 {
  int K0 = Integer.parseInt("89");
  default long i0(int p) { return ((p * (p ^ 7)) - (p + 3)); }
  long i1(int p);
}
interface I20_1 extends I20_0 {
  int K1 = Integer.parseInt("26");
  default long i2(int p) { return (("98".length() + (G20.mk(-p) instanceof C20_5 ? 5 : 6)) ^ E20.values()[p & 3].v(p)); }
}
interface I20_2 extends I20_1 {
  int K2 = Integer.parseInt("60");
  long i3(int p);
}
abstract class C20_0 {
  static long s = Integer.parseInt("10");
  static final int CONST = 685955;
  static final String TEXT = "C20_0-23";
  String f0;
  short f1;
  char f2;
  byte f3;
  C20_0(int p) {
    f0 = "v" + p;
    f1 = (short) (p * 7);
    f2 = (char) (p * 7);
    f3 = (byte) (p * 7);
  }
  static long t(int p) { return p * 3L + CONST + TEXT.length(); }
  public abstract long a2(int p);
  abstract long a4(int p);
  private long pv(int p) { return p ^ 720; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C20_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C20_0.this.f1; }
  }
}
class C20_1 implements I20_0 {
  static long s = C20_0.s + 38;
  static final int CONST = 890431;
  static final String TEXT = "C20_1-95";
  String f0;
  int f2;
  char f3;
  C20_1(int p) {
    f0 = "v" + p;
    f2 = p * 3;
    f3 = (char) (p * 7);
  }
  static long t(int p) { return p * 19L + CONST + TEXT.length(); }
  public synchronized long a2(int p) { return ((G20.mk((p ^ 4)) instanceof C20_0 ? 5 : 6) * L.sw((p ^ 10))); }
  public final long i0(int p) { return ((((p + 5) ^ L.name(C20_2[].class)) ^ 94036) ^ L.len(new C20_2[-p & 3][2])); }
  public synchronized long i1(int p) { return (((p ^ 13) * G20.ai0(-p).i0(-p)) + p); }
  private long pv(int p) { return p ^ 361; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C20_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C20_1.this.f0.length(); }
  }
}
class C20_2 extends C20_0 {
  static long s = Integer.parseInt("290");
  static final int CONST = 736954;
  static final String TEXT = "C20_2-92";
  boolean f0;
  int f2;
  C20_2(int p) {
    super(p * 1);
    f0 = (p & 1) == 0;
    f2 = p * 3;
  }
  static long t(int p) { return p * 17L + CONST + TEXT.length(); }
  long a0(int p) { return ((L.name(I20_1.class) * new C20_2.In(p).w(p)) * G20.cast4((p + 6))); }
  protected synchronized long a1(int p) { return (((C20_1.t((p + 3)) * "x16".length()) ^ p) - G20.cast3((p ^ 3))); }
  public synchronized long a2(int p) { return ((p ^ 8) * L.name(long.class)); }
  long a4(int p) { return (((new C20_3(-p).f2 * C20_5.s) ^ C20_2.t(p)) + G20.as4((p ^ 8)).a0((p ^ 8))); }
  private long pv(int p) { return p ^ 555; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C20_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C20_0) C20_2.this).f1; }
  }
}
class C20_3 extends C20_0 {
  static long s = Integer.parseInt("948");
  static final int CONST = 755384;
  static final String TEXT = "C20_3-40";
  byte f0;
  byte f1;
  byte f2;
  C20_3(int p) {
    super(p * 3);
    f0 = (byte) (p * 7);
    f1 = (byte) (p * 7);
    f2 = (byte) (p * 7);
  }
  static long t(int p) { return p * 8L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return (((L.fn((int x) -> x * 62L + p, (p ^ 13)) - new C20_1(-p).f3) ^ (p ^ 3)) ^ ((C20_0) this).f1); }
  public long a2(int p) { return ((L.len(new C20_5[(p ^ 15) & 3][2]) + 27151L) ^ L.len(new C20_5[(p + 3) & 3][2])); }
  synchronized long a4(int p) { return ((p ^ 6) ^ G20.cast2((p + 4))); }
  private long pv(int p) { return p ^ 675; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C20_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C20_3.this.f2; }
  }
}
class C20_4 extends C20_1 implements I20_2 {
  static long s = C20_3.s + 42;
  static final int CONST = 621692;
  static final String TEXT = "C20_4-28";
  short f0;
  String f1;
  float f2;
  C20_4(int p) {
    super(p * 5);
    f0 = (short) (p * 7);
    f1 = "v" + p;
    f2 = (float) (p * 7);
  }
  static long t(int p) { return p * 44L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return (((C20_0) new C20_5(-p)).f3 - this.f1.length()); }
  protected long a1(int p) { return (L.len(new C20_2[p & 3][2]) ^ (p + 8)); }
  protected long a3(int p) { return ((("k8".hashCode() * (long) this.f2) * (G20.mk(p) instanceof I20_1 ? 15 : 16)) + G20.ai2((p ^ 6)).i3((p ^ 6))); }
  synchronized long a4(int p) { return ((G20.mk(-p) instanceof I20_2 ? 15 : 16) + new C20_5.In((p + 4)).w((p + 4))); }
  public final long i3(int p) { return (p ^ G20.cast5(-p)); }
  private long pv(int p) { return p ^ 57; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C20_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C20_1) C20_4.this).f3; }
  }
}
class C20_5 extends C20_3 implements I20_1 {
  static long s = Integer.parseInt("763");
  static final int CONST = 96726;
  static final String TEXT = "C20_5-33";
  char f0;
  double f1;
  boolean f2;
  short f3;
  C20_5(int p) {
    super(p * 4);
    f0 = (char) (p * 7);
    f1 = (double) (p * 7);
    f2 = (p & 1) == 0;
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 6L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return (((93986L + (p + 2)) ^ new C20_3(p).f2) * new C20_4.In(-p).w(-p)); }
  long a4(int p) { return ((G20.ai1((p ^ 2)).i2((p ^ 2)) - L.len(new C20_4[(p + 3) & 3][2])) + new C20_0.In((p + 8)).w((p + 8))); }
  public long i1(int p) { return (((L.name(C20_5[].class) ^ -p) + "xxxx3".length()) - (p + 7)); }
  private long pv(int p) { return p ^ 327; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C20_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C20_5.this.f1; }
  }
}
enum E20 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 6; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb20 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 7; }
}
public class G20 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new int[2];
    case 1: return new C20_1(p);
    case 2: return new C20_4(p);
    case 3: return Integer.valueOf(p);
    case 4: return new C20_1(p);
    case 5: return new C20_3(p);
    case 6: return new C20_1(p);
    default: return new C20_1(p);
    }
  }
  static C20_0 as0(int p) {
    if ((p & 3) == 1) return new C20_2(p + 1);
    if ((p & 3) == 3) return new C20_3(p + 1);
    return new C20_5(p);
  }
  static long cast0(int p) {
    try {
      C20_0 c = (C20_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C20_1 as1(int p) {
    if ((p & 3) == 2) return new C20_1(p + 1);
    return new C20_4(p);
  }
  static long cast1(int p) {
    try {
      C20_1 c = (C20_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C20_2 as2(int p) {
    return new C20_2(p);
  }
  static long cast2(int p) {
    try {
      C20_2 c = (C20_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C20_3 as3(int p) {
    if ((p & 3) == 2) return new C20_3(p + 1);
    return new C20_5(p);
  }
  static long cast3(int p) {
    try {
      C20_3 c = (C20_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C20_4 as4(int p) {
    return new C20_4(p);
  }
  static long cast4(int p) {
    try {
      C20_4 c = (C20_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C20_5 as5(int p) {
    return new C20_5(p);
  }
  static long cast5(int p) {
    try {
      C20_5 c = (C20_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I20_0 ai0(int p) {
    if ((p & 3) == 1) return new C20_1(p + 2);
    if ((p & 3) == 2) return new C20_4(p + 2);
    return new C20_5(p);
  }
  static I20_1 ai1(int p) {
    if ((p & 3) == 2) return new C20_4(p + 2);
    return new C20_5(p);
  }
  static I20_2 ai2(int p) {
    return new C20_4(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + new Fb20().f((long) p) + (Long) ((L.Fn) new Fb20()).f(5L) + ((L.Both<Long>) new Fb20()).f(6L);
    {
      Object[] o = new C20_4[2];
      r = r * 31 + (o instanceof C20_3[] ? 1 : 2) + (o instanceof I20_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((G20.mk((p ^ 8)) instanceof C20_3 ? 5 : 6) * G20.ai2(p).i3(p));
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + I20_0.K0;
    r = r * 31 + ((p ^ 15) - G20.ai0((p ^ 5)).i1((p ^ 5)));
    try {
      r += new Late0().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + I20_0.K0;
    try {
      r += Late0.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + L.construct(C20_3.class, p);
    try {
      r += Late0.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((p * ((C20_0) new C20_3(p)).f1) ^ new C20_3(p).f1);
    r = r * 31 + L.reflect(new C20_5(p), "a0", p);
    r = r * 31 + new Fb20().f((long) p) + (Long) ((L.Fn) new Fb20()).f(5L) + ((L.Both<Long>) new Fb20()).f(6L);
    r = r * 31 + I20_0.K0;
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + L.reflect(new C20_4(p), "a1", p);
    {
      Object[] o = new C20_4[2];
      r = r * 31 + (o instanceof C20_2[] ? 1 : 2) + (o instanceof I20_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + (G20.ai1((p ^ 6)).i2((p ^ 6)) ^ G20.ai2((p + 8)).i3((p + 8)));
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + (((C20_5.t(-p) - L.len(new C20_4[(p + 5) & 3][2])) - L.len(new C20_5[-p & 3][2])) + G20.ai1(-p).i2(-p));
    r = r * 31 + (((G20.cast4(-p) + new C20_4((p + 5)).f0) + new C20_1(p).f3) + new C20_1.In((p + 8)).w((p + 8)));
    {
      Object[] o = new C20_4[2];
      r = r * 31 + (o instanceof C20_3[] ? 1 : 2) + (o instanceof I20_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + (G20.cast3((p + 2)) * L.len(new C20_3[p & 3][2]));
    r = r * 31 + new Fb20().f((long) p) + (Long) ((L.Fn) new Fb20()).f(5L) + ((L.Both<Long>) new Fb20()).f(6L);
    r = r * 31 + (((new C20_2.In((p + 9)).w((p + 9)) - L.sw(-p)) * G20.ai1((p ^ 10)).i2((p ^ 10))) ^ (p + 1));
    r = r * 31 + new C20_4(p).new Inner().w(p);
    r = r * 31 + ((-p - p) ^ (p ^ 8));
    r = r * 31 + L.reflect(new C20_2(p), "a0", p);
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + new C20_4(p).new Inner().w(p);
    try {
      r += new Late0().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new C20_5(p).new Inner().w(p);
    {
      Object[] o = new C20_1[2];
      r = r * 31 + (o instanceof C20_1[] ? 1 : 2) + (o instanceof I20_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + L.construct(C20_2.class, p);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((((new C20_5(-p).a0(-p) - L.name(long.class)) * L.len(new C20_1[(p ^ 12) & 3][2])) ^ new C20_3((p ^ 15)).a0((p ^ 15))) - p);
    r = r * 31 + I20_0.K0;
    r = r * 31 + ((G20.mk((p ^ 14)) instanceof I20_1 ? 15 : 16) - G20.ai0((p + 4)).i1((p + 4)));
    r = r * 31 + ((G20.ai2((p ^ 13)).i3((p ^ 13)) * E20.values()[(p ^ 1) & 3].v((p ^ 1))) ^ (G20.mk((p ^ 6)) instanceof I20_0 ? 15 : 16));
    r = r * 31 + ((I20_2) L.proxy(I20_2.class)).i3(p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

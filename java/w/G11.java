package w;
/* generated by tools/genlink.py */
interface I11_0 {
  int K0 = Integer.parseInt("77");
  long i0(int p);
  long i1(int p);
}
interface I11_1 extends I11_0 {
  int K1 = Integer.parseInt("28");
  default long i2(int p) { return ((G11.ai0(-p).i0(-p) + (G11.mk((p + 9)) instanceof C11_0 ? 5 : 6)) * C11_2.t(p)); }
}
interface I11_2 extends I11_0 {
  int K2 = Integer.parseInt("97");
  long i3(int p);
}
abstract class C11_0 implements I11_1 {
  static long s = Integer.parseInt("387");
  static final int CONST = 167703;
  static final String TEXT = "C11_0-96";
  int f0;
  long f2;
  C11_0(int p) {
    f0 = p * 3;
    f2 = p * 5000000000L;
  }
  static long t(int p) { return p * 9L + CONST + TEXT.length(); }
  public synchronized long a0(int p) { return (L.fn(C11_1::t, -p) * ((C11_0) new C11_3((p ^ 9))).f0); }
  long a2(int p) { return (((G11.ai1(-p).i2(-p) - -p) + C11_0.s) * p); }
  public long i0(int p) { return ((p + (p + 9)) * L.sw(p)); }
  public synchronized long i1(int p) { return (new C11_0.In((p + 8)).w((p + 8)) * 7415); }
  public long i2(int p) { return (((this.f0 * G11.ai0(p).i0(p)) * C11_0.t((p + 5))) ^ L.fn(C11_5::t, (p ^ 4))); }
  private long pv(int p) { return p ^ 721; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C11_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C11_0.this.f0; }
  }
}
class C11_1 extends C11_0 {
  static long s = Integer.parseInt("304");
  static final int CONST = 659819;
  static final String TEXT = "C11_1-78";
  char f0;
  short f1;
  C11_1(int p) {
    super(p * 3);
    f0 = (char) (p * 7);
    f1 = (short) (p * 7);
  }
  static long t(int p) { return p * 2L + CONST + TEXT.length(); }
  public synchronized long a1(int p) { return ((G11.ai0(p).i0(p) * G11.ai0(p).i1(p)) * G11.ai0((p ^ 3)).i1((p ^ 3))); }
  protected long a4(int p) { return ((((G11.mk(p) instanceof C11_0 ? 5 : 6) + "xxxx19".length()) + new C11_3(-p).a0(-p)) ^ (G11.mk((p + 8)) instanceof C11_2 ? 5 : 6)); }
  public final long i0(int p) { return (p - (p ^ 5)); }
  public synchronized long i2(int p) { return (p - (G11.mk(-p) instanceof C11_1 ? 5 : 6)); }
  private long pv(int p) { return p ^ 872; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C11_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C11_1.this.f0; }
  }
}
class C11_2 extends C11_0 implements I11_2 {
  static long s = C11_0.s + 71;
  static final int CONST = 678208;
  static final String TEXT = "C11_2-77";
  String f0;
  short f1;
  short f2;
  boolean f3;
  C11_2(int p) {
    super(p * 4);
    f0 = "v" + p;
    f1 = (short) (p * 7);
    f2 = (short) (p * 7);
    f3 = (p & 1) == 0;
  }
  static long t(int p) { return p * 45L + CONST + TEXT.length(); }
  public long a1(int p) { return (-p - L.name(C11_5[].class)); }
  synchronized long a2(int p) { return (((G11.cast4(-p) - (p ^ 12)) * G11.ai1((p ^ 10)).i2((p ^ 10))) - C11_4.t(p)); }
  public synchronized long a3(int p) { return ((C11_5.s + G11.ai1((p ^ 12)).i2((p ^ 12))) ^ G11.ai0(p).i0(p)); }
  protected synchronized long a4(int p) { return ("xx20".length() * "xxxx67".length()); }
  public long i3(int p) { return ((new C11_2.In(p).w(p) ^ E11.values()[(p + 3) & 3].v((p + 3))) - 72196L); }
  private long pv(int p) { return p ^ 839; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C11_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C11_2.this.f2; }
  }
}
class C11_3 extends C11_0 {
  static long s = C11_1.s + 74;
  static final int CONST = 156722;
  static final String TEXT = "C11_3-41";
  float f1;
  float f2;
  boolean f3;
  C11_3(int p) {
    super(p * 5);
    f1 = (float) (p * 7);
    f2 = (float) (p * 7);
    f3 = (p & 1) == 0;
  }
  static long t(int p) { return p * 46L + CONST + TEXT.length(); }
  public long a1(int p) { return ((p - L.fn((int x) -> C11_0.t(x) + 29, p)) + L.len(new C11_2[(p + 3) & 3][2])); }
  public synchronized long a3(int p) { return ((G11.ai2((p + 6)).i3((p + 6)) - (long) this.f2) ^ E11.values()[(p + 6) & 3].v((p + 6))); }
  public final long i0(int p) { return (((G11.mk((p ^ 3)) instanceof I11_1 ? 15 : 16) * (p + 9)) + L.name(long.class)); }
  private long pv(int p) { return p ^ 734; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C11_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C11_3.this.f1; }
  }
}
class C11_4 extends C11_0 {
  static long s = Integer.parseInt("536");
  static final int CONST = 809653;
  static final String TEXT = "C11_4-21";
  Object f0;
  float f1;
  long f2;
  short f3;
  C11_4(int p) {
    super(p * 4);
    f0 = Integer.valueOf(p);
    f1 = (float) (p * 7);
    f2 = p * 5000000000L;
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 20L + CONST + TEXT.length(); }
  public long a1(int p) { return (((p ^ 10) + G11.ai0(p).i0(p)) ^ new C11_5.In((p ^ 14)).w((p ^ 14))); }
  long a2(int p) { return (((L.sw(p) - C11_0.s) + p) + G11.ai0(p).i1(p)); }
  public long a3(int p) { return (92137 * L.fn((int x) -> x * 33L + p, (p + 3))); }
  protected synchronized long a4(int p) { return ((L.name(C11_5[].class) * 49775) * "k6".hashCode()); }
  public long i0(int p) { return (L.sw((p + 6)) * (p ^ 7)); }
  private long pv(int p) { return p ^ 131; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C11_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C11_4.this.f1; }
  }
}
class C11_5 {
  static long s = C11_4.s + 4;
  static final int CONST = 561571;
  static final String TEXT = "C11_5-18";
  double f2;
  Object f3;
  C11_5(int p) {
    f2 = (double) (p * 7);
    f3 = TEXT;
  }
  static long t(int p) { return p * 34L + CONST + TEXT.length(); }
  public synchronized long a1(int p) { return ((G11.ai0((p + 6)).i1((p + 6)) + "xxxx29".length()) + C11_2.s); }
  public long a3(int p) { return (G11.ai2(p).i3(p) ^ "k1".hashCode()); }
  protected synchronized long a4(int p) { return (p + G11.ai0(-p).i1(-p)); }
  private long pv(int p) { return p ^ 977; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C11_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C11_5.this.f2; }
  }
}
enum E11 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 5; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb11 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 5; }
}
public class G11 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return null;
    case 1: return new C11_1(p);
    case 2: return Integer.valueOf(p);
    case 3: return new C11_1(p);
    case 4: return new C11_3(p);
    case 5: return new C11_3(p);
    case 6: return new C11_1(p);
    default: return new C11_4(p);
    }
  }
  static C11_0 as0(int p) {
    if ((p & 3) == 0) return new C11_1(p + 1);
    if ((p & 3) == 1) return new C11_2(p + 1);
    if ((p & 3) == 1) return new C11_3(p + 1);
    return new C11_4(p);
  }
  static long cast0(int p) {
    try {
      C11_0 c = (C11_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C11_1 as1(int p) {
    return new C11_1(p);
  }
  static long cast1(int p) {
    try {
      C11_1 c = (C11_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C11_2 as2(int p) {
    return new C11_2(p);
  }
  static long cast2(int p) {
    try {
      C11_2 c = (C11_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C11_3 as3(int p) {
    return new C11_3(p);
  }
  static long cast3(int p) {
    try {
      C11_3 c = (C11_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C11_4 as4(int p) {
    return new C11_4(p);
  }
  static long cast4(int p) {
    try {
      C11_4 c = (C11_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C11_5 as5(int p) {
    return new C11_5(p);
  }
  static long cast5(int p) {
    try {
      C11_5 c = (C11_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I11_0 ai0(int p) {
    if ((p & 3) == 1) return new C11_1(p + 2);
    if ((p & 3) == 3) return new C11_2(p + 2);
    if ((p & 3) == 0) return new C11_3(p + 2);
    return new C11_4(p);
  }
  static I11_1 ai1(int p) {
    if ((p & 3) == 0) return new C11_1(p + 2);
    if ((p & 3) == 1) return new C11_2(p + 2);
    if ((p & 3) == 0) return new C11_3(p + 2);
    return new C11_4(p);
  }
  static I11_2 ai2(int p) {
    return new C11_2(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + L.reflect(new C11_5(p), "a4", p);
    r = r * 31 + (((G11.ai2(p).i3(p) + 16501L) * G11.ai1(p).i2(p)) - "k2".hashCode());
    r = r * 31 + I11_2.K2;
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + ((L.fn((int x) -> C11_5.t(x) + 29, (p + 2)) * new C11_5.In(p).w(p)) - L.len(new C11_3[p & 3][2]));
    r = r * 31 + ((new C11_4(p).a3(p) ^ L.len(new C11_3[(p + 6) & 3][2])) - L.fn(C11_1::t, -p));
    r = r * 31 + new Fb11().f((long) p) + (Long) ((L.Fn) new Fb11()).f(5L) + ((L.Both<Long>) new Fb11()).f(6L);
    r = r * 31 + new Fb11().f((long) p) + (Long) ((L.Fn) new Fb11()).f(5L) + ((L.Both<Long>) new Fb11()).f(6L);
    r = r * 31 + (L.name(C11_5.class) ^ G11.as3((p + 5)).a2((p + 5)));
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + new Fb11().f((long) p) + (Long) ((L.Fn) new Fb11()).f(5L) + ((L.Both<Long>) new Fb11()).f(6L);
    r = r * 31 + new C11_5(p).new Inner().w(p);
    r = r * 31 + new C11_2(p).new Inner().w(p);
    r = r * 31 + ((((G11.ai2(-p).i3(-p) ^ C11_2.s) + G11.ai2((p + 6)).i3((p + 6))) + G11.ai0((p ^ 1)).i0((p ^ 1))) - (p + 4));
    r = r * 31 + new Fb11().f((long) p) + (Long) ((L.Fn) new Fb11()).f(5L) + ((L.Both<Long>) new Fb11()).f(6L);
    r = r * 31 + L.construct(C11_5.class, p);
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + (((L.len(new C11_4[-p & 3][2]) * E11.values()[p & 3].v(p)) * G11.ai0(p).i1(p)) - G11.ai0(-p).i1(-p));
    r = r * 31 + ((G11.as2(-p).a0(-p) * new C11_1(-p).a1(-p)) - "k1".hashCode());
    r = r * 31 + ((L.fn((int x) -> C11_5.t(x) + 7, p) ^ G11.as1((p ^ 12)).a0((p ^ 12))) - new C11_3.In(-p).w(-p));
    r = r * 31 + new Fb11().f((long) p) + (Long) ((L.Fn) new Fb11()).f(5L) + ((L.Both<Long>) new Fb11()).f(6L);
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + (((G11.as2(-p).a0(-p) * "x93".length()) ^ 80723) + G11.ai0((p ^ 14)).i0((p ^ 14)));
    {
      Object[] o = new C11_2[2];
      r = r * 31 + (o instanceof C11_2[] ? 1 : 2) + (o instanceof I11_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + I11_2.K2;
    r = r * 31 + new Fb11().f((long) p) + (Long) ((L.Fn) new Fb11()).f(5L) + ((L.Both<Long>) new Fb11()).f(6L);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + new C11_4(p).new Inner().w(p);
    r = r * 31 + ((((L.name(C11_1.class) ^ "k7".hashCode()) * L.len(new C11_3[-p & 3][2])) ^ G11.ai1(-p).i2(-p)) + G11.ai0(p).i0(p));
    r = r * 31 + L.construct(C11_4.class, p);
    r = r * 31 + L.construct(C11_1.class, p);
    r = r * 31 + new Fb11().f((long) p) + (Long) ((L.Fn) new Fb11()).f(5L) + ((L.Both<Long>) new Fb11()).f(6L);
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + new Fb11().f((long) p) + (Long) ((L.Fn) new Fb11()).f(5L) + ((L.Both<Long>) new Fb11()).f(6L);
    r = r * 31 + L.construct(C11_3.class, p);
    r = r * 31 + I11_1.K1;
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + L.construct(C11_4.class, p);
    r = r * 31 + new C11_3(p).new Inner().w(p);
    r = r * 31 + ((I11_0) L.proxy(I11_0.class)).i1(p);
    r = r * 31 + ((((C11_2.s + (p ^ 15)) ^ G11.ai1((p ^ 13)).i2((p ^ 13))) ^ new C11_1(p).a2(p)) + G11.ai0((p ^ 9)).i1((p ^ 9)));
    r = r * 31 + (((new C11_2((p ^ 1)).f3 ? 3 : 4) + G11.ai0((p + 4)).i1((p + 4))) + G11.ai0((p + 8)).i1((p + 8)));
    r = r * 31 + L.construct(C11_3.class, p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

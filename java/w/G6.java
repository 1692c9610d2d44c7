package w;
/* generated by tools/genlink.py */
interface I6_0 {
  int K0 = Integer.parseInt("19");
  long i0(int p);
  default long i1(int p) { return (((C6_5.s - "x57".length()) * 11637) ^ 6413); }
}
interface I6_1 {
  int K1 = Integer.parseInt("25");
  default long i2(int p) { return ((-p * G6.ai0(p).i0(p)) + (p + 3)); }
}
interface I6_2 extends I6_0 {
  int K2 = Integer.parseInt("21");
  long i3(int p);
}
abstract class C6_0 implements I6_2 {
  static long s = Integer.parseInt("588");
  static final int CONST = 472120;
  static final String TEXT = "C6_0-14";
  byte f0;
  boolean f3;
  C6_0(int p) {
    f0 = (byte) (p * 7);
    f3 = (p & 1) == 0;
  }
  static long t(int p) { return p * 46L + CONST + TEXT.length(); }
  protected long a0(int p) { return ((G6.cast1((p ^ 5)) ^ p) * (((C6_0) new C6_1((p + 1))).f3 ? 3 : 4)); }
  private long pv(int p) { return p ^ 648; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C6_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (C6_0.this.f3 ? 3 : 4); }
  }
}
class C6_1 extends C6_0 {
  static long s = Integer.parseInt("443");
  static final int CONST = 537794;
  static final String TEXT = "C6_1-30";
  String f0;
  boolean f1;
  char f2;
  long f3;
  C6_1(int p) {
    super(p * 4);
    f0 = "v" + p;
    f1 = (p & 1) == 0;
    f2 = (char) (p * 7);
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 31L + CONST + TEXT.length(); }
  long a1(int p) { return (G6.cast5(-p) ^ new C6_1.In(p).w(p)); }
  long a2(int p) { return (((C6_2.s + L.fn(C6_2::t, (p + 7))) ^ (p + 7)) + L.sw((p + 5))); }
  public synchronized long i0(int p) { return (((L.name(C6_4.class) ^ (p + 7)) - p) - L.fn((int x) -> C6_4.t(x) + 35, -p)); }
  public final long i3(int p) { return ((((G6.mk(p) instanceof C6_5 ? 5 : 6) + L.sw((p ^ 3))) - C6_1.t(-p)) * new C6_1(-p).a1(-p)); }
  private long pv(int p) { return p ^ 942; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C6_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C6_1.this.f2; }
  }
}
class C6_2 implements I6_2 {
  static long s = C6_0.s + 29;
  static final int CONST = 295735;
  static final String TEXT = "C6_2-92";
  boolean f0;
  String f1;
  char f2;
  C6_2(int p) {
    f0 = (p & 1) == 0;
    f1 = "v" + p;
    f2 = (char) (p * 7);
  }
  static long t(int p) { return p * 31L + CONST + TEXT.length(); }
  protected long a0(int p) { return ((L.sw((p ^ 14)) ^ (this.f0 ? 3 : 4)) + p); }
  synchronized long a1(int p) { return (G6.cast2((p + 7)) + L.sw((p + 9))); }
  long a2(int p) { return ((p + 4) + "k3".hashCode()); }
  protected long a3(int p) { return (-p + 25692L); }
  long a4(int p) { return ((G6.ai0(-p).i1(-p) ^ G6.cast1(p)) ^ (new C6_1(-p).f1 ? 3 : 4)); }
  public long i0(int p) { return (-p ^ 80476); }
  public synchronized long i3(int p) { return (G6.as5(p).a2(p) + (G6.mk((p ^ 13)) instanceof C6_5 ? 5 : 6)); }
  private long pv(int p) { return p ^ 222; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C6_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (C6_2.this.f0 ? 3 : 4); }
  }
}
class C6_3 extends C6_2 implements I6_0, I6_1, I6_2 {
  static long s = C6_1.s + 27;
  static final int CONST = 189927;
  static final String TEXT = "C6_3-95";
  double f3;
  C6_3(int p) {
    super(p * 1);
    f3 = (double) (p * 7);
  }
  static long t(int p) { return p * 28L + CONST + TEXT.length(); }
  long a2(int p) { return (((((C6_2) this).f0 ? 3 : 4) + (G6.mk(-p) instanceof I6_1 ? 15 : 16)) + G6.as5(p).a1(p)); }
  private long pv(int p) { return p ^ 906; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C6_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C6_2) C6_3.this).f1.length(); }
  }
}
class C6_4 extends C6_2 implements I6_2 {
  static long s = Integer.parseInt("785");
  static final int CONST = 44280;
  static final String TEXT = "C6_4-96";
  boolean f0;
  long f2;
  Object f3;
  C6_4(int p) {
    super(p * 4);
    f0 = (p & 1) == 0;
    f2 = p * 5000000000L;
    f3 = "o" + p;
  }
  static long t(int p) { return p * 35L + CONST + TEXT.length(); }
  long a1(int p) { return ((L.len(new C6_2[-p & 3][2]) ^ (p + 7)) ^ "k8".hashCode()); }
  public final long i1(int p) { return (L.fn((int x) -> x * 88L + p, (p ^ 13)) - -p); }
  public long i3(int p) { return ((G6.mk(-p) instanceof C6_5 ? 5 : 6) ^ p); }
  private long pv(int p) { return p ^ 564; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C6_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C6_2) C6_4.this).f1.length(); }
  }
}
class C6_5 extends C6_3 implements I6_2 {
  static long s = C6_0.s + 18;
  static final int CONST = 144060;
  static final String TEXT = "C6_5-47";
  double f0;
  byte f1;
  String f2;
  C6_5(int p) {
    super(p * 5);
    f0 = (double) (p * 7);
    f1 = (byte) (p * 7);
    f2 = "v" + p;
  }
  static long t(int p) { return p * 8L + CONST + TEXT.length(); }
  protected long a0(int p) { return ((((long) ((C6_3) this).f3 * L.fn(C6_2::t, p)) + "k7".hashCode()) * (p ^ 11)); }
  synchronized long a1(int p) { return ((p ^ 11) + (G6.mk(-p) instanceof C6_3 ? 5 : 6)); }
  synchronized long a2(int p) { return (((((C6_2) this).f2 - (G6.mk(p) instanceof C6_2 ? 5 : 6)) ^ L.len(new C6_1[(p ^ 9) & 3][2])) ^ (long) this.f0); }
  public long i0(int p) { return (L.name(int[][].class) + p); }
  public final long i1(int p) { return ((C6_4.t((p ^ 12)) ^ C6_0.t((p ^ 13))) ^ L.sw(-p)); }
  public synchronized long i2(int p) { return (((-p - G6.ai0((p ^ 14)).i1((p ^ 14))) + (G6.mk((p ^ 3)) instanceof C6_1 ? 5 : 6)) * (G6.mk((p + 2)) instanceof I6_2 ? 15 : 16)); }
  public long i3(int p) { return ((p ^ this.f2.length()) + G6.ai0(-p).i0(-p)); }
  private long pv(int p) { return p ^ 126; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C6_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C6_3) C6_5.this).f3; }
  }
}
enum E6 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 9; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb6 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 5; }
}
public class G6 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C6_3(p);
    case 1: return new C6_2(p);
    case 2: return new C6_2(p);
    case 3: return new int[2];
    case 4: return new C6_4(p);
    case 5: return new C6_1(p);
    case 6: return new C6_1(p);
    default: return new C6_1(p);
    }
  }
  static C6_0 as0(int p) {
    return new C6_1(p);
  }
  static long cast0(int p) {
    try {
      C6_0 c = (C6_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C6_1 as1(int p) {
    return new C6_1(p);
  }
  static long cast1(int p) {
    try {
      C6_1 c = (C6_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C6_2 as2(int p) {
    if ((p & 3) == 0) return new C6_2(p + 1);
    if ((p & 3) == 2) return new C6_3(p + 1);
    if ((p & 3) == 1) return new C6_4(p + 1);
    return new C6_5(p);
  }
  static long cast2(int p) {
    try {
      C6_2 c = (C6_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C6_3 as3(int p) {
    if ((p & 3) == 1) return new C6_3(p + 1);
    return new C6_5(p);
  }
  static long cast3(int p) {
    try {
      C6_3 c = (C6_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C6_4 as4(int p) {
    return new C6_4(p);
  }
  static long cast4(int p) {
    try {
      C6_4 c = (C6_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C6_5 as5(int p) {
    return new C6_5(p);
  }
  static long cast5(int p) {
    try {
      C6_5 c = (C6_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I6_0 ai0(int p) {
    if ((p & 3) == 3) return new C6_1(p + 2);
    if ((p & 3) == 2) return new C6_2(p + 2);
    if ((p & 3) == 2) return new C6_3(p + 2);
    if ((p & 3) == 1) return new C6_4(p + 2);
    return new C6_5(p);
  }
  static I6_1 ai1(int p) {
    if ((p & 3) == 1) return new C6_3(p + 2);
    return new C6_5(p);
  }
  static I6_2 ai2(int p) {
    if ((p & 3) == 3) return new C6_1(p + 2);
    if ((p & 3) == 2) return new C6_2(p + 2);
    if ((p & 3) == 1) return new C6_3(p + 2);
    if ((p & 3) == 1) return new C6_4(p + 2);
    return new C6_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + new C6_1(p).new Inner().w(p);
    r = r * 31 + ((((p + 6) ^ (G6.mk(p) instanceof I6_2 ? 15 : 16)) - C6_0.s) ^ G6.cast2(p));
    try {
      r += new Late2(p).virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new C6_2(p).new Inner().w(p);
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + ((L.fn((int x) -> C6_5.t(x) + 9, (p + 6)) - new C6_3(-p).a1(-p)) + (G6.mk((p + 6)) instanceof I6_2 ? 15 : 16));
    {
      Object[] o = new C6_3[2];
      r = r * 31 + (o instanceof C6_5[] ? 1 : 2) + (o instanceof I6_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + new C6_1(p).new Inner().w(p);
    r = r * 31 + ((-p * p) ^ 39737);
    r = r * 31 + ((G6.cast1((p + 5)) + E6.values()[-p & 3].v(-p)) ^ L.fn((int x) -> x * 45L + p, (p ^ 4)));
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + ((I6_1) L.proxy(I6_1.class)).i2(p);
    r = r * 31 + ((((G6.mk(-p) instanceof I6_1 ? 15 : 16) * G6.cast1((p + 3))) + C6_3.s) ^ -p);
    r = r * 31 + (((L.len(new C6_1[p & 3][2]) ^ new C6_2((p ^ 3)).a1((p ^ 3))) - L.fn((int x) -> x * 11L + p, (p ^ 6))) ^ G6.as4(-p).a3(-p));
    r = r * 31 + ((G6.ai0(p).i1(p) ^ G6.ai0(p).i1(p)) + G6.ai0((p ^ 10)).i1((p ^ 10)));
    r = r * 31 + (L.sw((p ^ 4)) ^ "4".length());
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + (((new C6_5(-p).f2.length() * (G6.mk(p) instanceof I6_1 ? 15 : 16)) - L.h(new C6_4((p ^ 8)).f3)) + (p ^ 13));
    r = r * 31 + ((I6_0) L.proxy(I6_0.class)).i0(p);
    r = r * 31 + new C6_3(p).new Inner().w(p);
    {
      Object[] o = new C6_5[2];
      r = r * 31 + (o instanceof C6_2[] ? 1 : 2) + (o instanceof I6_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((((G6.mk(-p) instanceof I6_1 ? 15 : 16) + p) + new C6_4.In((p + 7)).w((p + 7))) * p);
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + new C6_1(p).new Inner().w(p);
    r = r * 31 + ((I6_0) L.proxy(I6_0.class)).i0(p);
    r = r * 31 + ((G6.as4(-p).a3(-p) - L.sw(p)) + L.name(C6_2.class));
    r = r * 31 + new C6_4(p).new Inner().w(p);
    r = r * 31 + ((L.fn((int x) -> x * 75L + p, p) ^ (G6.mk(p) instanceof C6_0 ? 5 : 6)) - p);
    r = r * 31 + I6_2.K2;
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + I6_0.K0;
    {
      Object[] o = new C6_1[2];
      r = r * 31 + (o instanceof C6_4[] ? 1 : 2) + (o instanceof I6_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((C6_0.s - new C6_5.In(p).w(p)) - (p + 9));
    r = r * 31 + (71715L - E6.values()[-p & 3].v(-p));
    r = r * 31 + (G6.ai1((p ^ 13)).i2((p ^ 13)) ^ E6.values()[-p & 3].v(-p));
    r = r * 31 + (((new C6_1((p + 3)).a2((p + 3)) * (p ^ 14)) + G6.ai0(-p).i0(-p)) * new C6_1((p ^ 10)).a0((p ^ 10)));
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + L.reflect(new C6_4(p), "a1", p);
    r = r * 31 + L.reflect(new C6_5(p), "a0", p);
    r = r * 31 + ((G6.ai0((p + 6)).i0((p + 6)) * L.len(new C6_5[(p + 9) & 3][2])) + E6.values()[p & 3].v(p));
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((I6_1) L.proxy(I6_1.class)).i2(p);
    r = r * 31 + L.construct(C6_3.class, p);
    try {
      r += new Late2().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

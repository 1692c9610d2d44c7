package w;
/* generated by tools/genlink.py */
interface I0_0 {
  int K0 = Integer.parseInt("22");
  default long i0(int p) { return ((-p ^ new C0_2((p ^ 14)).f1.length()) - "k7".hashCode()); }
  default long i1(int p) { return (((new C0_3.In((p ^ 7)).w((p ^ 7)) - 18010) - G0.ai0(p).i0(p)) + G0.ai0((p + 3)).i0((p + 3))); }
}
interface I0_1 {
  int K1 = Integer.parseInt("87");
  long i2(int p);
}
interface I0_2 extends I0_1 {
  int K2 = Integer.parseInt("67");
  default long i3(int p) { return ((G0.ai1((p ^ 2)).i2((p ^ 2)) + (p + 8)) ^ L.fn((int x) -> x * 56L + p, p)); }
}
class C0_0 {
  static long s = Integer.parseInt("385");
  static final int CONST = 818797;
  static final String TEXT = "C0_0-17";
  float f1;
  byte f3;
  C0_0(int p) {
    f1 = (float) (p * 7);
    f3 = (byte) (p * 7);
  }
  static long t(int p) { return p * 18L + CONST + TEXT.length(); }
  synchronized long a3(int p) { return ((G0.mk(p) instanceof I0_0 ? 15 : 16) ^ new C0_1.In(-p).w(-p)); }
  private long pv(int p) { return p ^ 555; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C0_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C0_0.this.f3; }
  }
}
class C0_1 extends C0_0 implements I0_0, I0_2 {
  static long s = C0_0.s + 25;
  static final int CONST = 509618;
  static final String TEXT = "C0_1-74";
  short f0;
  byte f2;
  int f3;
  C0_1(int p) {
    super(p * 4);
    f0 = (short) (p * 7);
    f2 = (byte) (p * 7);
    f3 = p * 3;
  }
  static long t(int p) { return p * 44L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return (((((C0_0) new C0_1(p)).f3 - -p) * (G0.mk((p + 6)) instanceof I0_0 ? 15 : 16)) - (p ^ 14)); }
  long a3(int p) { return ((L.name(C0_3.class) - C0_4.s) ^ L.len(new C0_5[-p & 3][2])); }
  long a4(int p) { return (((long) ((C0_0) this).f1 ^ C0_4.s) - -p); }
  public long i1(int p) { return ((E0.values()[p & 3].v(p) - L.sw(p)) - L.sw(-p)); }
  public final long i2(int p) { return ((C0_4.t(-p) - L.sw((p ^ 15))) * C0_3.s); }
  private long pv(int p) { return p ^ 603; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C0_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C0_1.this.f0; }
  }
}
class C0_2 extends C0_1 {
  static long s = Integer.parseInt("443");
  static final int CONST = 242905;
  static final String TEXT = "C0_2-26";
  String f1;
  C0_2(int p) {
    super(p * 5);
    f1 = "v" + p;
  }
  static long t(int p) { return p * 32L + CONST + TEXT.length(); }
  long a2(int p) { return (this.a0(p) - G0.cast4(-p)); }
  long a4(int p) { return (((new C0_4((p + 9)).f0 * C0_2.s) - L.name(int[][].class)) ^ (G0.mk(-p) instanceof C0_3 ? 5 : 6)); }
  public final long i1(int p) { return (((L.fn((int x) -> x * 13L + p, -p) ^ (G0.mk((p ^ 13)) instanceof C0_5 ? 5 : 6)) - "x3".length()) * p); }
  private long pv(int p) { return p ^ 234; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C0_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C0_0) C0_2.this).f1; }
  }
}
class C0_3 extends C0_0 implements I0_0, I0_1, I0_2 {
  static long s = C0_0.s + 40;
  static final int CONST = 347002;
  static final String TEXT = "C0_3-31";
  Object f0;
  String f1;
  long f2;
  float f3;
  C0_3(int p) {
    super(p * 1);
    f0 = Integer.valueOf(p);
    f1 = "v" + p;
    f2 = p * 5000000000L;
    f3 = (float) (p * 7);
  }
  static long t(int p) { return p * 38L + CONST + TEXT.length(); }
  public synchronized long i0(int p) { return (C0_1.s + p); }
  public synchronized long i1(int p) { return (G0.cast4(-p) - L.len(new C0_0[-p & 3][2])); }
  public long i2(int p) { return (L.sw((p + 8)) * G0.as2((p ^ 13)).a0((p ^ 13))); }
  private long pv(int p) { return p ^ 986; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C0_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C0_0) C0_3.this).f1; }
  }
}
class C0_4 extends C0_1 implements I0_2 {
  static long s = C0_1.s + 38;
  static final int CONST = 282518;
  static final String TEXT = "C0_4-57";
  char f0;
  short f1;
  double f2;
  int f3;
  C0_4(int p) {
    super(p * 2);
    f0 = (char) (p * 7);
    f1 = (short) (p * 7);
    f2 = (double) (p * 7);
    f3 = p * 3;
  }
  static long t(int p) { return p * 13L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return (((-p * p) * L.fn((int x) -> x * 14L + p, (p ^ 2))) ^ (G0.mk(-p) instanceof C0_0 ? 5 : 6)); }
  long a4(int p) { return ((G0.ai1(p).i2(p) + E0.values()[(p + 5) & 3].v((p + 5))) * G0.ai1(-p).i2(-p)); }
  private long pv(int p) { return p ^ 618; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C0_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C0_0) C0_4.this).f3; }
  }
}
class C0_5 extends C0_2 implements I0_0, I0_1, I0_2 {
  static long s = C0_3.s + 52;
  static final int CONST = 398848;
  static final String TEXT = "C0_5-91";
  long f1;
  long f2;
  C0_5(int p) {
    super(p * 4);
    f1 = p * 5000000000L;
    f2 = p * 5000000000L;
  }
  static long t(int p) { return p * 15L + CONST + TEXT.length(); }
  protected long a1(int p) { return (((super.a0(-p) * new C0_1.In((p + 6)).w((p + 6))) - E0.values()[p & 3].v(p)) + 50503L); }
  long a3(int p) { return ((new C0_0.In(-p).w(-p) ^ L.len(new C0_5[(p ^ 5) & 3][2])) + this.f2); }
  long a4(int p) { return (L.name(C0_1.class) - L.len(new C0_2[(p ^ 15) & 3][2])); }
  public long i0(int p) { return (((L.name(int[][].class) ^ this.f1) ^ L.name(int[][].class)) ^ -p); }
  private long pv(int p) { return p ^ 383; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C0_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C0_1) C0_5.this).f2; }
  }
}
enum E0 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 3; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb0 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 2; }
}
public class G0 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return null;
    case 1: return new C0_2(p);
    case 2: return null;
    case 3: return new C0_3(p);
    case 4: return new C0_4(p);
    case 5: return new C0_5(p);
    case 6: return new C0_4(p);
    default: return new C0_3(p);
    }
  }
  static C0_0 as0(int p) {
    if ((p & 3) == 3) return new C0_0(p + 1);
    if ((p & 3) == 3) return new C0_1(p + 1);
    if ((p & 3) == 1) return new C0_2(p + 1);
    if ((p & 3) == 0) return new C0_3(p + 1);
    if ((p & 3) == 0) return new C0_4(p + 1);
    return new C0_5(p);
  }
  static long cast0(int p) {
    try {
      C0_0 c = (C0_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C0_1 as1(int p) {
    if ((p & 3) == 0) return new C0_1(p + 1);
    if ((p & 3) == 0) return new C0_2(p + 1);
    if ((p & 3) == 3) return new C0_4(p + 1);
    return new C0_5(p);
  }
  static long cast1(int p) {
    try {
      C0_1 c = (C0_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C0_2 as2(int p) {
    if ((p & 3) == 2) return new C0_2(p + 1);
    return new C0_5(p);
  }
  static long cast2(int p) {
    try {
      C0_2 c = (C0_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C0_3 as3(int p) {
    return new C0_3(p);
  }
  static long cast3(int p) {
    try {
      C0_3 c = (C0_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C0_4 as4(int p) {
    return new C0_4(p);
  }
  static long cast4(int p) {
    try {
      C0_4 c = (C0_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C0_5 as5(int p) {
    return new C0_5(p);
  }
  static long cast5(int p) {
    try {
      C0_5 c = (C0_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I0_0 ai0(int p) {
    if ((p & 3) == 1) return new C0_1(p + 2);
    if ((p & 3) == 2) return new C0_2(p + 2);
    if ((p & 3) == 2) return new C0_3(p + 2);
    if ((p & 3) == 2) return new C0_4(p + 2);
    return new C0_5(p);
  }
  static I0_1 ai1(int p) {
    if ((p & 3) == 1) return new C0_1(p + 2);
    if ((p & 3) == 3) return new C0_2(p + 2);
    if ((p & 3) == 1) return new C0_3(p + 2);
    if ((p & 3) == 2) return new C0_4(p + 2);
    return new C0_5(p);
  }
  static I0_2 ai2(int p) {
    if ((p & 3) == 1) return new C0_1(p + 2);
    if ((p & 3) == 2) return new C0_2(p + 2);
    if ((p & 3) == 2) return new C0_3(p + 2);
    if ((p & 3) == 0) return new C0_4(p + 2);
    return new C0_5(p);
  }
  static long e0(int p) {
    long r = 0;
    try {
      r += Late0.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += new Late0().virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += Late0.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.reflect(new C0_4(p), "a4", p);
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + ((new C0_4((p + 7)).a4((p + 7)) ^ p) - new C0_5(p).f1);
    r = r * 31 + ((((G0.as5(-p).a4(-p) + -p) - (p + 1)) ^ p) ^ (p + 9));
    r = r * 31 + new Fb0().f((long) p) + (Long) ((L.Fn) new Fb0()).f(5L) + ((L.Both<Long>) new Fb0()).f(6L);
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + ((I0_1) L.proxy(I0_1.class)).i2(p);
    r = r * 31 + ((((-p - L.name(C0_5[].class)) + L.name(C0_2.class)) ^ (G0.mk(-p) instanceof C0_4 ? 5 : 6)) ^ "xxxx19".length());
    r = r * 31 + new Fb0().f((long) p) + (Long) ((L.Fn) new Fb0()).f(5L) + ((L.Both<Long>) new Fb0()).f(6L);
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + ((G0.ai1(p).i2(p) * "k5".hashCode()) * p);
    r = r * 31 + (((L.sw((p + 7)) + L.sw(p)) + G0.as2((p + 1)).a4((p + 1))) + -p);
    r = r * 31 + ((((L.name(I0_0.class) * G0.ai0(-p).i0(-p)) * G0.cast1(-p)) ^ "k7".hashCode()) ^ new C0_3.In((p + 8)).w((p + 8)));
    try {
      r += Late0.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.construct(C0_5.class, p);
    r = r * 31 + ((((C0_2.t((p + 8)) * G0.cast0(p)) - new C0_3.In((p + 7)).w((p + 7))) + G0.cast5((p + 3))) * -p);
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r += Late0.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new Fb0().f((long) p) + (Long) ((L.Fn) new Fb0()).f(5L) + ((L.Both<Long>) new Fb0()).f(6L);
    r = r * 31 + ((((L.sw(-p) + G0.ai1(-p).i2(-p)) - new C0_5.In(-p).w(-p)) ^ 26307) ^ p);
    r = r * 31 + L.construct(C0_3.class, p);
    r = r * 31 + new Fb0().f((long) p) + (Long) ((L.Fn) new Fb0()).f(5L) + ((L.Both<Long>) new Fb0()).f(6L);
    r = r * 31 + ((I0_1) L.proxy(I0_1.class)).i2(p);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + L.reflect(new C0_1(p), "a4", p);
    r = r * 31 + (((((G0.mk((p ^ 2)) instanceof I0_1 ? 15 : 16) * G0.as4((p ^ 12)).a0((p ^ 12))) ^ 9945L) - new C0_2(p).a2(p)) * (p + 9));
    r = r * 31 + L.reflect(new C0_5(p), "a3", p);
    try {
      r += Late0.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (((new C0_1(-p).a3(-p) ^ "xx28".length()) * G0.as4((p ^ 2)).a3((p ^ 2))) ^ (G0.mk((p + 9)) instanceof C0_4 ? 5 : 6));
    r = r * 31 + (L.name(I0_2.class) + C0_5.s);
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + ((I0_2) L.proxy(I0_2.class)).i3(p);
    r = r * 31 + ((I0_2) L.proxy(I0_2.class)).i3(p);
    r = r * 31 + ((G0.ai1(-p).i2(-p) + C0_3.s) - (G0.mk((p + 9)) instanceof C0_5 ? 5 : 6));
    r = r * 31 + new C0_0(p).new Inner().w(p);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + new C0_1(p).new Inner().w(p);
    r = r * 31 + ((-p - L.sw(-p)) - G0.as5(p).a2(p));
    r = r * 31 + L.reflect(new C0_2(p), "a2", p);
    r = r * 31 + I0_1.K1;
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

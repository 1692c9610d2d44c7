package w;
/* generated by tools/genlink.py */
interface I18_0 {
  int K0 = Integer.parseInt("5");
  long i0(int p);
  default long i1(int p) { return (-p * C18_2.s); }
}
interface I18_1 extends I18_0 {
  int K1 = Integer.parseInt("53");
  long i2(int p);
}
interface I18_2 extends I18_0 {
  int K2 = Integer.parseInt("42");
  long i3(int p);
}
class C18_0 implements I18_0, I18_1 {
  static long s = Integer.parseInt("667");
  static final int CONST = 498204;
  static final String TEXT = "C18_0-2";
  String f0;
  float f1;
  char f2;
  char f3;
  C18_0(int p) {
    f0 = "v" + p;
    f1 = (float) (p * 7);
    f2 = (char) (p * 7);
    f3 = (char) (p * 7);
  }
  static long t(int p) { return p * 14L + CONST + TEXT.length(); }
  public long a0(int p) { return ((G18.cast0((p + 7)) + L.sw((p + 7))) ^ (G18.mk(p) instanceof C18_0 ? 5 : 6)); }
  public long a1(int p) { return (((new C18_1.In((p ^ 2)).w((p ^ 2)) - E18.values()[(p + 9) & 3].v((p + 9))) * G18.ai0(p).i1(p)) ^ "xx12".length()); }
  public long a2(int p) { return (((G18.mk(-p) instanceof C18_4 ? 5 : 6) ^ "k3".hashCode()) - E18.values()[(p ^ 13) & 3].v((p ^ 13))); }
  long a4(int p) { return ((new C18_5.In(-p).w(-p) - E18.values()[-p & 3].v(-p)) - this.f3); }
  public synchronized long i0(int p) { return ((-p ^ "k2".hashCode()) ^ C18_2.s); }
  public long i2(int p) { return (((L.len(new C18_0[(p + 9) & 3][2]) + -p) - (p ^ 12)) - L.name(long.class)); }
  private long pv(int p) { return p ^ 481; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C18_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C18_0.this.f1; }
  }
}
class C18_1 implements I18_0, I18_1 {
  static long s = Integer.parseInt("964");
  static final int CONST = 784789;
  static final String TEXT = "C18_1-17";
  long f0;
  C18_1(int p) {
    f0 = p * 5000000000L;
  }
  static long t(int p) { return p * 12L + CONST + TEXT.length(); }
  public long a0(int p) { return ((G18.ai0((p ^ 12)).i0((p ^ 12)) + (p ^ 3)) * (G18.mk((p ^ 4)) instanceof C18_1 ? 5 : 6)); }
  public synchronized long a1(int p) { return (((C18_0.t(p) ^ G18.as2(p).a0(p)) * (p + 9)) * new C18_5.In(p).w(p)); }
  public long a3(int p) { return (((L.fn((int x) -> C18_2.t(x) + 13, p) - G18.ai0((p + 9)).i0((p + 9))) - C18_5.s) + L.len(new C18_0[p & 3][2])); }
  long a4(int p) { return ((E18.values()[(p + 5) & 3].v((p + 5)) + (p + 5)) * new C18_5(p).a1(p)); }
  public synchronized long i0(int p) { return (C18_1.t((p + 6)) + 81035L); }
  public final long i2(int p) { return (((p ^ L.sw((p + 9))) * G18.ai0((p + 7)).i1((p + 7))) - C18_3.t((p + 5))); }
  private long pv(int p) { return p ^ 538; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C18_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C18_1.this.f0; }
  }
}
class C18_2 implements I18_0 {
  static long s = Integer.parseInt("431");
  static final int CONST = 664293;
  static final String TEXT = "C18_2-18";
  short f1;
  char f2;
  long f3;
  C18_2(int p) {
    f1 = (short) (p * 7);
    f2 = (char) (p * 7);
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 25L + CONST + TEXT.length(); }
  public synchronized long a0(int p) { return (((79277L - G18.ai0((p + 2)).i0((p + 2))) ^ (p + 2)) * new C18_4.In(p).w(p)); }
  public long a1(int p) { return (L.name(long.class) + C18_4.t(-p)); }
  public final long i0(int p) { return ((p ^ 7) - (p + 8)); }
  private long pv(int p) { return p ^ 459; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C18_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C18_2.this.f2; }
  }
}
class C18_3 extends C18_2 implements I18_1, I18_2 {
  static long s = Integer.parseInt("734");
  static final int CONST = 934041;
  static final String TEXT = "C18_3-74";
  short f1;
  int f2;
  Object f3;
  C18_3(int p) {
    super(p * 2);
    f1 = (short) (p * 7);
    f2 = p * 3;
    f3 = Integer.valueOf(p);
  }
  static long t(int p) { return p * 6L + CONST + TEXT.length(); }
  public long a0(int p) { return ((new C18_5.In(-p).w(-p) ^ (p ^ 6)) * C18_1.t((p + 3))); }
  long a4(int p) { return (((G18.as4(p).a0(p) - L.name(I18_1.class)) * L.name(I18_1.class)) - (G18.mk((p + 9)) instanceof C18_4 ? 5 : 6)); }
  public final long i2(int p) { return (((G18.ai0(-p).i1(-p) ^ C18_3.s) - -p) ^ G18.ai0(p).i0(p)); }
  public long i3(int p) { return (((-p + L.len(new C18_3[(p ^ 11) & 3][2])) ^ 69580) - G18.ai0((p ^ 13)).i1((p ^ 13))); }
  private long pv(int p) { return p ^ 549; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C18_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C18_2) C18_3.this).f2; }
  }
}
class C18_4 extends C18_2 implements I18_2 {
  static long s = C18_0.s + 1;
  static final int CONST = 692341;
  static final String TEXT = "C18_4-90";
  byte f0;
  boolean f2;
  long f3;
  C18_4(int p) {
    super(p * 2);
    f0 = (byte) (p * 7);
    f2 = (p & 1) == 0;
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 38L + CONST + TEXT.length(); }
  public synchronized long a0(int p) { return (C18_0.t(p) ^ G18.cast0((p + 8))); }
  public synchronized long i3(int p) { return (G18.ai0(-p).i0(-p) * L.len(new C18_4[p & 3][2])); }
  private long pv(int p) { return p ^ 133; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C18_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C18_2) C18_4.this).f1; }
  }
}
class C18_5 extends C18_0 implements I18_0, I18_1 {
  static long s = C18_2.s + 68;
  static final int CONST = 913033;
  static final String TEXT = "C18_5-19";
  float f0;
  C18_5(int p) {
    super(p * 5);
    f0 = (float) (p * 7);
  }
  static long t(int p) { return p * 42L + CONST + TEXT.length(); }
  public synchronized long a1(int p) { return (("k3".hashCode() * (p + 3)) ^ (p ^ 9)); }
  public long a2(int p) { return ((E18.values()[(p + 5) & 3].v((p + 5)) ^ C18_0.t(p)) ^ C18_3.t(p)); }
  long a4(int p) { return ((new C18_0((p + 4)).a1((p + 4)) ^ L.fn((int x) -> C18_0.t(x) + 30, (p ^ 7))) + L.sw((p + 5))); }
  public synchronized long i0(int p) { return ((-p + C18_1.s) ^ p); }
  public final long i1(int p) { return ((((long) ((C18_0) this).f1 - L.fn(C18_4::t, -p)) ^ (p + 3)) ^ new C18_1.In((p ^ 12)).w((p ^ 12))); }
  public long i2(int p) { return (((p + 5) ^ (G18.mk((p ^ 9)) instanceof C18_0 ? 5 : 6)) * ((C18_0) this).f0.length()); }
  private long pv(int p) { return p ^ 332; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C18_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C18_0) C18_5.this).f0.length(); }
  }
}
enum E18 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 7; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb18 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 2; }
}
public class G18 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new int[2];
    case 1: return new C18_1(p);
    case 2: return new int[2];
    case 3: return new C18_1(p);
    case 4: return new C18_1(p);
    case 5: return new C18_0(p);
    case 6: return new C18_0(p);
    default: return new C18_3(p);
    }
  }
  static C18_0 as0(int p) {
    if ((p & 3) == 2) return new C18_0(p + 1);
    return new C18_5(p);
  }
  static long cast0(int p) {
    try {
      C18_0 c = (C18_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C18_1 as1(int p) {
    return new C18_1(p);
  }
  static long cast1(int p) {
    try {
      C18_1 c = (C18_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C18_2 as2(int p) {
    if ((p & 3) == 3) return new C18_2(p + 1);
    if ((p & 3) == 1) return new C18_3(p + 1);
    return new C18_4(p);
  }
  static long cast2(int p) {
    try {
      C18_2 c = (C18_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C18_3 as3(int p) {
    return new C18_3(p);
  }
  static long cast3(int p) {
    try {
      C18_3 c = (C18_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C18_4 as4(int p) {
    return new C18_4(p);
  }
  static long cast4(int p) {
    try {
      C18_4 c = (C18_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C18_5 as5(int p) {
    return new C18_5(p);
  }
  static long cast5(int p) {
    try {
      C18_5 c = (C18_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I18_0 ai0(int p) {
    if ((p & 3) == 2) return new C18_0(p + 2);
    if ((p & 3) == 0) return new C18_1(p + 2);
    if ((p & 3) == 2) return new C18_2(p + 2);
    if ((p & 3) == 3) return new C18_3(p + 2);
    if ((p & 3) == 0) return new C18_4(p + 2);
    return new C18_5(p);
  }
  static I18_1 ai1(int p) {
    if ((p & 3) == 1) return new C18_0(p + 2);
    if ((p & 3) == 1) return new C18_1(p + 2);
    if ((p & 3) == 0) return new C18_3(p + 2);
    return new C18_5(p);
  }
  static I18_2 ai2(int p) {
    if ((p & 3) == 0) return new C18_3(p + 2);
    return new C18_4(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + (((L.len(new C18_4[(p + 2) & 3][2]) - new C18_0((p ^ 8)).a4((p ^ 8))) * (G18.mk((p ^ 4)) instanceof C18_1 ? 5 : 6)) + L.sw(p));
    r = r * 31 + I18_1.K1;
    r = r * 31 + ((((new C18_5((p + 7)).a4((p + 7)) + new C18_3.In(p).w(p)) + C18_2.t((p ^ 9))) + ((C18_2) new C18_3(-p)).f1) * p);
    r = r * 31 + ((I18_0) L.proxy(I18_0.class)).i0(p);
    r = r * 31 + L.reflect(new C18_4(p), "a0", p);
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + (E18.values()[p & 3].v(p) - G18.ai0((p + 4)).i1((p + 4)));
    r = r * 31 + (((((G18.mk((p ^ 13)) instanceof C18_3 ? 5 : 6) * (G18.mk((p ^ 4)) instanceof C18_1 ? 5 : 6)) + L.sw(-p)) + new C18_0((p ^ 7)).a1((p ^ 7))) * G18.as1((p ^ 12)).a3((p ^ 12)));
    r = r * 31 + new C18_0(p).new Inner().w(p);
    r = r * 31 + new C18_5(p).new Inner().w(p);
    r = r * 31 + (((C18_5.t(p) - G18.as1(p).a3(p)) + L.name(long.class)) ^ L.sw((p + 1)));
    try {
      r += Late2.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + L.construct(C18_2.class, p);
    try {
      r += Late2.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (C18_3.t((p + 8)) ^ new C18_4.In((p + 2)).w((p + 2)));
    r = r * 31 + L.construct(C18_4.class, p);
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + I18_1.K1;
    {
      Object[] o = new C18_3[2];
      r = r * 31 + (o instanceof C18_4[] ? 1 : 2) + (o instanceof I18_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + (L.len(new C18_0[(p ^ 15) & 3][2]) ^ L.sw((p ^ 4)));
    r = r * 31 + ((G18.cast1((p + 1)) - "xxx88".length()) - p);
    try {
      r += new Late2().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new Fb18().f((long) p) + (Long) ((L.Fn) new Fb18()).f(5L) + ((L.Both<Long>) new Fb18()).f(6L);
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + L.reflect(new C18_2(p), "a1", p);
    r = r * 31 + new Fb18().f((long) p) + (Long) ((L.Fn) new Fb18()).f(5L) + ((L.Both<Long>) new Fb18()).f(6L);
    try {
      r += new Late2().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((G18.mk(-p) instanceof I18_1 ? 15 : 16) ^ G18.ai1(p).i2(p));
    r = r * 31 + new Fb18().f((long) p) + (Long) ((L.Fn) new Fb18()).f(5L) + ((L.Both<Long>) new Fb18()).f(6L);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + new C18_1(p).new Inner().w(p);
    r = r * 31 + L.reflect(new C18_3(p), "a1", p);
    r = r * 31 + new C18_1(p).new Inner().w(p);
    r = r * 31 + ((I18_2) L.proxy(I18_2.class)).i3(p);
    r = r * 31 + (44742 ^ (p + 8));
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + (((C18_4.t(p) - E18.values()[(p ^ 12) & 3].v((p ^ 12))) * "k8".hashCode()) * new C18_1(p).a3(p));
    r = r * 31 + L.reflect(new C18_4(p), "a0", p);
    {
      Object[] o = new C18_5[2];
      r = r * 31 + (o instanceof C18_5[] ? 1 : 2) + (o instanceof I18_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((((G18.as5((p ^ 13)).a2((p ^ 13)) + (new C18_4((p ^ 2)).f2 ? 3 : 4)) * p) ^ (p + 2)) ^ C18_3.t((p ^ 1)));
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + I18_2.K2;
    r = r * 31 + new Fb18().f((long) p) + (Long) ((L.Fn) new Fb18()).f(5L) + ((L.Both<Long>) new Fb18()).f(6L);
    r = r * 31 + ((I18_2) L.proxy(I18_2.class)).i3(p);
    r = r * 31 + (L.sw(p) * L.sw(p));
    r = r * 31 + L.construct(C18_1.class, p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

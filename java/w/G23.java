package w;
/* generated by tools/genlink.py */
interface I23_0 {
  int K0 = Integer.parseInt("67");
  long i0(int p);
  long i1(int p);
}
interface I23_1 {
  int K1 = Integer.parseInt("65");
  default long i2(int p) { return (((-p ^ new C23_4(p).a0(p)) - L.sw(-p)) ^ (p ^ 1)); }
}
interface I23_2 extends I23_1 {
  int K2 = Integer.parseInt("83");
  long i3(int p);
}
abstract class C23_0 {
  static long s = Integer.parseInt("770");
  static final int CONST = 622510;
  static final String TEXT = "C23_0-86";
  Object f0;
  double f2;
  C23_0(int p) {
    f0 = Integer.valueOf(p);
    f2 = (double) (p * 7);
  }
  static long t(int p) { return p * 24L + CONST + TEXT.length(); }
  protected long a2(int p) { return ("xxx72".length() ^ new C23_1.In((p + 6)).w((p + 6))); }
  public long a3(int p) { return (((L.fn((int x) -> C23_1.t(x) + 71, (p ^ 14)) ^ C23_5.s) - L.fn(C23_2::t, p)) * (G23.mk((p + 7)) instanceof C23_2 ? 5 : 6)); }
  private long pv(int p) { return p ^ 324; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C23_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + L.h(C23_0.this.f0); }
  }
}
abstract class C23_1 extends C23_0 implements I23_0, I23_2 {
  static long s = C23_0.s + 59;
  static final int CONST = 20855;
  static final String TEXT = "C23_1-11";
  short f0;
  String f2;
  int f3;
  C23_1(int p) {
    super(p * 3);
    f0 = (short) (p * 7);
    f2 = "v" + p;
    f3 = p * 3;
  }
  static long t(int p) { return p * 41L + CONST + TEXT.length(); }
  public abstract long a3(int p);
  public long i0(int p) { return (((G23.mk(-p) instanceof C23_3 ? 5 : 6) * (p + 7)) * 72068L); }
  public long i2(int p) { return ((((p + 7) - C23_4.t(p)) - G23.as4((p + 5)).a0((p + 5))) * p); }
  public long i3(int p) { return (G23.cast3(-p) * (p ^ 2)); }
  private long pv(int p) { return p ^ 125; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C23_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C23_1.this.f3; }
  }
}
class C23_2 implements I23_1, I23_2 {
  static long s = Integer.parseInt("541");
  static final int CONST = 20433;
  static final String TEXT = "C23_2-49";
  Object f0;
  double f1;
  C23_2(int p) {
    f0 = Integer.valueOf(p);
    f1 = (double) (p * 7);
  }
  static long t(int p) { return p * 48L + CONST + TEXT.length(); }
  public long a3(int p) { return (G23.as3((p ^ 3)).a2((p ^ 3)) ^ 53016); }
  public long i2(int p) { return ((long) this.f1 + L.sw(p)); }
  public long i3(int p) { return ((G23.as5((p ^ 14)).a1((p ^ 14)) * -p) ^ p); }
  private long pv(int p) { return p ^ 880; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C23_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + L.h(C23_2.this.f0); }
  }
}
class C23_3 extends C23_1 implements I23_1 {
  static long s = Integer.parseInt("254");
  static final int CONST = 120613;
  static final String TEXT = "C23_3-63";
  long f0;
  float f1;
  float f2;
  C23_3(int p) {
    super(p * 4);
    f0 = p * 5000000000L;
    f1 = (float) (p * 7);
    f2 = (float) (p * 7);
  }
  static long t(int p) { return p * 50L + CONST + TEXT.length(); }
  public synchronized long a3(int p) { return (G23.ai1((p + 9)).i2((p + 9)) ^ G23.ai2((p + 1)).i3((p + 1))); }
  public synchronized long i1(int p) { return (((p + 9) * L.len(new C23_5[(p + 8) & 3][2])) ^ (G23.mk((p + 4)) instanceof I23_2 ? 15 : 16)); }
  private long pv(int p) { return p ^ 632; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C23_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C23_3.this.f0; }
  }
}
class C23_4 extends C23_1 implements I23_2 {
  static long s = C23_0.s + 60;
  static final int CONST = 907169;
  static final String TEXT = "C23_4-92";
  char f1;
  long f3;
  C23_4(int p) {
    super(p * 5);
    f1 = (char) (p * 7);
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 41L + CONST + TEXT.length(); }
  protected synchronized long a0(int p) { return (((p + 1) + L.name(long.class)) - p); }
  protected long a2(int p) { return ((p ^ (G23.mk(-p) instanceof C23_0 ? 5 : 6)) * 90752); }
  public long a3(int p) { return ((G23.ai2((p ^ 2)).i3((p ^ 2)) + G23.as4(-p).a0(-p)) - L.sw((p ^ 3))); }
  public synchronized long i1(int p) { return (((p ^ 3) * C23_0.t((p ^ 6))) ^ (G23.mk((p + 3)) instanceof C23_2 ? 5 : 6)); }
  public long i2(int p) { return (((p + 2) * (G23.mk((p + 4)) instanceof C23_2 ? 5 : 6)) + G23.as4(-p).a0(-p)); }
  private long pv(int p) { return p ^ 482; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C23_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C23_0) C23_4.this).f2; }
  }
}
class C23_5 extends C23_1 implements I23_0, I23_2 {
  static long s = C23_4.s + 77;
  static final int CONST = 956632;
  static final String TEXT = "C23_5-19";
  boolean f1;
  String f2;
  C23_5(int p) {
    super(p * 2);
    f1 = (p & 1) == 0;
    f2 = "v" + p;
  }
  static long t(int p) { return p * 47L + CONST + TEXT.length(); }
  protected synchronized long a1(int p) { return ((((C23_1) this).f2.length() - new C23_4(-p).a0(-p)) - (G23.mk((p ^ 10)) instanceof I23_2 ? 15 : 16)); }
  public long a3(int p) { return (G23.cast5((p + 1)) + (G23.mk(p) instanceof I23_1 ? 15 : 16)); }
  public synchronized long a4(int p) { return (((G23.ai0(p).i0(p) * L.name(C23_5[].class)) + this.a1((p + 8))) * G23.ai1(-p).i2(-p)); }
  public long i0(int p) { return ((E23.values()[p & 3].v(p) * L.fn((int x) -> x * 24L + p, p)) + L.sw(-p)); }
  public long i1(int p) { return (((C23_2.t(p) * L.sw((p ^ 14))) ^ (G23.mk(-p) instanceof C23_2 ? 5 : 6)) * (p + 2)); }
  private long pv(int p) { return p ^ 86; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C23_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C23_1) C23_5.this).f0; }
  }
}
enum E23 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 4; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb23 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 9; }
}
public class G23 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return Integer.valueOf(p);
    case 1: return new C23_5(p);
    case 2: return "text" + p;
    case 3: return new C23_5(p);
    case 4: return new int[2];
    case 5: return new C23_5(p);
    case 6: return new C23_3(p);
    default: return new C23_4(p);
    }
  }
  static C23_0 as0(int p) {
    if ((p & 3) == 0) return new C23_3(p + 1);
    if ((p & 3) == 2) return new C23_4(p + 1);
    return new C23_5(p);
  }
  static long cast0(int p) {
    try {
      C23_0 c = (C23_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C23_1 as1(int p) {
    if ((p & 3) == 2) return new C23_3(p + 1);
    if ((p & 3) == 0) return new C23_4(p + 1);
    return new C23_5(p);
  }
  static long cast1(int p) {
    try {
      C23_1 c = (C23_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C23_2 as2(int p) {
    return new C23_2(p);
  }
  static long cast2(int p) {
    try {
      C23_2 c = (C23_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C23_3 as3(int p) {
    return new C23_3(p);
  }
  static long cast3(int p) {
    try {
      C23_3 c = (C23_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C23_4 as4(int p) {
    return new C23_4(p);
  }
  static long cast4(int p) {
    try {
      C23_4 c = (C23_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C23_5 as5(int p) {
    return new C23_5(p);
  }
  static long cast5(int p) {
    try {
      C23_5 c = (C23_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I23_0 ai0(int p) {
    if ((p & 3) == 0) return new C23_3(p + 2);
    if ((p & 3) == 2) return new C23_4(p + 2);
    return new C23_5(p);
  }
  static I23_1 ai1(int p) {
    if ((p & 3) == 3) return new C23_2(p + 2);
    if ((p & 3) == 1) return new C23_3(p + 2);
    if ((p & 3) == 2) return new C23_4(p + 2);
    return new C23_5(p);
  }
  static I23_2 ai2(int p) {
    if ((p & 3) == 2) return new C23_2(p + 2);
    if ((p & 3) == 3) return new C23_3(p + 2);
    if ((p & 3) == 0) return new C23_4(p + 2);
    return new C23_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + new C23_3(p).new Inner().w(p);
    r = r * 31 + L.construct(C23_4.class, p);
    r = r * 31 + new C23_5(p).new Inner().w(p);
    r = r * 31 + (G23.as1(p).a3(p) ^ G23.ai2((p + 7)).i3((p + 7)));
    r = r * 31 + ((new C23_5(-p).a4(-p) + 15152) + new C23_5(-p).a4(-p));
    r = r * 31 + ((("xxx21".length() - L.fn((int x) -> C23_4.t(x) + 6, (p ^ 3))) - -p) ^ -p);
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + ((I23_2) L.proxy(I23_2.class)).i3(p);
    r = r * 31 + ((((G23.mk(p) instanceof C23_1 ? 5 : 6) ^ new C23_5.In(-p).w(-p)) * 29193L) * (p + 5));
    r = r * 31 + ((C23_3.t((p ^ 14)) - G23.ai1((p + 2)).i2((p + 2))) * G23.ai1((p ^ 11)).i2((p ^ 11)));
    {
      Object[] o = new C23_3[2];
      r = r * 31 + (o instanceof C23_0[] ? 1 : 2) + (o instanceof I23_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r += Late3.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.construct(C23_5.class, p);
    r = r * 31 + (((E23.values()[(p ^ 1) & 3].v((p ^ 1)) * p) ^ G23.ai0((p ^ 2)).i1((p ^ 2))) - L.len(new C23_2[(p ^ 4) & 3][2]));
    r = r * 31 + I23_1.K1;
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + (((p ^ (G23.mk(-p) instanceof C23_0 ? 5 : 6)) ^ (p + 2)) + L.h(new C23_2(-p).f0));
    {
      Object[] o = new C23_3[2];
      r = r * 31 + (o instanceof C23_0[] ? 1 : 2) + (o instanceof I23_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + (((L.fn(C23_5::t, -p) ^ G23.ai0(-p).i1(-p)) - C23_3.s) * (G23.mk(-p) instanceof I23_1 ? 15 : 16));
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + new C23_4(p).new Inner().w(p);
    {
      Object[] o = new C23_4[2];
      r = r * 31 + (o instanceof C23_3[] ? 1 : 2) + (o instanceof I23_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + (L.sw((p + 7)) * (p ^ 6));
    r = r * 31 + (((((long) ((C23_0) new C23_4(-p)).f2 - (G23.mk(p) instanceof I23_2 ? 15 : 16)) - C23_4.s) - -p) + G23.ai0(p).i1(p));
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + ((((G23.ai0(p).i0(p) - new C23_1.In((p + 5)).w((p + 5))) - (p + 5)) + "k2".hashCode()) ^ L.h(new C23_2(-p).f0));
    r = r * 31 + ((I23_1) L.proxy(I23_1.class)).i2(p);
    r = r * 31 + L.construct(C23_5.class, p);
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + new Fb23().f((long) p) + (Long) ((L.Fn) new Fb23()).f(5L) + ((L.Both<Long>) new Fb23()).f(6L);
    r = r * 31 + ((I23_0) L.proxy(I23_0.class)).i1(p);
    r = r * 31 + new C23_2(p).new Inner().w(p);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + (((G23.ai0(-p).i1(-p) - G23.as5(p).a2(p)) * E23.values()[(p ^ 5) & 3].v((p ^ 5))) + 50809L);
    r = r * 31 + ((39714 + G23.ai0(p).i1(p)) - (G23.mk((p + 4)) instanceof C23_4 ? 5 : 6));
    r = r * 31 + ((L.fn((int x) -> x * 24L + p, p) ^ (p + 5)) ^ G23.cast2(p));
    {
      Object[] o = new C23_3[2];
      r = r * 31 + (o instanceof C23_3[] ? 1 : 2) + (o instanceof I23_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    try {
      r += Late3.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

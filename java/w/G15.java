package w;
/* generated by tools/genlink.py */
interface I15_0 {
  int K0 = Integer.parseInt("58");
  default long i0(int p) { return (p ^ C15_5.t((p ^ 7))); }
  long i1(int p);
}
interface I15_1 extends I15_0 {
  int K1 = Integer.parseInt("47");
  long i2(int p);
}
interface I15_2 extends I15_1 {
  int K2 = Integer.parseInt("19");
  long i3(int p);
}
abstract class C15_0 {
  static long s = Integer.parseInt("454");
  static final int CONST = 214101;
  static final String TEXT = "C15_0-64";
  double f0;
  Object f2;
  C15_0(int p) {
    f0 = (double) (p * 7);
    f2 = "o" + p;
  }
  static long t(int p) { return p * 38L + CONST + TEXT.length(); }
  public abstract long a4(int p);
  private long pv(int p) { return p ^ 242; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C15_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + L.h(C15_0.this.f2); }
  }
}
class C15_1 extends C15_0 implements I15_1, I15_2 {
  static long s = C15_0.s + 79;
  static final int CONST = 293343;
  static final String TEXT = "C15_1-31";
  char f0;
  char f1;
  float f3;
  C15_1(int p) {
    super(p * 1);
    f0 = (char) (p * 7);
    f1 = (char) (p * 7);
    f3 = (float) (p * 7);
  }
  static long t(int p) { return p * 9L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return (69630 + L.sw((p + 5))); }
  synchronized long a1(int p) { return ((G15.cast3(-p) - (p + 2)) * new C15_5.In((p + 1)).w((p + 1))); }
  synchronized long a3(int p) { return ((("xx44".length() ^ G15.ai0(p).i0(p)) * G15.as2(-p).a2(-p)) ^ L.name(C15_3[].class)); }
  public synchronized long a4(int p) { return ((G15.mk((p ^ 3)) instanceof I15_0 ? 15 : 16) * (G15.mk((p + 7)) instanceof I15_0 ? 15 : 16)); }
  public long i1(int p) { return ((G15.cast3(-p) ^ L.len(new C15_3[(p + 8) & 3][2])) ^ L.fn(C15_5::t, p)); }
  public synchronized long i2(int p) { return (((long) ((C15_0) this).f0 ^ L.sw(-p)) * (p + 6)); }
  public synchronized long i3(int p) { return (((this.f1 + (long) ((C15_0) new C15_3((p + 5))).f0) + (p ^ 11)) ^ C15_4.s); }
  private long pv(int p) { return p ^ 519; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C15_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C15_1.this.f0; }
  }
}
class C15_2 extends C15_1 {
  static long s = C15_0.s + 88;
  static final int CONST = 299860;
  static final String TEXT = "C15_2-55";
  boolean f0;
  short f1;
  float f3;
  C15_2(int p) {
    super(p * 2);
    f0 = (p & 1) == 0;
    f1 = (short) (p * 7);
    f3 = (float) (p * 7);
  }
  static long t(int p) { return p * 50L + CONST + TEXT.length(); }
  long a0(int p) { return (L.fn(C15_1::t, p) ^ p); }
  public synchronized long a2(int p) { return (((new C15_4.In(p).w(p) - C15_0.t(p)) * L.len(new C15_5[-p & 3][2])) + 70947); }
  long a3(int p) { return (G15.as2((p ^ 1)).a2((p ^ 1)) * G15.as3(-p).a1(-p)); }
  public synchronized long i0(int p) { return ((new C15_2(p).f1 + (p ^ 9)) + G15.cast3((p + 1))); }
  private long pv(int p) { return p ^ 239; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C15_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + L.h(((C15_0) C15_2.this).f2); }
  }
}
class C15_3 extends C15_2 implements I15_1, I15_2 {
  static long s = Integer.parseInt("61");
  static final int CONST = 234486;
  static final String TEXT = "C15_3-40";
  double f0;
  String f2;
  char f3;
  C15_3(int p) {
    super(p * 1);
    f0 = (double) (p * 7);
    f2 = "v" + p;
    f3 = (char) (p * 7);
  }
  static long t(int p) { return p * 21L + CONST + TEXT.length(); }
  public synchronized long a4(int p) { return (((C15_4.t(p) * (p ^ 5)) + -p) - L.sw(-p)); }
  private long pv(int p) { return p ^ 613; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C15_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C15_1) C15_3.this).f0; }
  }
}
class C15_4 implements I15_0, I15_2 {
  static long s = C15_3.s + 55;
  static final int CONST = 854231;
  static final String TEXT = "C15_4-99";
  Object f0;
  int f1;
  boolean f2;
  char f3;
  C15_4(int p) {
    f0 = "o" + p;
    f1 = p * 3;
    f2 = (p & 1) == 0;
    f3 = (char) (p * 7);
  }
  static long t(int p) { return p * 49L + CONST + TEXT.length(); }
  long a0(int p) { return ((E15.values()[(p + 4) & 3].v((p + 4)) ^ L.name(int[][].class)) * L.name(C15_1.class)); }
  public synchronized long i1(int p) { return (70082L - E15.values()[-p & 3].v(-p)); }
  public final long i2(int p) { return ((p ^ 6) + G15.ai0(p).i1(p)); }
  public synchronized long i3(int p) { return ((p ^ 9) * 39414L); }
  private long pv(int p) { return p ^ 180; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C15_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + L.h(C15_4.this.f0); }
  }
}
class C15_5 extends C15_4 implements I15_0 {
  static long s = Integer.parseInt("239");
  static final int CONST = 756705;
  static final String TEXT = "C15_5-51";
  char f0;
  short f2;
  C15_5(int p) {
    super(p * 4);
    f0 = (char) (p * 7);
    f2 = (short) (p * 7);
  }
  static long t(int p) { return p * 21L + CONST + TEXT.length(); }
  synchronized long a1(int p) { return ((((p ^ 7) - (p ^ 3)) - (((C15_4) this).f2 ? 3 : 4)) + G15.ai0((p + 6)).i1((p + 6))); }
  synchronized long a3(int p) { return (L.len(new C15_2[(p + 2) & 3][2]) - new C15_2(p).a2(p)); }
  public long a4(int p) { return (((p ^ 15) ^ G15.cast1((p ^ 12))) * this.a0(-p)); }
  public synchronized long i0(int p) { return ((L.sw(-p) ^ L.name(long.class)) - p); }
  public synchronized long i3(int p) { return (33948 ^ C15_3.t((p + 2))); }
  private long pv(int p) { return p ^ 961; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C15_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + L.h(((C15_4) C15_5.this).f0); }
  }
}
enum E15 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 6; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb15 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 5; }
}
public class G15 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C15_4(p);
    case 1: return "text" + p;
    case 2: return new C15_1(p);
    case 3: return new C15_2(p);
    case 4: return new int[2];
    case 5: return new C15_4(p);
    case 6: return new C15_5(p);
    default: return new C15_4(p);
    }
  }
  static C15_0 as0(int p) {
    if ((p & 3) == 1) return new C15_1(p + 1);
    if ((p & 3) == 0) return new C15_2(p + 1);
    return new C15_3(p);
  }
  static long cast0(int p) {
    try {
      C15_0 c = (C15_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C15_1 as1(int p) {
    if ((p & 3) == 1) return new C15_1(p + 1);
    if ((p & 3) == 3) return new C15_2(p + 1);
    return new C15_3(p);
  }
  static long cast1(int p) {
    try {
      C15_1 c = (C15_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C15_2 as2(int p) {
    if ((p & 3) == 2) return new C15_2(p + 1);
    return new C15_3(p);
  }
  static long cast2(int p) {
    try {
      C15_2 c = (C15_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C15_3 as3(int p) {
    return new C15_3(p);
  }
  static long cast3(int p) {
    try {
      C15_3 c = (C15_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C15_4 as4(int p) {
    if ((p & 3) == 1) return new C15_4(p + 1);
    return new C15_5(p);
  }
  static long cast4(int p) {
    try {
      C15_4 c = (C15_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C15_5 as5(int p) {
    return new C15_5(p);
  }
  static long cast5(int p) {
    try {
      C15_5 c = (C15_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I15_0 ai0(int p) {
    if ((p & 3) == 1) return new C15_1(p + 2);
    if ((p & 3) == 1) return new C15_2(p + 2);
    if ((p & 3) == 3) return new C15_3(p + 2);
    if ((p & 3) == 3) return new C15_4(p + 2);
    return new C15_5(p);
  }
  static I15_1 ai1(int p) {
    if ((p & 3) == 0) return new C15_1(p + 2);
    if ((p & 3) == 3) return new C15_2(p + 2);
    if ((p & 3) == 1) return new C15_3(p + 2);
    if ((p & 3) == 3) return new C15_4(p + 2);
    return new C15_5(p);
  }
  static I15_2 ai2(int p) {
    if ((p & 3) == 3) return new C15_1(p + 2);
    if ((p & 3) == 3) return new C15_2(p + 2);
    if ((p & 3) == 2) return new C15_3(p + 2);
    if ((p & 3) == 2) return new C15_4(p + 2);
    return new C15_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + ((((new C15_2(-p).a0(-p) + L.sw(p)) ^ G15.ai2(-p).i3(-p)) - L.len(new C15_2[p & 3][2])) - G15.ai0((p ^ 13)).i0((p ^ 13)));
    r = r * 31 + new Fb15().f((long) p) + (Long) ((L.Fn) new Fb15()).f(5L) + ((L.Both<Long>) new Fb15()).f(6L);
    r = r * 31 + (C15_1.t(p) ^ new C15_1((p + 4)).a3((p + 4)));
    r = r * 31 + ((I15_0) L.proxy(I15_0.class)).i0(p);
    r = r * 31 + I15_2.K2;
    r = r * 31 + I15_2.K2;
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + I15_0.K0;
    r = r * 31 + (L.fn(C15_0::t, -p) ^ (G15.mk((p + 8)) instanceof I15_2 ? 15 : 16));
    r = r * 31 + ((50099 * L.len(new C15_4[(p ^ 2) & 3][2])) - L.len(new C15_3[p & 3][2]));
    r = r * 31 + ((I15_1) L.proxy(I15_1.class)).i2(p);
    try {
      r += Late3.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r += Late3.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (((G15.as3((p + 7)).a1((p + 7)) ^ G15.ai0((p + 6)).i1((p + 6))) + (G15.mk(-p) instanceof C15_3 ? 5 : 6)) ^ L.fn((int x) -> C15_5.t(x) + 50, (p ^ 11)));
    r = r * 31 + ((((new C15_4.In(p).w(p) + E15.values()[(p ^ 12) & 3].v((p ^ 12))) * (p ^ 13)) - E15.values()[-p & 3].v(-p)) * (p + 7));
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + L.reflect(new C15_3(p), "a3", p);
    {
      Object[] o = new C15_2[2];
      r = r * 31 + (o instanceof C15_0[] ? 1 : 2) + (o instanceof I15_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + I15_0.K0;
    r = r * 31 + ((C15_5.t(p) + C15_4.t(p)) ^ E15.values()[(p ^ 15) & 3].v((p ^ 15)));
    try {
      r += Late3.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + ((((C15_1.t(p) + L.sw(p)) * new C15_4.In((p ^ 7)).w((p ^ 7))) + L.sw((p + 8))) - G15.ai2(p).i3(p));
    r = r * 31 + ((I15_2) L.proxy(I15_2.class)).i3(p);
    {
      Object[] o = new C15_1[2];
      r = r * 31 + (o instanceof C15_3[] ? 1 : 2) + (o instanceof I15_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + ((I15_0) L.proxy(I15_0.class)).i1(p);
    try {
      r += Late3.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.reflect(new C15_4(p), "a0", p);
    r = r * 31 + ((((L.sw(-p) + L.name(int[][].class)) * L.len(new C15_1[p & 3][2])) * G15.as1(p).a4(p)) + G15.ai2((p + 3)).i3((p + 3)));
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + I15_1.K1;
    r = r * 31 + L.reflect(new C15_4(p), "a0", p);
    r = r * 31 + ((I15_2) L.proxy(I15_2.class)).i3(p);
    r = r * 31 + L.construct(C15_1.class, p);
    r = r * 31 + (((((p ^ 5) - G15.ai0((p + 4)).i0((p + 4))) ^ G15.as5(p).a1(p)) * G15.ai1(-p).i2(-p)) + L.name(C15_4.class));
    r = r * 31 + new Fb15().f((long) p) + (Long) ((L.Fn) new Fb15()).f(5L) + ((L.Both<Long>) new Fb15()).f(6L);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((I15_1) L.proxy(I15_1.class)).i2(p);
    r = r * 31 + new Fb15().f((long) p) + (Long) ((L.Fn) new Fb15()).f(5L) + ((L.Both<Long>) new Fb15()).f(6L);
    r = r * 31 + L.reflect(new C15_1(p), "a3", p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

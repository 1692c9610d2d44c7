package w;
/* generated by tools/genlink.py */
interface I1_0 {
  int K0 = Integer.parseInt("88");
  long i0(int p);
  long i1(int p);
}
interface I1_1 {
  int K1 = Integer.parseInt("35");
  long i2(int p);
}
interface I1_2 extends I1_1 {
  int K2 = Integer.parseInt("47");
  default long i3(int p) { return ((G1.mk(-p) instanceof I1_2 ? 15 : 16) * (p + 8)); }
}
abstract class C1_0 implements I1_0, I1_2 {
  static long s = Integer.parseInt("938");
  static final int CONST = 713910;
  static final String TEXT = "C1_0-59";
  long f1;
  boolean f2;
  C1_0(int p) {
    f1 = p * 5000000000L;
    f2 = (p & 1) == 0;
  }
  static long t(int p) { return p * 7L + CONST + TEXT.length(); }
  public abstract long a4(int p);
  public final long i1(int p) { return ((p ^ 2) + (p ^ 9)); }
  public long i2(int p) { return ((C1_1.t((p + 5)) * G1.ai0((p + 2)).i1((p + 2))) * C1_5.s); }
  public synchronized long i3(int p) { return (((G1.ai1(-p).i2(-p) ^ (G1.mk(-p) instanceof I1_0 ? 15 : 16)) * G1.as4((p ^ 1)).a2((p ^ 1))) ^ C1_1.s); }
  private long pv(int p) { return p ^ 329; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C1_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (C1_0.this.f2 ? 3 : 4); }
  }
}
class C1_1 extends C1_0 implements I1_1, I1_2 {
  static long s = C1_0.s + 14;
  static final int CONST = 511792;
  static final String TEXT = "C1_1-24";
  char f0;
  int f1;
  String f2;
  boolean f3;
  C1_1(int p) {
    super(p * 4);
    f0 = (char) (p * 7);
    f1 = p * 3;
    f2 = "v" + p;
    f3 = (p & 1) == 0;
  }
  static long t(int p) { return p * 18L + CONST + TEXT.length(); }
  synchronized long a0(int p) { return (((C1_1) new C1_3(-p)).f0 * L.len(new C1_4[p & 3][2])); }
  public synchronized long a3(int p) { return ((C1_3.s * G1.ai2(p).i3(p)) - G1.ai0(-p).i0(-p)); }
  public long a4(int p) { return ((((p + 2) * E1.values()[(p + 7) & 3].v((p + 7))) + (p ^ 2)) - L.len(new C1_1[-p & 3][2])); }
  public long i0(int p) { return ((G1.mk((p + 9)) instanceof C1_3 ? 5 : 6) - L.name(I1_0.class)); }
  private long pv(int p) { return p ^ 75; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C1_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (((C1_0) C1_1.this).f2 ? 3 : 4); }
  }
}
abstract class C1_2 implements I1_0 {
  static long s = C1_0.s + 13;
  static final int CONST = 209200;
  static final String TEXT = "C1_2-26";
  boolean f0;
  byte f2;
  long f3;
  C1_2(int p) {
    f0 = (p & 1) == 0;
    f2 = (byte) (p * 7);
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 31L + CONST + TEXT.length(); }
  long a0(int p) { return ("k8".hashCode() * (p ^ 2)); }
  public long a3(int p) { return ((new C1_3.In((p + 3)).w((p + 3)) ^ (G1.mk(-p) instanceof I1_2 ? 15 : 16)) * G1.ai2((p ^ 2)).i3((p ^ 2))); }
  public abstract long a4(int p);
  private long pv(int p) { return p ^ 778; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C1_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C1_2.this.f2; }
  }
}
class C1_3 extends C1_1 implements I1_0, I1_1, I1_2 {
  static long s = Integer.parseInt("752");
  static final int CONST = 627755;
  static final String TEXT = "C1_3-99";
  String f0;
  float f1;
  C1_3(int p) {
    super(p * 3);
    f0 = "v" + p;
    f1 = (float) (p * 7);
  }
  static long t(int p) { return p * 27L + CONST + TEXT.length(); }
  public synchronized long a3(int p) { return (L.fn(C1_0::t, (p ^ 6)) + L.sw((p ^ 11))); }
  public long i2(int p) { return (((p ^ L.fn(C1_0::t, p)) + G1.cast5(-p)) - p); }
  private long pv(int p) { return p ^ 644; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C1_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C1_1) C1_3.this).f0; }
  }
}
class C1_4 extends C1_3 implements I1_0, I1_1 {
  static long s = C1_0.s + 65;
  static final int CONST = 165399;
  static final String TEXT = "C1_4-50";
  C1_4(int p) {
    super(p * 5);
  }
  static long t(int p) { return p * 12L + CONST + TEXT.length(); }
  protected long a2(int p) { return (((((C1_1) this).f0 * C1_3.s) + G1.ai1((p + 6)).i2((p + 6))) ^ G1.cast0((p + 1))); }
  public synchronized long a4(int p) { return (((C1_1) new C1_5(p)).f0 + L.name(long.class)); }
  public final long i0(int p) { return (((-p ^ L.fn((int x) -> x * 83L + p, (p + 2))) + (p ^ 11)) - L.fn((int x) -> x * 6L + p, -p)); }
  private long pv(int p) { return p ^ 633; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C1_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p); }
  }
}
class C1_5 extends C1_3 implements I1_2 {
  static long s = C1_4.s + 31;
  static final int CONST = 435644;
  static final String TEXT = "C1_5-10";
  int f0;
  long f2;
  C1_5(int p) {
    super(p * 2);
    f0 = p * 3;
    f2 = p * 5000000000L;
  }
  static long t(int p) { return p * 33L + CONST + TEXT.length(); }
  long a0(int p) { return ((p + 8) + (p ^ 13)); }
  protected synchronized long a1(int p) { return (new C1_3(-p).f0.length() - (G1.mk((p + 4)) instanceof C1_1 ? 5 : 6)); }
  public long a4(int p) { return ((G1.mk(-p) instanceof C1_5 ? 5 : 6) - G1.ai0((p ^ 11)).i0((p ^ 11))); }
  public long i3(int p) { return (G1.ai0(-p).i1(-p) ^ (G1.mk((p ^ 8)) instanceof I1_2 ? 15 : 16)); }
  private long pv(int p) { return p ^ 955; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C1_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C1_3) C1_5.this).f1; }
  }
}
enum E1 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 6; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb1 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 2; }
}
public class G1 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C1_4(p);
    case 1: return new C1_5(p);
    case 2: return new C1_3(p);
    case 3: return new C1_3(p);
    case 4: return new C1_1(p);
    case 5: return new C1_4(p);
    case 6: return Integer.valueOf(p);
    default: return new C1_3(p);
    }
  }
  static C1_0 as0(int p) {
    if ((p & 3) == 3) return new C1_1(p + 1);
    if ((p & 3) == 2) return new C1_3(p + 1);
    if ((p & 3) == 2) return new C1_4(p + 1);
    return new C1_5(p);
  }
  static long cast0(int p) {
    try {
      C1_0 c = (C1_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C1_1 as1(int p) {
    if ((p & 3) == 0) return new C1_1(p + 1);
    if ((p & 3) == 0) return new C1_3(p + 1);
    if ((p & 3) == 0) return new C1_4(p + 1);
    return new C1_5(p);
  }
  static long cast1(int p) {
    try {
      C1_1 c = (C1_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static long cast2(int p) {
    try {
      C1_2 c = (C1_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C1_3 as3(int p) {
    if ((p & 3) == 1) return new C1_3(p + 1);
    if ((p & 3) == 1) return new C1_4(p + 1);
    return new C1_5(p);
  }
  static long cast3(int p) {
    try {
      C1_3 c = (C1_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C1_4 as4(int p) {
    return new C1_4(p);
  }
  static long cast4(int p) {
    try {
      C1_4 c = (C1_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C1_5 as5(int p) {
    return new C1_5(p);
  }
  static long cast5(int p) {
    try {
      C1_5 c = (C1_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I1_0 ai0(int p) {
    if ((p & 3) == 0) return new C1_1(p + 2);
    if ((p & 3) == 1) return new C1_3(p + 2);
    if ((p & 3) == 1) return new C1_4(p + 2);
    return new C1_5(p);
  }
  static I1_1 ai1(int p) {
    if ((p & 3) == 2) return new C1_1(p + 2);
    if ((p & 3) == 3) return new C1_3(p + 2);
    if ((p & 3) == 3) return new C1_4(p + 2);
    return new C1_5(p);
  }
  static I1_2 ai2(int p) {
    if ((p & 3) == 1) return new C1_1(p + 2);
    if ((p & 3) == 2) return new C1_3(p + 2);
    if ((p & 3) == 2) return new C1_4(p + 2);
    return new C1_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + I1_2.K2;
    {
      Object[] o = new C1_5[2];
      r = r * 31 + (o instanceof C1_2[] ? 1 : 2) + (o instanceof I1_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((I1_0) L.proxy(I1_0.class)).i0(p);
    r = r * 31 + ((((L.fn((int x) -> C1_2.t(x) + 35, -p) * L.name(C1_3[].class)) ^ L.len(new C1_4[(p ^ 4) & 3][2])) * C1_5.t((p ^ 15))) * "k5".hashCode());
    r = r * 31 + L.reflect(new C1_3(p), "a0", p);
    r = r * 31 + (((C1_3.t(p) + -p) * E1.values()[-p & 3].v(-p)) * L.sw(p));
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + L.reflect(new C1_5(p), "a4", p);
    r = r * 31 + ((G1.mk((p ^ 4)) instanceof I1_2 ? 15 : 16) - E1.values()[-p & 3].v(-p));
    r = r * 31 + (((G1.ai2((p ^ 12)).i3((p ^ 12)) - (G1.mk(p) instanceof I1_0 ? 15 : 16)) + "k8".hashCode()) * (G1.mk(-p) instanceof C1_5 ? 5 : 6));
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + ((L.name(long.class) ^ L.fn(C1_0::t, (p + 7))) + E1.values()[(p + 2) & 3].v((p + 2)));
    r = r * 31 + I1_2.K2;
    try {
      r += Late1.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (((L.len(new C1_4[-p & 3][2]) ^ L.len(new C1_5[(p + 7) & 3][2])) - L.name(int[][].class)) ^ (p ^ 9));
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + new C1_3(p).new Inner().w(p);
    r = r * 31 + ((((new C1_4((p ^ 4)).a2((p ^ 4)) * "k6".hashCode()) * "k1".hashCode()) - L.len(new C1_5[(p + 8) & 3][2])) - (G1.mk((p + 8)) instanceof I1_1 ? 15 : 16));
    r = r * 31 + L.construct(C1_5.class, p);
    try {
      r += new Late1(p).virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    {
      Object[] o = new C1_3[2];
      r = r * 31 + (o instanceof C1_0[] ? 1 : 2) + (o instanceof I1_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + L.construct(C1_1.class, p);
    r = r * 31 + (((E1.values()[(p ^ 3) & 3].v((p ^ 3)) * C1_4.t((p + 7))) ^ L.name(C1_3[].class)) ^ p);
    r = r * 31 + I1_2.K2;
    r = r * 31 + (G1.as5(p).a1(p) * new C1_0.In(p).w(p));
    r = r * 31 + L.reflect(new C1_1(p), "a3", p);
    r = r * 31 + new Fb1().f((long) p) + (Long) ((L.Fn) new Fb1()).f(5L) + ((L.Both<Long>) new Fb1()).f(6L);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + new Fb1().f((long) p) + (Long) ((L.Fn) new Fb1()).f(5L) + ((L.Both<Long>) new Fb1()).f(6L);
    r = r * 31 + L.construct(C1_3.class, p);
    {
      Object[] o = new C1_3[2];
      r = r * 31 + (o instanceof C1_0[] ? 1 : 2) + (o instanceof I1_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + I1_1.K1;
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + (((("k7".hashCode() ^ G1.ai2((p ^ 2)).i3((p ^ 2))) - L.fn((int x) -> C1_5.t(x) + 43, -p)) ^ G1.ai1((p + 7)).i2((p + 7))) + G1.ai1(p).i2(p));
    r = r * 31 + (L.len(new C1_1[(p + 4) & 3][2]) * G1.as1((p ^ 15)).a3((p ^ 15)));
    r = r * 31 + ((new C1_4.In(p).w(p) + G1.as4((p + 4)).a3((p + 4))) * (p ^ 6));
    try {
      r += Late1.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (G1.ai0((p ^ 2)).i1((p ^ 2)) ^ new C1_5((p ^ 1)).a1((p ^ 1)));
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((((L.sw((p + 3)) ^ new C1_5((p + 6)).a3((p + 6))) ^ C1_4.t(-p)) + G1.ai0((p + 2)).i0((p + 2))) + (G1.mk((p + 3)) instanceof C1_3 ? 5 : 6));
    r = r * 31 + I1_0.K0;
    r = r * 31 + new C1_1(p).new Inner().w(p);
    r = r * 31 + (G1.as5((p ^ 13)).a1((p ^ 13)) * -p);
    r = r * 31 + I1_1.K1;
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

package w;
/* generated by tools/genlink.py */
interface I9_0 {
  int K0 = Integer.parseInt("23");
  long i0(int p);
  default long i1(int p) { return ((-p + L.sw((p + 7))) - (G9.mk((p + 7)) instanceof C9_5 ? 5 : 6)); }
}
interface I9_1 extends I9_0 {
  int K1 = Integer.parseInt("44");
  long i2(int p);
}
interface I9_2 extends I9_0 {
  int K2 = Integer.parseInt("92");
  long i3(int p);
}
class C9_0 {
  static long s = Integer.parseInt("744");
  static final int CONST = 428646;
  static final String TEXT = "C9_0-73";
  float f0;
  String f1;
  C9_0(int p) {
    f0 = (float) (p * 7);
    f1 = "v" + p;
  }
  static long t(int p) { return p * 28L + CONST + TEXT.length(); }
  protected synchronized long a0(int p) { return (L.fn(C9_5::t, (p ^ 1)) - G9.ai0((p ^ 14)).i0((p ^ 14))); }
  long a4(int p) { return (G9.ai2(-p).i3(-p) * L.name(int[][].class)); }
  private long pv(int p) { return p ^ 942; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C9_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C9_0.this.f0; }
  }
}
class C9_1 implements I9_1 {
  static long s = C9_0.s + 44;
  static final int CONST = 595702;
  static final String TEXT = "C9_1-38";
  short f2;
  C9_1(int p) {
    f2 = (short) (p * 7);
  }
  static long t(int p) { return p * 19L + CONST + TEXT.length(); }
  protected long a0(int p) { return (((p + 9) + 56992L) * (p ^ 3)); }
  public long i0(int p) { return ((E9.values()[p & 3].v(p) + this.f2) * L.name(C9_1.class)); }
  public long i1(int p) { return (((L.name(C9_1.class) * 11737L) * L.fn((int x) -> x * 79L + p, -p)) ^ L.fn((int x) -> x * 16L + p, p)); }
  public synchronized long i2(int p) { return (G9.cast4(-p) * G9.ai0(p).i0(p)); }
  private long pv(int p) { return p ^ 289; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C9_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C9_1.this.f2; }
  }
}
abstract class C9_2 extends C9_1 implements I9_0, I9_2 {
  static long s = Integer.parseInt("275");
  static final int CONST = 337463;
  static final String TEXT = "C9_2-42";
  char f1;
  C9_2(int p) {
    super(p * 4);
    f1 = (char) (p * 7);
  }
  static long t(int p) { return p * 31L + CONST + TEXT.length(); }
  public long a1(int p) { return (this.f1 ^ (p + 9)); }
  abstract long a3(int p);
  public long i0(int p) { return (((L.len(new C9_1[(p + 8) & 3][2]) ^ C9_2.s) ^ "xx41".length()) ^ this.f1); }
  public long i1(int p) { return ((this.f1 ^ (p ^ 4)) * L.fn((int x) -> C9_1.t(x) + 47, p)); }
  public synchronized long i2(int p) { return (((G9.ai0((p ^ 2)).i1((p ^ 2)) + G9.ai0((p ^ 12)).i1((p ^ 12))) ^ (p ^ 1)) * (p ^ 5)); }
  private long pv(int p) { return p ^ 419; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C9_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C9_1) C9_2.this).f2; }
  }
}
class C9_3 implements I9_2 {
  static long s = Integer.parseInt("215");
  static final int CONST = 55164;
  static final String TEXT = "C9_3-42";
  float f0;
  int f1;
  char f2;
  C9_3(int p) {
    f0 = (float) (p * 7);
    f1 = p * 3;
    f2 = (char) (p * 7);
  }
  static long t(int p) { return p * 29L + CONST + TEXT.length(); }
  public long a1(int p) { return (((p ^ (G9.mk((p ^ 5)) instanceof I9_1 ? 15 : 16)) ^ G9.cast2(-p)) * L.sw((p + 6))); }
  protected synchronized long a2(int p) { return ((p ^ 14) - (G9.mk(p) instanceof I9_1 ? 15 : 16)); }
  synchronized long a3(int p) { return (((C9_4.t(p) - G9.ai1(p).i2(p)) + new C9_0((p + 2)).a0((p + 2))) + new C9_1((p + 7)).f2); }
  long a4(int p) { return (G9.ai2((p + 4)).i3((p + 4)) ^ -p); }
  public long i0(int p) { return (((-p ^ (G9.mk((p ^ 8)) instanceof I9_1 ? 15 : 16)) * (G9.mk((p + 5)) instanceof C9_1 ? 5 : 6)) ^ p); }
  public final long i3(int p) { return (((new C9_3(p).f1 ^ G9.ai0((p ^ 5)).i0((p ^ 5))) ^ G9.ai0((p ^ 7)).i0((p ^ 7))) * G9.ai0((p ^ 13)).i1((p ^ 13))); }
  private long pv(int p) { return p ^ 1; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C9_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C9_3.this.f0; }
  }
}
class C9_4 extends C9_3 {
  static long s = C9_0.s + 33;
  static final int CONST = 726181;
  static final String TEXT = "C9_4-76";
  double f3;
  C9_4(int p) {
    super(p * 5);
    f3 = (double) (p * 7);
  }
  static long t(int p) { return p * 3L + CONST + TEXT.length(); }
  protected long a2(int p) { return (new C9_1(p).a0(p) ^ L.fn((int x) -> x * 81L + p, (p + 3))); }
  long a3(int p) { return ((L.sw(-p) * G9.ai0(-p).i0(-p)) + G9.ai2(p).i3(p)); }
  long a4(int p) { return ((L.fn(C9_5::t, -p) * L.len(new C9_4[(p ^ 10) & 3][2])) + "x6".length()); }
  public long i0(int p) { return (-p * (p ^ 13)); }
  private long pv(int p) { return p ^ 122; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C9_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) C9_4.this.f3; }
  }
}
class C9_5 extends C9_2 {
  static long s = C9_3.s + 76;
  static final int CONST = 37057;
  static final String TEXT = "C9_5-31";
  byte f1;
  C9_5(int p) {
    super(p * 4);
    f1 = (byte) (p * 7);
  }
  static long t(int p) { return p * 20L + CONST + TEXT.length(); }
  protected long a0(int p) { return (p - new C9_0((p + 7)).f1.length()); }
  protected synchronized long a2(int p) { return ((L.sw(-p) * G9.ai0((p + 5)).i1((p + 5))) - (p ^ 1)); }
  long a3(int p) { return (G9.ai0((p + 2)).i1((p + 2)) + new C9_1(-p).f2); }
  long a4(int p) { return (((p ^ 2) * L.name(long.class)) + "k6".hashCode()); }
  public synchronized long i1(int p) { return (94864L + "k3".hashCode()); }
  public synchronized long i2(int p) { return (((p ^ 14) ^ E9.values()[p & 3].v(p)) + L.fn(C9_1::t, -p)); }
  public final long i3(int p) { return (((L.fn((int x) -> x * 37L + p, p) + C9_5.s) + C9_4.s) * L.name(I9_2.class)); }
  private long pv(int p) { return p ^ 466; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C9_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C9_5.this.f1; }
  }
}
enum E9 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 3; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb9 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 5; }
}
public class G9 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C9_3(p);
    case 1: return new C9_5(p);
    case 2: return new C9_4(p);
    case 3: return new C9_5(p);
    case 4: return new C9_3(p);
    case 5: return "text" + p;
    case 6: return new C9_0(p);
    default: return new C9_4(p);
    }
  }
  static C9_0 as0(int p) {
    return new C9_0(p);
  }
  static long cast0(int p) {
    try {
      C9_0 c = (C9_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C9_1 as1(int p) {
    if ((p & 3) == 2) return new C9_1(p + 1);
    return new C9_5(p);
  }
  static long cast1(int p) {
    try {
      C9_1 c = (C9_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C9_2 as2(int p) {
    return new C9_5(p);
  }
  static long cast2(int p) {
    try {
      C9_2 c = (C9_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C9_3 as3(int p) {
    if ((p & 3) == 2) return new C9_3(p + 1);
    return new C9_4(p);
  }
  static long cast3(int p) {
    try {
      C9_3 c = (C9_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C9_4 as4(int p) {
    return new C9_4(p);
  }
  static long cast4(int p) {
    try {
      C9_4 c = (C9_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C9_5 as5(int p) {
    return new C9_5(p);
  }
  static long cast5(int p) {
    try {
      C9_5 c = (C9_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I9_0 ai0(int p) {
    if ((p & 3) == 3) return new C9_1(p + 2);
    if ((p & 3) == 1) return new C9_3(p + 2);
    if ((p & 3) == 0) return new C9_4(p + 2);
    return new C9_5(p);
  }
  static I9_1 ai1(int p) {
    if ((p & 3) == 3) return new C9_1(p + 2);
    return new C9_5(p);
  }
  static I9_2 ai2(int p) {
    if ((p & 3) == 3) return new C9_3(p + 2);
    if ((p & 3) == 1) return new C9_4(p + 2);
    return new C9_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + L.construct(C9_0.class, p);
    r = r * 31 + new Fb9().f((long) p) + (Long) ((L.Fn) new Fb9()).f(5L) + ((L.Both<Long>) new Fb9()).f(6L);
    r = r * 31 + ((I9_0) L.proxy(I9_0.class)).i1(p);
    r = r * 31 + L.reflect(new C9_4(p), "a4", p);
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + ((I9_0) L.proxy(I9_0.class)).i0(p);
    r = r * 31 + ((I9_1) L.proxy(I9_1.class)).i2(p);
    r = r * 31 + I9_0.K0;
    {
      Object[] o = new C9_1[2];
      r = r * 31 + (o instanceof C9_4[] ? 1 : 2) + (o instanceof I9_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + L.reflect(new C9_5(p), "a2", p);
    r = r * 31 + (((p ^ 4) + (G9.mk((p + 1)) instanceof I9_0 ? 15 : 16)) - new C9_4((p ^ 8)).a2((p ^ 8)));
    return r;
  }
  static long e2(int p) {
    long r = 2;
    {
      Object[] o = new C9_3[2];
      r = r * 31 + (o instanceof C9_1[] ? 1 : 2) + (o instanceof I9_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((((L.sw(p) + G9.as5((p ^ 2)).a3((p ^ 2))) - G9.cast2(p)) * E9.values()[(p ^ 3) & 3].v((p ^ 3))) * L.len(new C9_0[p & 3][2]));
    r = r * 31 + (((C9_5.s * L.name(int[][].class)) ^ new C9_3((p + 8)).a4((p + 8))) - new C9_3((p + 5)).a3((p + 5)));
    r = r * 31 + L.reflect(new C9_1(p), "a0", p);
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + new Fb9().f((long) p) + (Long) ((L.Fn) new Fb9()).f(5L) + ((L.Both<Long>) new Fb9()).f(6L);
    r = r * 31 + I9_0.K0;
    r = r * 31 + I9_0.K0;
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + ((((G9.cast5((p + 9)) ^ L.fn((int x) -> C9_1.t(x) + 46, -p)) ^ G9.as3((p + 3)).a3((p + 3))) - G9.ai2((p + 4)).i3((p + 4))) ^ G9.ai2((p ^ 10)).i3((p ^ 10)));
    {
      Object[] o = new C9_0[2];
      r = r * 31 + (o instanceof C9_2[] ? 1 : 2) + (o instanceof I9_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + new C9_5(p).new Inner().w(p);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + L.construct(C9_5.class, p);
    r = r * 31 + ((I9_1) L.proxy(I9_1.class)).i2(p);
    r = r * 31 + (((((long) ((C9_3) new C9_4((p ^ 7))).f0 + ((C9_3) new C9_4((p + 1))).f2) + G9.as5((p + 1)).a2((p + 1))) * L.sw(p)) + ((C9_3) new C9_4((p ^ 8))).f1);
    try {
      r += Late1.here(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.construct(C9_1.class, p);
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + ((I9_1) L.proxy(I9_1.class)).i2(p);
    r = r * 31 + new C9_3(p).new Inner().w(p);
    r = r * 31 + (((89786 + p) * L.fn((int x) -> C9_4.t(x) + 45, p)) * new C9_2.In(-p).w(-p));
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      r += new Late1(p).virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new Fb9().f((long) p) + (Long) ((L.Fn) new Fb9()).f(5L) + ((L.Both<Long>) new Fb9()).f(6L);
    r = r * 31 + new Fb9().f((long) p) + (Long) ((L.Fn) new Fb9()).f(5L) + ((L.Both<Long>) new Fb9()).f(6L);
    r = r * 31 + L.construct(C9_3.class, p);
    r = r * 31 + (((L.fn((int x) -> x * 6L + p, (p + 6)) - C9_0.s) ^ G9.as3(-p).a3(-p)) - C9_1.s);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

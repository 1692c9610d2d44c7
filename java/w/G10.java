package w;
/* generated by tools/genlink.py */
interface I10_0 {
  int K0 = Integer.parseInt("2");
  long i0(int p);
  long i1(int p);
}
interface I10_1 extends I10_0 {
  int K1 = Integer.parseInt("91");
  long i2(int p);
}
interface I10_2 extends I10_1 {
  int K2 = Integer.parseInt("74");
  default long i3(int p) { return ((-p - C10_4.s) - p); }
}
class C10_0 implements I10_0, I10_1 {
  static long s = Integer.parseInt("366");
  static final int CONST = 484815;
  static final String TEXT = "C10_0-67";
  long f0;
  short f1;
  int f2;
  C10_0(int p) {
    f0 = p * 5000000000L;
    f1 = (short) (p * 7);
    f2 = p * 3;
  }
  static long t(int p) { return p * 39L + CONST + TEXT.length(); }
  protected long a0(int p) { return ((39796 * "k5".hashCode()) * this.f0); }
  protected synchronized long a2(int p) { return (((new C10_0(p).f1 * 23594L) ^ G10.as0(-p).a0(-p)) - G10.ai0(p).i1(p)); }
  public synchronized long a3(int p) { return ((p * G10.ai0(p).i0(p)) * (p ^ 2)); }
  long a4(int p) { return ((((C10_0) new C10_4((p + 4))).f2 + new C10_5.In((p ^ 6)).w((p ^ 6))) ^ new C10_0.In((p ^ 9)).w((p ^ 9))); }
  public final long i0(int p) { return (L.len(new C10_0[(p + 3) & 3][2]) * L.len(new C10_5[-p & 3][2])); }
  public final long i1(int p) { return ((p ^ 11) - G10.ai0((p + 3)).i0((p + 3))); }
  public synchronized long i2(int p) { return ((((p + 3) + L.name(C10_0.class)) * C10_2.t((p + 5))) + new C10_0.In((p ^ 14)).w((p ^ 14))); }
  private long pv(int p) { return p ^ 810; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C10_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C10_0.this.f1; }
  }
}
abstract class C10_1 {
  static long s = Integer.parseInt("542");
  static final int CONST = 51025;
  static final String TEXT = "C10_1-84";
  Object f0;
  double f1;
  String f2;
  long f3;
  C10_1(int p) {
    f0 = Integer.valueOf(p);
    f1 = (double) (p * 7);
    f2 = "v" + p;
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 3L + CONST + TEXT.length(); }
  public synchronized long a1(int p) { return ((L.fn(C10_5::t, p) * L.sw(-p)) ^ (p ^ 5)); }
  protected synchronized long a2(int p) { return (((2258L ^ L.fn((int x) -> x * 56L + p, (p + 6))) ^ new C10_1.In(-p).w(-p)) ^ this.f2.length()); }
  private long pv(int p) { return p ^ 578; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C10_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C10_1.this.f3; }
  }
}
abstract class C10_2 extends C10_1 {
  static long s = Integer.parseInt("100");
  static final int CONST = 456745;
  static final String TEXT = "C10_2-27";
  byte f2;
  C10_2(int p) {
    super(p * 4);
    f2 = (byte) (p * 7);
  }
  static long t(int p) { return p * 38L + CONST + TEXT.length(); }
  public long a3(int p) { return (((L.name(C10_2[].class) ^ G10.ai0(p).i1(p)) + G10.ai0(p).i0(p)) ^ L.sw((p + 8))); }
  long a4(int p) { return ((C10_1.s * "xxxx10".length()) - (p ^ 12)); }
  private long pv(int p) { return p ^ 470; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C10_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + L.h(((C10_1) C10_2.this).f0); }
  }
}
class C10_3 extends C10_2 implements I10_2 {
  static long s = C10_1.s + 57;
  static final int CONST = 248632;
  static final String TEXT = "C10_3-89";
  int f0;
  String f3;
  C10_3(int p) {
    super(p * 2);
    f0 = p * 3;
    f3 = "v" + p;
  }
  static long t(int p) { return p * 16L + CONST + TEXT.length(); }
  protected long a2(int p) { return (((L.sw(-p) ^ C10_5.s) + p) ^ -p); }
  long a4(int p) { return (((new C10_3(-p).f3.length() * G10.ai2(-p).i3(-p)) - G10.ai1(p).i2(p)) ^ 81386L); }
  public long i0(int p) { return (new C10_3.In(-p).w(-p) * L.len(new C10_3[-p & 3][2])); }
  public long i1(int p) { return (new C10_5(-p).a0(-p) * L.len(new C10_3[(p + 9) & 3][2])); }
  public final long i2(int p) { return ((((G10.mk(p) instanceof I10_0 ? 15 : 16) * L.fn((int x) -> x * 46L + p, p)) + G10.cast2(p)) ^ (G10.mk((p ^ 11)) instanceof I10_2 ? 15 : 16)); }
  public long i3(int p) { return ((new C10_0((p ^ 11)).a0((p ^ 11)) - L.len(new C10_3[(p + 4) & 3][2])) + G10.ai1((p ^ 12)).i2((p ^ 12))); }
  private long pv(int p) { return p ^ 248; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C10_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + L.h(((C10_1) C10_3.this).f0); }
  }
}
class C10_4 extends C10_0 {
  static long s = C10_0.s + 7;
  static final int CONST = 613087;
  static final String TEXT = "C10_4-64";
  long f0;
  char f1;
  char f2;
  C10_4(int p) {
    super(p * 4);
    f0 = p * 5000000000L;
    f1 = (char) (p * 7);
    f2 = (char) (p * 7);
  }
  static long t(int p) { return p * 26L + CONST + TEXT.length(); }
  long a4(int p) { return ((((G10.mk((p + 9)) instanceof C10_3 ? 5 : 6) ^ L.name(C10_1.class)) + G10.ai0(-p).i0(-p)) + (p + 4)); }
  private long pv(int p) { return p ^ 894; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C10_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C10_4.this.f0; }
  }
}
class C10_5 {
  static long s = Integer.parseInt("279");
  static final int CONST = 687808;
  static final String TEXT = "C10_5-80";
  String f0;
  double f1;
  String f2;
  C10_5(int p) {
    f0 = "v" + p;
    f1 = (double) (p * 7);
    f2 = "v" + p;
  }
  static long t(int p) { return p * 17L + CONST + TEXT.length(); }
  protected long a0(int p) { return ((G10.cast4(p) ^ "k8".hashCode()) + new C10_4.In((p + 6)).w((p + 6))); }
  public long a3(int p) { return ((L.fn(C10_5::t, (p + 9)) ^ (p ^ 2)) ^ G10.ai0(-p).i1(-p)); }
  synchronized long a4(int p) { return ((new C10_1.In(-p).w(-p) ^ G10.ai0(p).i0(p)) ^ L.sw(p)); }
  private long pv(int p) { return p ^ 289; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C10_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C10_5.this.f2.length(); }
  }
}
enum E10 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 4; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb10 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 6; }
}
public class G10 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C10_0(p);
    case 1: return new C10_4(p);
    case 2: return new C10_4(p);
    case 3: return new C10_4(p);
    case 4: return "text" + p;
    case 5: return new C10_4(p);
    case 6: return new C10_5(p);
    default: return new C10_3(p);
    }
  }
  static C10_0 as0(int p) {
    if ((p & 3) == 3) return new C10_0(p + 1);
    return new C10_4(p);
  }
  static long cast0(int p) {
    try {
      C10_0 c = (C10_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C10_1 as1(int p) {
    return new C10_3(p);
  }
  static long cast1(int p) {
    try {
      C10_1 c = (C10_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C10_2 as2(int p) {
    return new C10_3(p);
  }
  static long cast2(int p) {
    try {
      C10_2 c = (C10_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C10_3 as3(int p) {
    return new C10_3(p);
  }
  static long cast3(int p) {
    try {
      C10_3 c = (C10_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C10_4 as4(int p) {
    return new C10_4(p);
  }
  static long cast4(int p) {
    try {
      C10_4 c = (C10_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C10_5 as5(int p) {
    return new C10_5(p);
  }
  static long cast5(int p) {
    try {
      C10_5 c = (C10_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I10_0 ai0(int p) {
    if ((p & 3) == 1) return new C10_0(p + 2);
    if ((p & 3) == 0) return new C10_3(p + 2);
    return new C10_4(p);
  }
  static I10_1 ai1(int p) {
    if ((p & 3) == 0) return new C10_0(p + 2);
    if ((p & 3) == 1) return new C10_3(p + 2);
    return new C10_4(p);
  }
  static I10_2 ai2(int p) {
    return new C10_3(p);
  }
  static long e0(int p) {
    long r = 0;
    try {
      r += Late2.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + new Fb10().f((long) p) + (Long) ((L.Fn) new Fb10()).f(5L) + ((L.Both<Long>) new Fb10()).f(6L);
    try {
      r += Late2.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (91355 + L.len(new C10_5[(p + 6) & 3][2]));
    r = r * 31 + ((((G10.ai2(-p).i3(-p) * G10.ai0(-p).i1(-p)) + G10.ai2((p ^ 12)).i3((p ^ 12))) ^ L.name(I10_2.class)) ^ (long) new C10_5(p).f1);
    r = r * 31 + (G10.ai2((p + 7)).i3((p + 7)) * G10.ai0((p ^ 9)).i1((p ^ 9)));
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + (((G10.ai0((p + 8)).i1((p + 8)) + G10.ai0((p + 6)).i0((p + 6))) ^ L.name(int[][].class)) - -p);
    {
      Object[] o = new C10_0[2];
      r = r * 31 + (o instanceof C10_0[] ? 1 : 2) + (o instanceof I10_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + (((L.len(new C10_0[p & 3][2]) ^ L.len(new C10_4[(p + 8) & 3][2])) ^ (p + 2)) * new C10_3(-p).a1(-p));
    return r;
  }
  static long e2(int p) {
    long r = 2;
    r = r * 31 + new Fb10().f((long) p) + (Long) ((L.Fn) new Fb10()).f(5L) + ((L.Both<Long>) new Fb10()).f(6L);
    r = r * 31 + L.construct(C10_5.class, p);
    try {
      r += Late2.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (L.fn((int x) -> x * 25L + p, (p + 1)) + new C10_0.In(-p).w(-p));
    {
      Object[] o = new C10_4[2];
      r = r * 31 + (o instanceof C10_2[] ? 1 : 2) + (o instanceof I10_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + ((L.len(new C10_4[p & 3][2]) - new C10_4.In(-p).w(-p)) - E10.values()[-p & 3].v(-p));
    try {
      r += new Late2(p).virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + ((I10_2) L.proxy(I10_2.class)).i3(p);
    r = r * 31 + (L.fn((int x) -> C10_3.t(x) + 40, (p ^ 10)) - L.len(new C10_3[p & 3][2]));
    r = r * 31 + new Fb10().f((long) p) + (Long) ((L.Fn) new Fb10()).f(5L) + ((L.Both<Long>) new Fb10()).f(6L);
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r += Late2.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += Late2.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.construct(C10_5.class, p);
    r = r * 31 + new Fb10().f((long) p) + (Long) ((L.Fn) new Fb10()).f(5L) + ((L.Both<Long>) new Fb10()).f(6L);
    {
      Object[] o = new C10_5[2];
      r = r * 31 + (o instanceof C10_2[] ? 1 : 2) + (o instanceof I10_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + new C10_5(p).new Inner().w(p);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + ((-p ^ (p ^ 15)) - G10.cast1(p));
    r = r * 31 + ((I10_1) L.proxy(I10_1.class)).i2(p);
    r = r * 31 + I10_0.K0;
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + new C10_5(p).new Inner().w(p);
    r = r * 31 + (new C10_1.In((p ^ 12)).w((p ^ 12)) + G10.cast1((p ^ 14)));
    r = r * 31 + L.reflect(new C10_0(p), "a0", p);
    r = r * 31 + L.reflect(new C10_5(p), "a4", p);
    r = r * 31 + ((I10_2) L.proxy(I10_2.class)).i3(p);
    r = r * 31 + ((I10_2) L.proxy(I10_2.class)).i3(p);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + I10_2.K2;
    try {
      r += new Late2(p).virt(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.reflect(new C10_5(p), "a4", p);
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

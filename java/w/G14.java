package w;
/* generated by tools/genlink.py */
interface I14_0 {
  int K0 = Integer.parseInt("92");
  long i0(int p);
  long i1(int p);
}
interface I14_1 {
  int K1 = Integer.parseInt("34");
  long i2(int p);
}
interface I14_2 extends I14_0 {
  int K2 = Integer.parseInt("65");
  long i3(int p);
}
class C14_0 {
  static long s = Integer.parseInt("289");
  static final int CONST = 719709;
  static final String TEXT = "C14_0-57";
  boolean f0;
  byte f2;
  C14_0(int p) {
    f0 = (p & 1) == 0;
    f2 = (byte) (p * 7);
  }
  static long t(int p) { return p * 8L + CONST + TEXT.length(); }
  protected synchronized long a0(int p) { return (((L.name(C14_1[].class) ^ G14.ai0((p + 5)).i0((p + 5))) ^ E14.values()[(p ^ 11) & 3].v((p ^ 11))) ^ E14.values()[-p & 3].v(-p)); }
  private long pv(int p) { return p ^ 198; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C14_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (C14_0.this.f0 ? 3 : 4); }
  }
}
class C14_1 extends C14_0 implements I14_1, I14_2 {
  static long s = Integer.parseInt("981");
  static final int CONST = 280520;
  static final String TEXT = "C14_1-66";
  char f0;
  boolean f1;
  String f3;
  C14_1(int p) {
    super(p * 2);
    f0 = (char) (p * 7);
    f1 = (p & 1) == 0;
    f3 = "v" + p;
  }
  static long t(int p) { return p * 17L + CONST + TEXT.length(); }
  protected synchronized long a0(int p) { return ((((p + 6) - new C14_0.In((p + 4)).w((p + 4))) - C14_0.t(p)) + L.fn(C14_3::t, (p + 6))); }
  public synchronized long a3(int p) { return ((((G14.mk(-p) instanceof I14_1 ? 15 : 16) * E14.values()[p & 3].v(p)) + C14_5.t((p + 7))) ^ G14.ai0((p ^ 5)).i0((p ^ 5))); }
  public synchronized long a4(int p) { return ((G14.ai0((p + 4)).i1((p + 4)) ^ L.len(new C14_5[(p + 3) & 3][2])) ^ G14.ai1((p ^ 13)).i2((p ^ 13))); }
  public synchronized long i0(int p) { return (new C14_2.In(-p).w(-p) - ((C14_0) this).f2); }
  public synchronized long i1(int p) { return ((((p + 1) + L.sw((p + 8))) * G14.ai0((p ^ 2)).i0((p ^ 2))) * p); }
  public synchronized long i2(int p) { return (56683L * new C14_5(p).f0); }
  public long i3(int p) { return ("k8".hashCode() ^ (G14.mk((p + 6)) instanceof C14_1 ? 5 : 6)); }
  private long pv(int p) { return p ^ 647; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C14_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C14_1.this.f0; }
  }
}
class C14_2 extends C14_1 {
  static long s = C14_1.s + 73;
  static final int CONST = 511287;
  static final String TEXT = "C14_2-37";
  char f3;
  C14_2(int p) {
    super(p * 5);
    f3 = (char) (p * 7);
  }
  static long t(int p) { return p * 47L + CONST + TEXT.length(); }
  protected long a1(int p) { return ((G14.ai0((p ^ 3)).i0((p ^ 3)) ^ (p ^ 9)) + 13681); }
  public long a4(int p) { return (G14.as2(p).a1(p) ^ G14.cast1((p + 8))); }
  public final long i1(int p) { return (((((C14_1) this).f1 ? 3 : 4) + C14_5.t(p)) - L.name(C14_5[].class)); }
  public long i2(int p) { return (-p ^ 70039L); }
  private long pv(int p) { return p ^ 503; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C14_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (((C14_0) C14_2.this).f0 ? 3 : 4); }
  }
}
class C14_3 extends C14_2 {
  static long s = Integer.parseInt("364");
  static final int CONST = 337872;
  static final String TEXT = "C14_3-96";
  float f3;
  C14_3(int p) {
    super(p * 3);
    f3 = (float) (p * 7);
  }
  static long t(int p) { return p * 19L + CONST + TEXT.length(); }
  protected synchronized long a1(int p) { return (C14_1.t(-p) - (p + 4)); }
  public long a3(int p) { return (G14.ai1(p).i2(p) - G14.ai0((p ^ 4)).i0((p ^ 4))); }
  public long a4(int p) { return (this.a1(-p) ^ C14_4.s); }
  public final long i3(int p) { return ((C14_2.s * L.sw((p + 5))) * L.len(new C14_3[-p & 3][2])); }
  private long pv(int p) { return p ^ 118; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C14_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (((C14_1) C14_3.this).f1 ? 3 : 4); }
  }
}
class C14_4 extends C14_3 implements I14_2 {
  static long s = C14_3.s + 40;
  static final int CONST = 725041;
  static final String TEXT = "C14_4-13";
  char f1;
  Object f3;
  C14_4(int p) {
    super(p * 4);
    f1 = (char) (p * 7);
    f3 = "o" + p;
  }
  static long t(int p) { return p * 3L + CONST + TEXT.length(); }
  protected synchronized long a1(int p) { return ((((p + 9) + (p + 6)) * G14.cast4(p)) * (G14.mk(-p) instanceof C14_2 ? 5 : 6)); }
  public long a3(int p) { return ((((p + 8) * G14.ai2((p + 8)).i3((p + 8))) ^ G14.cast3(-p)) * G14.ai0((p ^ 5)).i0((p ^ 5))); }
  public synchronized long i0(int p) { return ((-p * G14.cast4(-p)) - L.name(C14_4.class)); }
  private long pv(int p) { return p ^ 40; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C14_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C14_2) C14_4.this).f3; }
  }
}
class C14_5 implements I14_0, I14_1 {
  static long s = Integer.parseInt("190");
  static final int CONST = 60994;
  static final String TEXT = "C14_5-90";
  int f0;
  long f2;
  byte f3;
  C14_5(int p) {
    f0 = p * 3;
    f2 = p * 5000000000L;
    f3 = (byte) (p * 7);
  }
  static long t(int p) { return p * 15L + CONST + TEXT.length(); }
  public synchronized long a4(int p) { return (new C14_3((p + 7)).a0((p + 7)) ^ new C14_4(-p).a1(-p)); }
  public synchronized long i0(int p) { return (((p + 8) * L.sw(-p)) * p); }
  public long i1(int p) { return (G14.ai0(p).i0(p) + (p ^ 1)); }
  public long i2(int p) { return ((((new C14_1(-p).f1 ? 3 : 4) + G14.cast5((p + 8))) - G14.cast2(-p)) * G14.ai0((p ^ 11)).i1((p ^ 11))); }
  private long pv(int p) { return p ^ 923; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C14_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C14_5.this.f0; }
  }
}
enum E14 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 8; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb14 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 9; }
}
public class G14 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C14_5(p);
    case 1: return new C14_4(p);
    case 2: return new C14_0(p);
    case 3: return new int[2];
    case 4: return new C14_2(p);
    case 5: return new int[2];
    case 6: return new C14_3(p);
    default: return new C14_0(p);
    }
  }
  static C14_0 as0(int p) {
    if ((p & 3) == 2) return new C14_0(p + 1);
    if ((p & 3) == 1) return new C14_1(p + 1);
    if ((p & 3) == 0) return new C14_2(p + 1);
    if ((p & 3) == 1) return new C14_3(p + 1);
    return new C14_4(p);
  }
  static long cast0(int p) {
    try {
      C14_0 c = (C14_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C14_1 as1(int p) {
    if ((p & 3) == 3) return new C14_1(p + 1);
    if ((p & 3) == 2) return new C14_2(p + 1);
    if ((p & 3) == 2) return new C14_3(p + 1);
    return new C14_4(p);
  }
  static long cast1(int p) {
    try {
      C14_1 c = (C14_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C14_2 as2(int p) {
    if ((p & 3) == 0) return new C14_2(p + 1);
    if ((p & 3) == 1) return new C14_3(p + 1);
    return new C14_4(p);
  }
  static long cast2(int p) {
    try {
      C14_2 c = (C14_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C14_3 as3(int p) {
    if ((p & 3) == 0) return new C14_3(p + 1);
    return new C14_4(p);
  }
  static long cast3(int p) {
    try {
      C14_3 c = (C14_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C14_4 as4(int p) {
    return new C14_4(p);
  }
  static long cast4(int p) {
    try {
      C14_4 c = (C14_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C14_5 as5(int p) {
    return new C14_5(p);
  }
  static long cast5(int p) {
    try {
      C14_5 c = (C14_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I14_0 ai0(int p) {
    if ((p & 3) == 2) return new C14_1(p + 2);
    if ((p & 3) == 1) return new C14_2(p + 2);
    if ((p & 3) == 3) return new C14_3(p + 2);
    if ((p & 3) == 0) return new C14_4(p + 2);
    return new C14_5(p);
  }
  static I14_1 ai1(int p) {
    if ((p & 3) == 3) return new C14_1(p + 2);
    if ((p & 3) == 3) return new C14_2(p + 2);
    if ((p & 3) == 1) return new C14_3(p + 2);
    if ((p & 3) == 1) return new C14_4(p + 2);
    return new C14_5(p);
  }
  static I14_2 ai2(int p) {
    if ((p & 3) == 2) return new C14_1(p + 2);
    if ((p & 3) == 3) return new C14_2(p + 2);
    if ((p & 3) == 1) return new C14_3(p + 2);
    return new C14_4(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + (((L.len(new C14_2[p & 3][2]) - G14.ai0((p ^ 7)).i1((p ^ 7))) ^ G14.ai0(p).i1(p)) - L.sw(p));
    {
      Object[] o = new C14_2[2];
      r = r * 31 + (o instanceof C14_5[] ? 1 : 2) + (o instanceof I14_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + I14_0.K0;
    r = r * 31 + L.construct(C14_1.class, p);
    try {
      r += Late2.gone(p);
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    try {
      r += Late2.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + new Fb14().f((long) p) + (Long) ((L.Fn) new Fb14()).f(5L) + ((L.Both<Long>) new Fb14()).f(6L);
    r = r * 31 + ((G14.mk((p + 6)) instanceof C14_0 ? 5 : 6) - -p);
    r = r * 31 + L.construct(C14_2.class, p);
    return r;
  }
  static long e2(int p) {
    long r = 2;
    {
      Object[] o = new C14_2[2];
      r = r * 31 + (o instanceof C14_3[] ? 1 : 2) + (o instanceof I14_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((("x63".length() - C14_4.t(-p)) ^ new C14_3.In(-p).w(-p)) - (G14.mk(p) instanceof C14_4 ? 5 : 6));
    r = r * 31 + L.reflect(new C14_0(p), "a0", p);
    r = r * 31 + ((I14_2) L.proxy(I14_2.class)).i3(p);
    r = r * 31 + ((((6109 ^ G14.ai0(p).i0(p)) - "k1".hashCode()) * (new C14_0((p + 3)).f0 ? 3 : 4)) - L.len(new C14_0[p & 3][2]));
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r += new Late2().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.construct(C14_1.class, p);
    r = r * 31 + (((L.len(new C14_0[(p + 1) & 3][2]) * G14.ai2((p + 2)).i3((p + 2))) - L.name(long.class)) ^ G14.cast1(-p));
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + ((("k6".hashCode() ^ G14.ai2(-p).i3(-p)) ^ L.sw(-p)) + L.fn(C14_3::t, -p));
    r = r * 31 + ((((G14.ai0(p).i0(p) ^ -p) * G14.ai1((p + 6)).i2((p + 6))) ^ new C14_4((p ^ 7)).a3((p ^ 7))) * p);
    r = r * 31 + ((I14_1) L.proxy(I14_1.class)).i2(p);
    r = r * 31 + L.construct(C14_1.class, p);
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + ((I14_1) L.proxy(I14_1.class)).i2(p);
    r = r * 31 + L.reflect(new C14_2(p), "a3", p);
    r = r * 31 + new Fb14().f((long) p) + (Long) ((L.Fn) new Fb14()).f(5L) + ((L.Both<Long>) new Fb14()).f(6L);
    r = r * 31 + ((new C14_5.In((p + 2)).w((p + 2)) * "k4".hashCode()) - (((C14_0) new C14_1(-p)).f0 ? 3 : 4));
    {
      Object[] o = new C14_3[2];
      r = r * 31 + (o instanceof C14_5[] ? 1 : 2) + (o instanceof I14_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + L.construct(C14_1.class, p);
    return r;
  }
  static long e6(int p) {
    long r = 6;
    {
      Object[] o = new C14_1[2];
      r = r * 31 + (o instanceof C14_4[] ? 1 : 2) + (o instanceof I14_2[] ? 3 : 4) + o.getClass().getName().length();
    }
    {
      Object[] o = new C14_3[2];
      r = r * 31 + (o instanceof C14_4[] ? 1 : 2) + (o instanceof I14_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + L.reflect(new C14_2(p), "a1", p);
    r = r * 31 + (((((C14_1) new C14_2(-p)).f1 ? 3 : 4) + (G14.mk((p + 9)) instanceof I14_2 ? 15 : 16)) * (G14.mk((p + 8)) instanceof I14_0 ? 15 : 16));
    return r;
  }
  static long e7(int p) {
    long r = 7;
    {
      Object[] o = new C14_1[2];
      r = r * 31 + (o instanceof C14_1[] ? 1 : 2) + (o instanceof I14_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + new C14_1(p).new Inner().w(p);
    r = r * 31 + (((L.len(new C14_0[(p + 6) & 3][2]) - p) - G14.as0((p ^ 15)).a0((p ^ 15))) + 62670L);
    r = r * 31 + (new C14_5((p + 8)).f0 - E14.values()[p & 3].v(p));
    {
      Object[] o = new C14_1[2];
      r = r * 31 + (o instanceof C14_5[] ? 1 : 2) + (o instanceof I14_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

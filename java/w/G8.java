package w;
/* generated by tools/genlink.py */
interface I8_0 {
  int K0 = Integer.parseInt("91");
  long i0(int p);
  default long i1(int p) { return ((("k1".hashCode() - L.sw(p)) - E8.values()[-p & 3].v(-p)) ^ p); }
}
interface I8_1 {
  int K1 = Integer.parseInt("29");
  default long i2(int p) { return ((p + L.len(new C8_2[-p & 3][2])) ^ G8.ai0((p + 3)).i0((p + 3))); }
}
interface I8_2 extends I8_1 {
  int K2 = Integer.parseInt("42");
  long i3(int p);
}
abstract class C8_0 {
  static long s = Integer.parseInt("324");
  static final int CONST = 606143;
  static final String TEXT = "C8_0-8";
  double f0;
  short f2;
  byte f3;
  C8_0(int p) {
    f0 = (double) (p * 7);
    f2 = (short) (p * 7);
    f3 = (byte) (p * 7);
  }
  static long t(int p) { return p * 23L + CONST + TEXT.length(); }
  protected synchronized long a1(int p) { return ((G8.ai0(p).i1(p) * G8.cast2((p + 3))) ^ G8.ai0((p + 5)).i1((p + 5))); }
  public abstract long a2(int p);
  protected abstract long a3(int p);
  protected abstract long a4(int p);
  private long pv(int p) { return p ^ 180; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C8_0.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C8_0.this.f2; }
  }
}
class C8_1 extends C8_0 {
  static long s = Integer.parseInt("162");
  static final int CONST = 145031;
  static final String TEXT = "C8_1-80";
  byte f1;
  float f2;
  long f3;
  C8_1(int p) {
    super(p * 5);
    f1 = (byte) (p * 7);
    f2 = (float) (p * 7);
    f3 = p * 5000000000L;
  }
  static long t(int p) { return p * 12L + CONST + TEXT.length(); }
  public long a2(int p) { return ((L.len(new C8_1[(p ^ 11) & 3][2]) + (G8.mk(p) instanceof C8_3 ? 5 : 6)) + L.len(new C8_2[(p + 8) & 3][2])); }
  protected long a3(int p) { return (L.len(new C8_2[p & 3][2]) * G8.ai0((p + 2)).i0((p + 2))); }
  protected long a4(int p) { return (((G8.ai2(p).i3(p) ^ G8.ai2((p + 7)).i3((p + 7))) ^ L.name(C8_2[].class)) - G8.cast0((p + 8))); }
  private long pv(int p) { return p ^ 928; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C8_1.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (long) ((C8_0) C8_1.this).f0; }
  }
}
class C8_2 extends C8_0 implements I8_1 {
  static long s = C8_0.s + 43;
  static final int CONST = 548587;
  static final String TEXT = "C8_2-61";
  int f1;
  short f3;
  C8_2(int p) {
    super(p * 1);
    f1 = p * 3;
    f3 = (short) (p * 7);
  }
  static long t(int p) { return p * 31L + CONST + TEXT.length(); }
  public long a2(int p) { return (((E8.values()[-p & 3].v(-p) ^ L.sw(p)) + ((C8_0) this).f3) * C8_0.t(p)); }
  protected synchronized long a3(int p) { return (((G8.ai2((p + 4)).i3((p + 4)) * L.fn((int x) -> C8_1.t(x) + 75, (p ^ 11))) * ((C8_0) new C8_4(-p)).f2) + (G8.mk((p ^ 1)) instanceof I8_1 ? 15 : 16)); }
  protected synchronized long a4(int p) { return ((new C8_0.In(-p).w(-p) ^ (G8.mk(-p) instanceof C8_3 ? 5 : 6)) * new C8_1((p + 7)).f3); }
  private long pv(int p) { return p ^ 951; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C8_2.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + C8_2.this.f3; }
  }
}
class C8_3 implements I8_0, I8_1, I8_2 {
  static long s = C8_0.s + 59;
  static final int CONST = 24999;
  static final String TEXT = "C8_3-91";
  char f0;
  boolean f1;
  byte f2;
  double f3;
  C8_3(int p) {
    f0 = (char) (p * 7);
    f1 = (p & 1) == 0;
    f2 = (byte) (p * 7);
    f3 = (double) (p * 7);
  }
  static long t(int p) { return p * 33L + CONST + TEXT.length(); }
  public long a0(int p) { return ((L.sw(p) + C8_2.t((p ^ 2))) * p); }
  protected long a3(int p) { return ((p ^ 9) - E8.values()[(p ^ 11) & 3].v((p ^ 11))); }
  public long i0(int p) { return ((L.fn((int x) -> x * 83L + p, (p + 3)) * "k2".hashCode()) + -p); }
  public synchronized long i3(int p) { return ((G8.mk(-p) instanceof I8_0 ? 15 : 16) ^ L.fn((int x) -> x * 97L + p, (p ^ 15))); }
  private long pv(int p) { return p ^ 734; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C8_3.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + (C8_3.this.f1 ? 3 : 4); }
  }
}
class C8_4 extends C8_1 {
  static long s = C8_3.s + 49;
  static final int CONST = 221198;
  static final String TEXT = "C8_4-75";
  short f0;
  short f1;
  String f3;
  C8_4(int p) {
    super(p * 3);
    f0 = (short) (p * 7);
    f1 = (short) (p * 7);
    f3 = "v" + p;
  }
  static long t(int p) { return p * 39L + CONST + TEXT.length(); }
  protected long a1(int p) { return ((p + G8.cast0((p ^ 1))) - C8_4.s); }
  public long a2(int p) { return (new C8_5(-p).f3 * L.sw(-p)); }
  protected long a3(int p) { return ((p + 7) * C8_3.s); }
  private long pv(int p) { return p ^ 807; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C8_4.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C8_1) C8_4.this).f1; }
  }
}
class C8_5 extends C8_3 implements I8_1 {
  static long s = Integer.parseInt("914");
  static final int CONST = 193812;
  static final String TEXT = "C8_5-50";
  boolean f2;
  int f3;
  C8_5(int p) {
    super(p * 4);
    f2 = (p & 1) == 0;
    f3 = p * 3;
  }
  static long t(int p) { return p * 49L + CONST + TEXT.length(); }
  protected long a1(int p) { return (((L.sw((p + 5)) * L.len(new C8_3[-p & 3][2])) ^ "x16".length()) ^ (G8.mk((p ^ 8)) instanceof I8_1 ? 15 : 16)); }
  protected long a3(int p) { return ((G8.mk((p ^ 15)) instanceof I8_0 ? 15 : 16) - G8.ai0(-p).i0(-p)); }
  protected synchronized long a4(int p) { return ((G8.ai0(p).i1(p) ^ G8.ai1(p).i2(p)) ^ E8.values()[p & 3].v(p)); }
  public long i2(int p) { return ((p + 2) - L.fn((int x) -> C8_1.t(x) + 19, -p)); }
  private long pv(int p) { return p ^ 232; }
  static class In {
    final int q;
    In(int q) { this.q = q; }
    long w(int p) { return q * 3 + p + C8_5.t(q); }
  }
  class Inner {
    long w(int p) { return pv(p) + ((C8_3) C8_5.this).f2; }
  }
}
enum E8 {
  A { long v(int p) { return p + 1; } }, B { long v(int p) { return p * 4; } }, C, D;
  long v(int p) { return ordinal() * 10 + p; }
}
class Fb8 implements L.Fn<Long>, L.Both<Long> {
  public Long f(Long x) { return x * 3; }
}
public class G8 {
  static Object mk(int p) {
    switch (p & 7) {
    case 0: return new C8_4(p);
    case 1: return new C8_4(p);
    case 2: return null;
    case 3: return new C8_5(p);
    case 4: return new C8_4(p);
    case 5: return new C8_4(p);
    case 6: return new C8_1(p);
    default: return new C8_2(p);
    }
  }
  static C8_0 as0(int p) {
    if ((p & 3) == 3) return new C8_1(p + 1);
    if ((p & 3) == 2) return new C8_2(p + 1);
    return new C8_4(p);
  }
  static long cast0(int p) {
    try {
      C8_0 c = (C8_0) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C8_1 as1(int p) {
    if ((p & 3) == 3) return new C8_1(p + 1);
    return new C8_4(p);
  }
  static long cast1(int p) {
    try {
      C8_1 c = (C8_1) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C8_2 as2(int p) {
    return new C8_2(p);
  }
  static long cast2(int p) {
    try {
      C8_2 c = (C8_2) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C8_3 as3(int p) {
    if ((p & 3) == 0) return new C8_3(p + 1);
    return new C8_5(p);
  }
  static long cast3(int p) {
    try {
      C8_3 c = (C8_3) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C8_4 as4(int p) {
    return new C8_4(p);
  }
  static long cast4(int p) {
    try {
      C8_4 c = (C8_4) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static C8_5 as5(int p) {
    return new C8_5(p);
  }
  static long cast5(int p) {
    try {
      C8_5 c = (C8_5) mk(p);
      return c == null ? 70 : 71;
    } catch (ClassCastException e) {
      return 72;
    }
  }
  static I8_0 ai0(int p) {
    if ((p & 3) == 3) return new C8_3(p + 2);
    return new C8_5(p);
  }
  static I8_1 ai1(int p) {
    if ((p & 3) == 1) return new C8_2(p + 2);
    if ((p & 3) == 2) return new C8_3(p + 2);
    return new C8_5(p);
  }
  static I8_2 ai2(int p) {
    if ((p & 3) == 3) return new C8_3(p + 2);
    return new C8_5(p);
  }
  static long e0(int p) {
    long r = 0;
    r = r * 31 + L.reflect(new C8_1(p), "a2", p);
    r = r * 31 + L.construct(C8_4.class, p);
    {
      Object[] o = new C8_5[2];
      r = r * 31 + (o instanceof C8_5[] ? 1 : 2) + (o instanceof I8_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((G8.ai0(-p).i1(-p) ^ G8.ai0(p).i1(p)) - (p ^ 9));
    {
      Object[] o = new C8_1[2];
      r = r * 31 + (o instanceof C8_2[] ? 1 : 2) + (o instanceof I8_1[] ? 3 : 4) + o.getClass().getName().length();
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    r = r * 31 + ((((G8.ai1(p).i2(p) * G8.as3((p ^ 10)).a3((p ^ 10))) + G8.ai0(p).i0(p)) - new C8_1.In(p).w(p)) - G8.ai0((p + 3)).i0((p + 3)));
    {
      Object[] o = new C8_4[2];
      r = r * 31 + (o instanceof C8_0[] ? 1 : 2) + (o instanceof I8_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + ((((95535 + new C8_4(p).a2(p)) * (G8.mk((p + 3)) instanceof C8_0 ? 5 : 6)) + -p) * (long) ((C8_0) new C8_4(p)).f0);
    r = r * 31 + ((I8_1) L.proxy(I8_1.class)).i2(p);
    r = r * 31 + ((((G8.ai0(p).i0(p) * C8_4.s) - G8.ai0(p).i1(p)) - G8.ai0((p ^ 1)).i1((p ^ 1))) ^ 55878);
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r += Late0.now;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (L.len(new C8_5[(p ^ 6) & 3][2]) ^ G8.ai1((p ^ 4)).i2((p ^ 4)));
    r = r * 31 + I8_0.K0;
    r = r * 31 + (((L.fn((int x) -> C8_0.t(x) + 18, -p) + G8.ai1((p + 7)).i2((p + 7))) * G8.as3(p).a0(p)) - "k0".hashCode());
    {
      Object[] o = new C8_5[2];
      r = r * 31 + (o instanceof C8_2[] ? 1 : 2) + (o instanceof I8_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + (((G8.ai0(-p).i0(-p) + C8_5.s) + (G8.mk(p) instanceof I8_1 ? 15 : 16)) + E8.values()[(p + 3) & 3].v((p + 3)));
    return r;
  }
  static long e3(int p) {
    long r = 3;
    r = r * 31 + (((-p * C8_3.t(p)) * (p + 2)) - (p + 2));
    r = r * 31 + I8_2.K2;
    r = r * 31 + (((new C8_5((p + 4)).a0((p + 4)) + G8.as3(-p).a3(-p)) * G8.ai0((p ^ 1)).i0((p ^ 1))) ^ G8.as3((p ^ 7)).a3((p ^ 7)));
    return r;
  }
  static long e4(int p) {
    long r = 4;
    r = r * 31 + I8_2.K2;
    r = r * 31 + (((((G8.mk((p + 1)) instanceof C8_3 ? 5 : 6) - (G8.mk((p + 5)) instanceof C8_4 ? 5 : 6)) * G8.as0(p).a2(p)) + G8.as5((p ^ 7)).a0((p ^ 7))) ^ new C8_3((p ^ 13)).a0((p ^ 13)));
    r = r * 31 + (((G8.cast0((p ^ 12)) + new C8_4.In(p).w(p)) * p) - G8.ai1(p).i2(p));
    try {
      r += new Late0().inst;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + (G8.ai2(-p).i3(-p) + (G8.mk((p ^ 11)) instanceof I8_0 ? 15 : 16));
    return r;
  }
  static long e5(int p) {
    long r = 5;
    r = r * 31 + ((G8.ai1(-p).i2(-p) * (((C8_3) new C8_5(-p)).f1 ? 3 : 4)) - L.name(I8_1.class));
    {
      Object[] o = new C8_1[2];
      r = r * 31 + (o instanceof C8_3[] ? 1 : 2) + (o instanceof I8_0[] ? 3 : 4) + o.getClass().getName().length();
    }
    r = r * 31 + new C8_5(p).new Inner().w(p);
    r = r * 31 + L.reflect(new C8_5(p), "a1", p);
    return r;
  }
  static long e6(int p) {
    long r = 6;
    r = r * 31 + I8_1.K1;
    r = r * 31 + ((C8_2.s * new C8_2.In((p ^ 5)).w((p ^ 5))) * (G8.mk(p) instanceof I8_1 ? 15 : 16));
    r = r * 31 + ((I8_0) L.proxy(I8_0.class)).i1(p);
    try {
      r += Late0.field;
    } catch (LinkageError x) {
      r = r * 7 + L.kind(x);
    }
    r = r * 31 + L.reflect(new C8_2(p), "a2", p);
    return r;
  }
  static long e7(int p) {
    long r = 7;
    r = r * 31 + ((I8_0) L.proxy(I8_0.class)).i0(p);
    r = r * 31 + (((G8.ai1((p ^ 8)).i2((p ^ 8)) - L.fn(C8_4::t, -p)) * new C8_5.In(p).w(p)) + L.sw(p));
    r = r * 31 + new C8_1(p).new Inner().w(p);
    r = r * 31 + L.reflect(new C8_1(p), "a3", p);
    r = r * 31 + (((G8.ai0(-p).i1(-p) + (p + 2)) + L.len(new C8_1[(p + 7) & 3][2])) + "k8".hashCode());
    r = r * 31 + ((((C8_0.t(p) ^ (G8.mk((p ^ 4)) instanceof C8_0 ? 5 : 6)) ^ C8_3.s) ^ G8.as2(-p).a2(-p)) * C8_5.t(-p));
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

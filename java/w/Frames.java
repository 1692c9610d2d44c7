package w;

/** Generated by tools/genframes.py. */
public class Frames {
  public static class Ctx {
    public int fuel;
    public void point() {}
  }
  static class Nd {
    int v;
    Nd l;
    Nd(int v, Nd l) { this.v = v; this.l = l; }
    int get(int i) { return v + i; }
    long lg(Ctx c, long x, Nd n) { return x * 7 + chain(new Nd(v, n)); }
  }
  static class Nd2 extends Nd {
    long w;
    Object o;
    double d;
    Nd2(int v, Nd l, long w) { super(v, l); this.w = w; this.o = l; this.d = v; }
    int get(int i) { return super.get(i) ^ (int) w; }
    long lg(Ctx c, long x, Nd n) { return super.lg(c, w, n) ^ x; }
  }
  static class Ex extends RuntimeException {
    final int n;
    Ex(int n) { super("ex" + n); this.n = n; }
  }
  static class Ex2 extends Ex {
    final Nd o;
    Ex2(int n, Nd o) { super(n); this.o = o; }
  }
  interface Shape { int get(int i); }
  static class S0 implements Shape {
    Nd n = new Nd(5, null);
    public int get(int i) { return n.get(i); }
  }
  static class S1 implements Shape {
    int[] a = {1, 2, 3, 4};
    public int get(int i) { return a[i & 3] + new Nd(i, null).get(1); }
  }
  static class S2 extends S1 {
    public int get(int i) { return super.get(i) * 3; }
  }
  static Shape sh(Ctx c, int i) {
    switch (i & 3) {
    case 0: return new S0();
    case 1: return new S1();
    default: return new S2();
    }
  }
  static int v(Nd n) { return n == null ? -3 : n.v; }
  static Nd mk(Ctx c, int i, Nd n) { return (i & 1) == 0 ? new Nd(i, n) : new Nd2(i, n, i * 77L); }
  static int three(Ctx c, int a, Nd n, int b) { return a * 31 + b + chain(new Nd(b, n)); }
  static long sl(Ctx c, Nd n, long x, int i) { return x * 3 + i + chain(new Nd(i, n)); }
  static double dl(Ctx c, Nd n, double d, long x) { return d * 0.5 + (x & 1023) + v(mk(c, (int) x, n)); }
  static Nd left(Nd n) { return n == null ? null : n.l; }
  static Nd link(Ctx c, Nd a, Nd b) {
    if (a == null) return b;
    // bounded and free of cycles
    int d = 0;
    for (Nd x = b; x != null; x = x.l) if (x == a || ++d > 12) return new Nd(a.v, null);
    return a instanceof Nd2 ? new Nd2(a.v, b, ((Nd2) a).w) : new Nd(a.v + 1, b);
  }
  static Object lk(Ctx c, Nd n) { return n == null ? (Object) c : n; }
  static String cut(String s) { return s.length() > 24 ? s.substring(s.length() - 9) : s; }
  static int code(RuntimeException e) {
    int x = e.getClass().getName().hashCode();
    if (e instanceof Ex) x += ((Ex) e).n;
    if (e instanceof Ex2) x += v(((Ex2) e).o) * 3;
    if (e.getClass() == RuntimeException.class) x += e.getMessage().hashCode();
    return x;
  }
  static int sum(int[] a) {
    int s = 0;
    for (int i = 0; i < a.length; ++i) s = s * 3 + a[i];
    return s;
  }
  static int sum(Nd[] a) {
    int s = 0;
    for (int i = 0; i < a.length; ++i) s = s * 5 + chain(a[i]);
    return s;
  }
  static int chain(Nd n) {
    int s = 0;
    for (int d = 0; n != null && d < 40; n = n.l, ++d) {
      s = s * 31 + n.v;
      if (n instanceof Nd2) s += (int) ((Nd2) n).w + (((Nd2) n).o == null ? 1 : 2);
    }
    return s;
  }
  static int kind(Object o) {
    if (o instanceof Nd) return chain((Nd) o);
    if (o instanceof int[]) return sum((int[]) o);
    if (o instanceof String) return o.hashCode();
    if (o instanceof Integer) return ((Integer) o).intValue();
    if (o instanceof Object[]) {
      Object[] a = (Object[]) o;
      return a.length + (a[0] instanceof Nd ? ((Nd) a[0]).v : 9);
    }
    return 4;
  }
  static long fin(Ctx c, long j, int i, Nd n) {
    return (j * 31 + i) * 31 + chain(n);
  }
  public static long run(Ctx c, int m, int p) {
    c.fuel = 400;
    try {
      return run0(c, m, p);
    } catch (RuntimeException e) {
      return code(e) * 1000003L;
    }
  }
  static long run0(Ctx c, int m, int p) {
    switch (m) {
    case 0: return Frames0.m0(c, p, new Nd(p, null));
    case 1: return Frames0.m1(c, p, new Nd(p, null));
    case 2: return Frames0.m2(c, p, new Nd(p, null));
    case 3: return Frames0.m3(c, p, new Nd(p, null));
    case 4: return Frames0.m4(c, p, new Nd(p, null));
    case 5: return Frames0.m5(c, p, new Nd(p, null));
    case 6: return Frames0.m6(c, p, new Nd(p, null));
    case 7: return Frames0.m7(c, p, new Nd(p, null));
    case 8: return Frames0.m8(c, p, new Nd(p, null));
    case 9: return Frames0.m9(c, p, new Nd(p, null));
    case 10: return Frames0.m10(c, p, new Nd(p, null));
    case 11: return Frames0.m11(c, p, new Nd(p, null));
    case 12: return Frames0.m12(c, p, new Nd(p, null));
    case 13: return Frames0.m13(c, p, new Nd(p, null));
    case 14: return Frames0.m14(c, p, new Nd(p, null));
    case 15: return Frames0.m15(c, p, new Nd(p, null));
    case 16: return Frames0.m16(c, p, new Nd(p, null));
    case 17: return Frames0.m17(c, p, new Nd(p, null));
    case 18: return Frames0.m18(c, p, new Nd(p, null));
    case 19: return Frames0.m19(c, p, new Nd(p, null));
    case 20: return Frames0.m20(c, p, new Nd(p, null));
    case 21: return Frames0.m21(c, p, new Nd(p, null));
    case 22: return Frames0.m22(c, p, new Nd(p, null));
    case 23: return Frames0.m23(c, p, new Nd(p, null));
    case 24: return Frames0.m24(c, p, new Nd(p, null));
    case 25: return Frames1.m25(c, p, new Nd(p, null));
    case 26: return Frames1.m26(c, p, new Nd(p, null));
    case 27: return Frames1.m27(c, p, new Nd(p, null));
    case 28: return Frames1.m28(c, p, new Nd(p, null));
    case 29: return Frames1.m29(c, p, new Nd(p, null));
    case 30: return Frames1.m30(c, p, new Nd(p, null));
    case 31: return Frames1.m31(c, p, new Nd(p, null));
    case 32: return Frames1.m32(c, p, new Nd(p, null));
    case 33: return Frames1.m33(c, p, new Nd(p, null));
    case 34: return Frames1.m34(c, p, new Nd(p, null));
    case 35: return Frames1.m35(c, p, new Nd(p, null));
    case 36: return Frames1.m36(c, p, new Nd(p, null));
    case 37: return Frames1.m37(c, p, new Nd(p, null));
    case 38: return Frames1.m38(c, p, new Nd(p, null));
    case 39: return Frames1.m39(c, p, new Nd(p, null));
    case 40: return Frames1.m40(c, p, new Nd(p, null));
    case 41: return Frames1.m41(c, p, new Nd(p, null));
    case 42: return Frames1.m42(c, p, new Nd(p, null));
    case 43: return Frames1.m43(c, p, new Nd(p, null));
    case 44: return Frames1.m44(c, p, new Nd(p, null));
    case 45: return Frames1.m45(c, p, new Nd(p, null));
    case 46: return Frames1.m46(c, p, new Nd(p, null));
    case 47: return Frames1.m47(c, p, new Nd(p, null));
    case 48: return Frames1.m48(c, p, new Nd(p, null));
    case 49: return Frames1.m49(c, p, new Nd(p, null));
    case 50: return Frames2.m50(c, p, new Nd(p, null));
    case 51: return Frames2.m51(c, p, new Nd(p, null));
    case 52: return Frames2.m52(c, p, new Nd(p, null));
    case 53: return Frames2.m53(c, p, new Nd(p, null));
    case 54: return Frames2.m54(c, p, new Nd(p, null));
    case 55: return Frames2.m55(c, p, new Nd(p, null));
    case 56: return Frames2.m56(c, p, new Nd(p, null));
    case 57: return Frames2.m57(c, p, new Nd(p, null));
    case 58: return Frames2.m58(c, p, new Nd(p, null));
    case 59: return Frames2.m59(c, p, new Nd(p, null));
    case 60: return Frames2.m60(c, p, new Nd(p, null));
    case 61: return Frames2.m61(c, p, new Nd(p, null));
    case 62: return Frames2.m62(c, p, new Nd(p, null));
    case 63: return Frames2.m63(c, p, new Nd(p, null));
    case 64: return Frames2.m64(c, p, new Nd(p, null));
    case 65: return Frames2.m65(c, p, new Nd(p, null));
    case 66: return Frames2.m66(c, p, new Nd(p, null));
    case 67: return Frames2.m67(c, p, new Nd(p, null));
    case 68: return Frames2.m68(c, p, new Nd(p, null));
    case 69: return Frames2.m69(c, p, new Nd(p, null));
    case 70: return Frames2.m70(c, p, new Nd(p, null));
    case 71: return Frames2.m71(c, p, new Nd(p, null));
    case 72: return Frames2.m72(c, p, new Nd(p, null));
    case 73: return Frames2.m73(c, p, new Nd(p, null));
    case 74: return Frames2.m74(c, p, new Nd(p, null));
    case 75: return Frames3.m75(c, p, new Nd(p, null));
    case 76: return Frames3.m76(c, p, new Nd(p, null));
    case 77: return Frames3.m77(c, p, new Nd(p, null));
    case 78: return Frames3.m78(c, p, new Nd(p, null));
    case 79: return Frames3.m79(c, p, new Nd(p, null));
    case 80: return Frames3.m80(c, p, new Nd(p, null));
    case 81: return Frames3.m81(c, p, new Nd(p, null));
    case 82: return Frames3.m82(c, p, new Nd(p, null));
    case 83: return Frames3.m83(c, p, new Nd(p, null));
    case 84: return Frames3.m84(c, p, new Nd(p, null));
    case 85: return Frames3.m85(c, p, new Nd(p, null));
    case 86: return Frames3.m86(c, p, new Nd(p, null));
    case 87: return Frames3.m87(c, p, new Nd(p, null));
    case 88: return Frames3.m88(c, p, new Nd(p, null));
    case 89: return Frames3.m89(c, p, new Nd(p, null));
    case 90: return Frames3.m90(c, p, new Nd(p, null));
    case 91: return Frames3.m91(c, p, new Nd(p, null));
    case 92: return Frames3.m92(c, p, new Nd(p, null));
    case 93: return Frames3.m93(c, p, new Nd(p, null));
    case 94: return Frames3.m94(c, p, new Nd(p, null));
    case 95: return Frames3.m95(c, p, new Nd(p, null));
    case 96: return Frames3.m96(c, p, new Nd(p, null));
    case 97: return Frames3.m97(c, p, new Nd(p, null));
    case 98: return Frames3.m98(c, p, new Nd(p, null));
    case 99: return Frames3.m99(c, p, new Nd(p, null));
    case 100: return Frames4.m100(c, p, new Nd(p, null));
    case 101: return Frames4.m101(c, p, new Nd(p, null));
    case 102: return Frames4.m102(c, p, new Nd(p, null));
    case 103: return Frames4.m103(c, p, new Nd(p, null));
    case 104: return Frames4.m104(c, p, new Nd(p, null));
    case 105: return Frames4.m105(c, p, new Nd(p, null));
    case 106: return Frames4.m106(c, p, new Nd(p, null));
    case 107: return Frames4.m107(c, p, new Nd(p, null));
    case 108: return Frames4.m108(c, p, new Nd(p, null));
    case 109: return Frames4.m109(c, p, new Nd(p, null));
    case 110: return Frames4.m110(c, p, new Nd(p, null));
    case 111: return Frames4.m111(c, p, new Nd(p, null));
    case 112: return Frames4.m112(c, p, new Nd(p, null));
    case 113: return Frames4.m113(c, p, new Nd(p, null));
    case 114: return Frames4.m114(c, p, new Nd(p, null));
    case 115: return Frames4.m115(c, p, new Nd(p, null));
    case 116: return Frames4.m116(c, p, new Nd(p, null));
    case 117: return Frames4.m117(c, p, new Nd(p, null));
    case 118: return Frames4.m118(c, p, new Nd(p, null));
    case 119: return Frames4.m119(c, p, new Nd(p, null));
    case 120: return Frames4.m120(c, p, new Nd(p, null));
    case 121: return Frames4.m121(c, p, new Nd(p, null));
    case 122: return Frames4.m122(c, p, new Nd(p, null));
    case 123: return Frames4.m123(c, p, new Nd(p, null));
    case 124: return Frames4.m124(c, p, new Nd(p, null));
    case 125: return Frames5.m125(c, p, new Nd(p, null));
    case 126: return Frames5.m126(c, p, new Nd(p, null));
    case 127: return Frames5.m127(c, p, new Nd(p, null));
    case 128: return Frames5.m128(c, p, new Nd(p, null));
    case 129: return Frames5.m129(c, p, new Nd(p, null));
    case 130: return Frames5.m130(c, p, new Nd(p, null));
    case 131: return Frames5.m131(c, p, new Nd(p, null));
    case 132: return Frames5.m132(c, p, new Nd(p, null));
    case 133: return Frames5.m133(c, p, new Nd(p, null));
    case 134: return Frames5.m134(c, p, new Nd(p, null));
    case 135: return Frames5.m135(c, p, new Nd(p, null));
    case 136: return Frames5.m136(c, p, new Nd(p, null));
    case 137: return Frames5.m137(c, p, new Nd(p, null));
    case 138: return Frames5.m138(c, p, new Nd(p, null));
    case 139: return Frames5.m139(c, p, new Nd(p, null));
    case 140: return Frames5.m140(c, p, new Nd(p, null));
    case 141: return Frames5.m141(c, p, new Nd(p, null));
    case 142: return Frames5.m142(c, p, new Nd(p, null));
    case 143: return Frames5.m143(c, p, new Nd(p, null));
    case 144: return Frames5.m144(c, p, new Nd(p, null));
    case 145: return Frames5.m145(c, p, new Nd(p, null));
    case 146: return Frames5.m146(c, p, new Nd(p, null));
    case 147: return Frames5.m147(c, p, new Nd(p, null));
    case 148: return Frames5.m148(c, p, new Nd(p, null));
    case 149: return Frames5.m149(c, p, new Nd(p, null));
    }
    throw new IllegalArgumentException();
  }
  public static final int COUNT = 150;

  /** on a reference VM: the expected results */
  public static void main(String[] a) {
    int params = Integer.parseInt(a[0]);
    StringBuilder sb = new StringBuilder();
    for (int m = 0; m < COUNT; ++m)
      for (int p = 0; p < params; ++p) sb.append(m).append(' ').append(p).append(' ').append(run(new Ctx(), m, p)).append('\n');
    System.out.print(sb);
  }
}

package w;
/* generated by tools/genlink.py */
interface J26 {
  long m0(double a0, double a1, char a2, int[] a3, int a4, Object a5);
  float m1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11);
  int[] m2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11);
  byte m3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11);
  void m4();
  default long d(int p) { return p + 13; }
}
interface F26_0 { long f(double a0, double a1, char a2, int[] a3, int a4, Object a5); }
interface F26_1 { float f(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11); }
interface F26_2 { int[] f(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11); }
interface F26_3 { byte f(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11); }
interface F26_4 { void f(); }
interface N26_0 { D26 f(double a0, double a1, char a2, int[] a3, int a4, Object a5); }
interface N26_1 { D26 f(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11); }
interface N26_2 { D26 f(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11); }
interface N26_3 { D26 f(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11); }
interface N26_4 { D26 f(); }
abstract class D26 {
  long base;
  public long m0(double a0, double a1, char a2, int[] a3, int a4, Object a5) throws RuntimeException { long r = 5; long acc; return r; }
  public abstract float m1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11);
  public abstract int[] m2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11);
  public byte m3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) throws RuntimeException { long r = 5; long acc; return (byte) r; }
  public void m4() throws RuntimeException { long r = 5; long acc; acc = r; }
}
class S26_0 extends D26 implements J26 {
  volatile char f0 = (char) (3 * 13240 - 5);
  int[] f1 = null;
  public float f2 = 3 * 160.25f;
  volatile byte f3 = (byte) (3 * 147);
  public String f4 = "lit191";
  static char s0 = (char) (3 * 35748 - 5);
  static int[] s1 = new int[] {3, 114};
  static volatile float s2 = 3 * 92.25f;
  static long acc;
  S26_0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 85;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public long m0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 31;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 83;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public float m1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static float t1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public int[] m2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 20;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return new int[] {(int) r, 4};
  }
  static synchronized int[] t2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return new int[] {(int) r, 4};
  }
  public byte m3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 19;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (byte) r;
  }
  static byte t3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 41;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (byte) r;
  }
  synchronized public void m4() {
    long r = 27;
    r += base;
    G26.acc = r;
  }
  static synchronized void t4() {
    long r = 99;
    G26.acc = r;
  }
  static long fields(int p) {
    S26_0 o = new S26_0(p / 165.0, p / 189.0, (char) (p * 55608 - 5), new int[] {p, 157}, p * 5499505, null);
    long r = 1;
    o.f0 = (char) (p * 45016 - 5);
    r = r * 31 + L.v(o.f0);
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.set(o, "f2", new Object[] {p * 13.25f}[0]);
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.v(s0) + L.get(S26_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S26_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S26_0.class, "s2");
    return r;
  }
}
class S26_1 extends D26 implements J26 {
  public double f0 = 3 / 98.0;
  public String f1 = "a" + 3;
  volatile float f2 = 3 * 185.25f;
  volatile short f3 = (short) (3 * 5335);
  public boolean f4 = (3 & 1) == 0;
  static volatile double s0 = 3 / 3.0;
  static String s1 = null;
  static volatile float s2 = 3 * 27.25f;
  static long acc;
  S26_1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 17;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public long m0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 45;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return r;
  }
  static private long t0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 96;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return r;
  }
  public float m1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 36;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static float t1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 83;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  public int[] m2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 59;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return new int[] {(int) r, 4};
  }
  static private int[] t2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 38;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return new int[] {(int) r, 4};
  }
  synchronized public byte m3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (byte) r;
  }
  static synchronized byte t3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 84;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (byte) r;
  }
  public void m4() {
    long r = 1;
    r += base;
    G26.acc = r;
  }
  static synchronized void t4() {
    long r = 22;
    G26.acc = r;
  }
  static long fields(int p) {
    S26_1 o = new S26_1((p & 1) == 0, p / 1.0, (char) (p * 29459 - 5), new int[] {p, 198}, new int[] {p, 145}, (p & 3) == 0, (p & 2) == 0, p * 1.25f, new int[] {p, 152}, p * 2899739, (p & 2) == 0, (char) (p * 47995 - 5));
    long r = 1;
    o.f1 = null;
    r = r * 31 + L.v(o.f1);
    o.f4 = (p & 2) == 0;
    r = r * 31 + L.v(o.f4);
    r = r * 31 + L.set(o, "f1", "lit21");
    r = r * 31 + L.set(o, "f0", new Object[] {p / 83.0}[0]);
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.v(s0) + L.get(S26_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S26_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S26_1.class, "s2");
    return r;
  }
}
class S26_2 extends D26 implements J26 {
  public int[] f0 = new int[] {3, 32};
  volatile char f1 = (char) (3 * 10923 - 5);
  public int f2 = 3 * 8899199;
  float f3 = 3 * 86.25f;
  volatile byte f4 = (byte) (3 * 69);
  static volatile int[] s0 = null;
  static volatile char s1 = (char) (3 * 31114 - 5);
  static int s2 = 3 * 14798668;
  static long acc;
  S26_2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 65;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
  }
  synchronized public long m0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 24;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public float m1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 31;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static private float t1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public int[] m2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 71;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return new int[] {(int) r, 4};
  }
  static int[] t2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 67;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return new int[] {(int) r, 4};
  }
  public byte m3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 67;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (byte) r;
  }
  static private byte t3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (byte) r;
  }
  public void m4() {
    long r = 73;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    G26.acc = r;
  }
  static private void t4() {
    long r = 71;
    if ((r & 15) == 5) throw new L.Odd(r);
    G26.acc = r;
  }
  static long fields(int p) {
    S26_2 o = new S26_2("o" + p, null, null, p * 73.25f, null, p * 16198542, (p & 2) == 0, p * 3400000000L, (p & 1) == 0, p * 2499775, (char) (p * 58587 - 5), p / 1.0);
    long r = 1;
    r = r * 31 + L.get(o, "f4");
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.get(o, "f4");
    o.f4 += 3;
    r += L.v(o.f4++);
    o.f2 = p * 16698497;
    r = r * 31 + L.v(o.f2);
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.set(o, "f2", new Object[] {p * 2699757}[0]);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.v(s0) + L.get(S26_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S26_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S26_2.class, "s2");
    return r;
  }
}
class S26_3 extends D26 implements J26 {
  public int f0 = 3 * 10099091;
  public long f1 = 3 * 1700000000L;
  volatile Object f2 = "o" + 3;
  public float f3 = 3 * 111.25f;
  volatile char f4 = (char) (3 * 29459 - 5);
  static int s0 = 3 * 19398254;
  static volatile long s1 = 3 * 9100000000L;
  static volatile Object s2 = (Object) Integer.valueOf(3);
  static long acc;
  S26_3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 63;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
  }
  public long m0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 95;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return r;
  }
  static long t0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 32;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return r;
  }
  public float m1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 28;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static float t1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  public int[] m2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 34;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return new int[] {(int) r, 4};
  }
  static private int[] t2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return new int[] {(int) r, 4};
  }
  public byte m3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 37;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (byte) r;
  }
  static byte t3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (byte) r;
  }
  public void m4() {
    long r = 33;
    r += base;
    G26.acc = r;
  }
  static private void t4() {
    long r = 53;
    G26.acc = r;
  }
  static long fields(int p) {
    S26_3 o = new S26_3(p / 20.0, (char) (p * 61566 - 5), "o" + p, (char) (p * 7282 - 5), "lit8", (short) (p * 19303), (Object) Integer.valueOf(p), null, (byte) (p * 19), (char) (p * 26480 - 5), p / 182.0, (short) (p * 3783));
    long r = 1;
    r = r * 31 + L.set(o, "f3", new Object[] {p * 52.25f}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f3", new Object[] {p * 98.25f}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f4");
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S26_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S26_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S26_3.class, "s2");
    return r;
  }
}
class S26_4 extends D26 implements J26 {
  public long f0 = 3 * 5900000000L;
  volatile boolean f1 = (3 & 3) == 0;
  public byte f2 = (byte) (3 * 141);
  volatile short f3 = (short) (3 * 7566);
  volatile int f4 = 3 * 7999280;
  static long s0 = 3 * 17000000000L;
  static boolean s1 = (3 & 2) == 0;
  static volatile byte s2 = (byte) (3 * 61);
  static long acc;
  S26_4() {
    long r = 22;
    base = r;
  }
  public long m0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 71;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return r;
  }
  static synchronized long t0(double a0, double a1, char a2, int[] a3, int a4, Object a5) {
    long r = 4;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return r;
  }
  public float m1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 30;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t1(boolean a0, double a1, char a2, int[] a3, int[] a4, boolean a5, boolean a6, float a7, int[] a8, int a9, boolean a10, char a11) {
    long r = 95;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (float) (r & 0xfffff) / 8;
  }
  public int[] m2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 93;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return new int[] {(int) r, 4};
  }
  static synchronized int[] t2(Object a0, String a1, String a2, float a3, int[] a4, int a5, boolean a6, long a7, boolean a8, int a9, char a10, double a11) {
    long r = 33;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return new int[] {(int) r, 4};
  }
  public byte m3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (byte) r;
  }
  static byte t3(double a0, char a1, Object a2, char a3, String a4, short a5, Object a6, String a7, byte a8, char a9, double a10, short a11) {
    long r = 79;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (byte) r;
  }
  synchronized public void m4() {
    long r = 64;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    G26.acc = r;
  }
  static void t4() {
    long r = 59;
    if ((r & 15) == 5) throw new L.Odd(r);
    G26.acc = r;
  }
  static long fields(int p) {
    S26_4 o = new S26_4();
    long r = 1;
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    o.f1 = (p & 2) == 0;
    r = r * 31 + L.v(o.f1);
    o.f2 = (byte) (p * 132);
    r = r * 31 + L.v(o.f2);
    o.f2 += 3;
    r += L.v(o.f2++);
    o.f4 = p * 6599406;
    r = r * 31 + L.v(o.f4);
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S26_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S26_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S26_4.class, "s2");
    return r;
  }
}
public class G26 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      L.Gn<int[], int[]> f = int[]::clone;
      r = r * 31 + L.v(f.f(new int[] {p, 10}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N26_0 f = S26_0::new;
      r = r * 31 + f.f(p / 78.0, p / 84.0, (char) (p * 2979 - 5), null, p * 18498335, "o" + p).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      java.util.Comparator<String> f = String::compareTo;
      r = r * 31 + f.compare("a" + p, "a29");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final int c0 = p * 7099361;
      final double c1 = p / 137.0;
      F26_4 f = () -> { long r0 = p + L.v(c0) + L.v(c1); long r1 = r0; G26.acc = r1; };
      f.f();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F26_0 f = S26_0::t0;
      r = r * 31 + L.v(f.f(p / 135.0, p / 16.0, (char) (p * 9930 - 5), new int[] {p, 49}, p * 18798308, null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.v(((D26) new S26_1((p & 2) == 0, p / 186.0, (char) (p * 41706 - 5), null, null, (p & 3) == 0, (p & 1) == 0, p * 176.25f, null, p * 5299523, (p & 2) == 0, (char) (p * 55939 - 5))).m3(p / 28.0, (char) (p * 54946 - 5), null, (char) (p * 8937 - 5), "a" + p, (short) (p * 12901), null, null, (byte) (p * 67), (char) (p * 46009 - 5), p / 136.0, (short) (p * 5335)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D26) new S26_2(null, "a" + p, null, p * 37.25f, new int[] {p, 118}, p * 10799028, (p & 3) == 0, p * 5000000000L, (p & 1) == 0, p * 14498695, (char) (p * 38065 - 5), p / 140.0)).m2("o" + p, "a" + p, "a" + p, p * 199.25f, new int[] {p, 148}, p * 2899739, (p & 3) == 0, p * 700000000L, (p & 1) == 0, p * 8099271, (char) (p * 31114 - 5), p / 22.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S26_4(), "m2", (Object) ("o" + p), (Object) ("a" + p), (Object) (null), (Object) (p * 183.25f), (Object) (null), (Object) (p * 6899379), (Object) ((p & 3) == 0), (Object) (p * 16600000000L), (Object) ((p & 2) == 0), (Object) (p * 7299343), (Object) ((char) (p * 22508 - 5)), (Object) (p / 89.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, Integer> f = Integer::parseInt;
      r = r * 31 + f.f("" + p * 17);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + ((J26) new S26_2(null, "a" + p, "lit76", p * 171.25f, null, p * 10699037, (p & 3) == 0, p * 7600000000L, (p & 1) == 0, p * 9099181, (char) (p * 41706 - 5), p / 160.0)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S26_4.class, "t4");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.make(S26_0.class, (Object) (p / 45.0), (Object) (p / 88.0), (Object) ((char) (p * 37072 - 5)), (Object) (null), (Object) (p * 99991), (Object) (null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S26_4.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N26_0 f = S26_0::new;
      r = r * 31 + f.f(p / 193.0, p / 29.0, (char) (p * 39058 - 5), new int[] {p, 3}, p * 8099271, null).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r = r * 31 + L.v(new S26_4().m1((p & 3) == 0, p / 177.0, (char) (p * 331 - 5), null, new int[] {p, 184}, (p & 2) == 0, (p & 1) == 0, p * 117.25f, new int[] {p, 30}, p * 17398434, (p & 2) == 0, (char) (p * 17874 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J26) L.full(J26.class)).m2("o" + p, "a" + p, null, p * 142.25f, null, p * 1999820, (p & 1) == 0, p * 1600000000L, (p & 1) == 0, p * 7699307, (char) (p * 42037 - 5), p / 113.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J26) L.full(J26.class)).m0(p / 174.0, p / 102.0, (char) (p * 12247 - 5), null, p * 16798488, (Object) Integer.valueOf(p)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      F26_2 f = S26_2::t2;
      r = r * 31 + L.v(f.f(null, "lit101", null, p * 75.25f, new int[] {p, 111}, p * 7099361, (p & 1) == 0, p * 7900000000L, (p & 3) == 0, p * 13698767, (char) (p * 46009 - 5), p / 60.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F26_2 f = new S26_2(null, "a" + p, "a" + p, p * 36.25f, null, p * 15598596, (p & 2) == 0, p * 11000000000L, (p & 3) == 0, p * 12698857, (char) (p * 37734 - 5), p / 193.0)::m2;
      r = r * 31 + L.v(f.f(null, null, null, p * 100.25f, new int[] {p, 78}, p * 17598416, (p & 2) == 0, p * 14500000000L, (p & 2) == 0, p * 16298533, (char) (p * 31776 - 5), p / 43.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S26_2.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<java.util.List<Integer>, Integer> f = x -> x.get(0);
      r = r * 31 + f.f(java.util.Collections.singletonList(p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      L.Gn<Object, Long> f = x -> { switch (x.hashCode() & 1) { case 0: return 5L; default: return (long) 6; } };
      r = r * 31 + f.f("q" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J26) new S26_0(p / 45.0, p / 47.0, (char) (p * 6620 - 5), new int[] {p, 4}, p * 14898659, (Object) Integer.valueOf(p))).m2("o" + p, "lit19", "lit116", p * 181.25f, null, p * 19698227, (p & 3) == 0, p * 5700000000L, (p & 1) == 0, p * 11598956, (char) (p * 28797 - 5), p / 158.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final Object c0 = null;
      final float c1 = p * 114.25f;
      final float c2 = p * 69.25f;
      F26_2 f = (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6) - L.v(x7) - L.v(x8) - L.v(x9) - L.v(x10) - L.v(x11); long r1 = r0; return new int[] {(int) r1, 4}; };
      r = r * 31 + L.v(f.f(null, null, "lit129", p * 11.25f, new int[] {p, 135}, p * 9999100, (p & 1) == 0, p * 18400000000L, (p & 1) == 0, p * 2399784, (char) (p * 35086 - 5), p / 54.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J26) new S26_3(p / 165.0, (char) (p * 30121 - 5), "o" + p, (char) (p * 40713 - 5), "lit187", (short) (p * 16393), null, null, (byte) (p * 51), (char) (p * 32769 - 5), p / 47.0, (short) (p * 679))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<int[], int[]> f = int[]::clone;
      r = r * 31 + L.v(f.f(new int[] {p, 32}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F26_2 f = new S26_2((Object) Integer.valueOf(p), "lit33", "a" + p, p * 49.25f, null, p * 11298983, (p & 3) == 0, p * 8400000000L, (p & 1) == 0, p * 18498335, (char) (p * 49319 - 5), p / 36.0)::m2;
      r = r * 31 + L.v(f.f("o" + p, "lit37", "a" + p, p * 156.25f, null, p * 11398974, (p & 2) == 0, p * 16400000000L, (p & 3) == 0, p * 3899649, (char) (p * 29459 - 5), p / 61.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + L.v(((J26) new S26_3(p / 183.0, (char) (p * 61897 - 5), null, (char) (p * 41375 - 5), "lit124", (short) (p * 16975), null, "a" + p, (byte) (p * 81), (char) (p * 25156 - 5), p / 140.0, (short) (p * 16975))).m0(p / 198.0, p / 6.0, (char) (p * 65869 - 5), null, p * 16298533, "o" + p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, Integer> f = Integer::parseInt;
      r = r * 31 + f.f("" + p * 23);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F26_3 f = new S26_0(p / 72.0, p / 49.0, (char) (p * 64214 - 5), null, p * 15598596, null)::m3;
      r = r * 31 + L.v(f.f(p / 85.0, (char) (p * 1986 - 5), "o" + p, (char) (p * 51967 - 5), "a" + p, (short) (p * 11252), (Object) Integer.valueOf(p), null, (byte) (p * 145), (char) (p * 19529 - 5), p / 27.0, (short) (p * 15714)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      r = r * 31 + ((J26) new S26_2((Object) Integer.valueOf(p), null, "lit173", p * 80.25f, new int[] {p, 8}, p * 10399064, (p & 1) == 0, p * 900000000L, (p & 1) == 0, p * 13498785, (char) (p * 17543 - 5), p / 20.0)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.make(S26_0.class, (Object) (p / 57.0), (Object) (p / 2.0), (Object) ((char) (p * 46009 - 5)), (Object) (null), (Object) (p * 5999460), (Object) ((Object) Integer.valueOf(p)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N26_3 f = S26_3::new;
      r = r * 31 + f.f(p / 163.0, (char) (p * 20853 - 5), null, (char) (p * 39720 - 5), "a" + p, (short) (p * 13386), null, "lit132", (byte) (p * 63), (char) (p * 51305 - 5), p / 43.0, (short) (p * 18430)).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

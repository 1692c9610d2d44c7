package w;
/* generated by tools/genlink.py */
interface J39 {
  short m0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11);
  boolean m1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6);
  int m2(boolean a0, float a1, char a2, long a3, long a4, short a5);
  int[] m3(char a0, boolean a1, long a2);
  double m4();
  default long d(int p) { return p + 38; }
}
interface F39_0 { short f(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11); }
interface F39_1 { boolean f(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6); }
interface F39_2 { int f(boolean a0, float a1, char a2, long a3, long a4, short a5); }
interface F39_3 { int[] f(char a0, boolean a1, long a2); }
interface F39_4 { double f(); }
interface N39_0 { D39 f(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11); }
interface N39_1 { D39 f(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6); }
interface N39_2 { D39 f(boolean a0, float a1, char a2, long a3, long a4, short a5); }
interface N39_3 { D39 f(char a0, boolean a1, long a2); }
interface N39_4 { D39 f(); }
abstract class D39 {
  long base;
  public abstract short m0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11);
  public abstract boolean m1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6);
  public abstract int m2(boolean a0, float a1, char a2, long a3, long a4, short a5);
  public abstract int[] m3(char a0, boolean a1, long a2);
  public double m4() throws RuntimeException { long r = 5; long acc; return (double) (r & 0xfffffffffL) / 16; }
}
class S39_0 extends D39 implements J39 {
  public double f0 = 3 / 126.0;
  volatile boolean f1 = (3 & 2) == 0;
  short f2 = (short) (3 * 9409);
  volatile int f3 = 3 * 18798308;
  long f4 = 3 * 14200000000L;
  static double s0 = 3 / 20.0;
  static boolean s1 = (3 & 1) == 0;
  static short s2 = (short) (3 * 7954);
  static long acc;
  S39_0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 43;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
  }
  public short m0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 64;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (short) r;
  }
  static short t0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 31;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (short) r;
  }
  public boolean m1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 3;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 4) == 0;
  }
  static synchronized boolean t1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 10;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 4) == 0;
  }
  public int m2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static synchronized int t2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 81;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (int) (r ^ r >>> 32);
  }
  public int[] m3(char a0, boolean a1, long a2) {
    long r = 7;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return new int[] {(int) r, 4};
  }
  static private int[] t3(char a0, boolean a1, long a2) {
    long r = 45;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return new int[] {(int) r, 4};
  }
  synchronized public double m4() {
    long r = 40;
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t4() {
    long r = 91;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S39_0 o = new S39_0(p * 13398794, (p & 2) == 0, (char) (p * 60904 - 5), (char) (p * 39389 - 5), (short) (p * 16296), (char) (p * 22177 - 5), p * 134.25f, (short) (p * 16587), (short) (p * 3298), (short) (p * 13580), (byte) (p * 177), p / 133.0);
    long r = 1;
    o.f3 = p * 3999640;
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f3", new Object[] {p * 19198272}[0]);
    o.f3 += 3;
    r += L.v(o.f3++);
    o.f4 = p * 12800000000L;
    r = r * 31 + L.v(o.f4);
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f2", new Object[] {(short) (p * 18624)}[0]);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.v(s0) + L.get(S39_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S39_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S39_0.class, "s2");
    return r;
  }
}
class S39_1 extends D39 implements J39 {
  Object f0 = null;
  boolean f1 = (3 & 1) == 0;
  volatile long f2 = 3 * 17500000000L;
  public byte f3 = (byte) (3 * 63);
  public short f4 = (short) (3 * 7372);
  static volatile Object s0 = null;
  static volatile boolean s1 = (3 & 1) == 0;
  static volatile long s2 = 3 * 8800000000L;
  static long acc;
  S39_1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 27;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    base = r;
  }
  public short m0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 77;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (short) r;
  }
  static short t0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 77;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (short) r;
  }
  synchronized public boolean m1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 18;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 50;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 4) == 0;
  }
  public int m2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 42;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (int) (r ^ r >>> 32);
  }
  static private int t2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 96;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (int) (r ^ r >>> 32);
  }
  public int[] m3(char a0, boolean a1, long a2) {
    long r = 27;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return new int[] {(int) r, 4};
  }
  static private int[] t3(char a0, boolean a1, long a2) {
    long r = 22;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return new int[] {(int) r, 4};
  }
  public double m4() {
    long r = 3;
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static private double t4() {
    long r = 7;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S39_1 o = new S39_1(null, (char) (p * 36410 - 5), p * 8399244, p * 10400000000L, (char) (p * 39058 - 5), new int[] {p, 22}, p / 48.0);
    long r = 1;
    o.f1 = (p & 3) == 0;
    r = r * 31 + L.v(o.f1);
    r = r * 31 + L.set(o, "f1", new Object[] {(p & 1) == 0}[0]);
    r = r * 31 + L.get(o, "f4");
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f2", new Object[] {p * 8300000000L}[0]);
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.v(s0) + L.get(S39_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S39_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S39_1.class, "s2");
    return r;
  }
}
class S39_2 extends D39 implements J39 {
  public char f0 = (char) (3 * 53953 - 5);
  volatile int[] f1 = new int[] {3, 191};
  public String f2 = null;
  public byte f3 = (byte) (3 * 94);
  Object f4 = null;
  static char s0 = (char) (3 * 16219 - 5);
  static volatile int[] s1 = new int[] {3, 199};
  static volatile String s2 = null;
  static long acc;
  S39_2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 73;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    base = r;
  }
  public short m0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 49;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (short) r;
  }
  static synchronized short t0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (short) r;
  }
  public boolean m1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 34;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  static synchronized boolean t1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  public int m2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 93;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static int t2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 35;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (int) (r ^ r >>> 32);
  }
  synchronized public int[] m3(char a0, boolean a1, long a2) {
    long r = 9;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return new int[] {(int) r, 4};
  }
  static private int[] t3(char a0, boolean a1, long a2) {
    long r = 45;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return new int[] {(int) r, 4};
  }
  synchronized public double m4() {
    long r = 81;
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static synchronized double t4() {
    long r = 18;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S39_2 o = new S39_2((p & 3) == 0, p * 179.25f, (char) (p * 59249 - 5), p * 800000000L, p * 13200000000L, (short) (p * 7081));
    long r = 1;
    o.f2 = "lit14";
    r = r * 31 + L.v(o.f2);
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.set(o, "f1", null);
    r = r * 31 + L.get(o, "f2");
    r = r * 31 + L.v(s0) + L.get(S39_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S39_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S39_2.class, "s2");
    return r;
  }
}
class S39_3 extends D39 implements J39 {
  public char f0 = (char) (3 * 39389 - 5);
  volatile String f1 = "lit181";
  volatile short f2 = (short) (3 * 19206);
  public long f3 = 3 * 5000000000L;
  float f4 = 3 * 39.25f;
  static volatile char s0 = (char) (3 * 4634 - 5);
  static String s1 = "a" + 3;
  static volatile short s2 = (short) (3 * 5723);
  static long acc;
  S39_3(char a0, boolean a1, long a2) {
    long r = 39;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public short m0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (short) r;
  }
  static synchronized short t0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (short) r;
  }
  public boolean m1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 80;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 4) == 0;
  }
  public int m2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 49;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static private int t2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 4;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (int) (r ^ r >>> 32);
  }
  public int[] m3(char a0, boolean a1, long a2) {
    long r = 55;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return new int[] {(int) r, 4};
  }
  static int[] t3(char a0, boolean a1, long a2) {
    long r = 40;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return new int[] {(int) r, 4};
  }
  synchronized public double m4() {
    long r = 85;
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t4() {
    long r = 56;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S39_3 o = new S39_3((char) (p * 28797 - 5), (p & 2) == 0, p * 3800000000L);
    long r = 1;
    r = r * 31 + L.get(o, "f2");
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f1");
    o.f2 = (short) (p * 11446);
    r = r * 31 + L.v(o.f2);
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f0");
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.v(s0) + L.get(S39_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S39_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S39_3.class, "s2");
    return r;
  }
}
class S39_4 extends D39 implements J39 {
  short f0 = (short) (3 * 13580);
  volatile int[] f1 = null;
  boolean f2 = (3 & 1) == 0;
  public long f3 = 3 * 4000000000L;
  public char f4 = (char) (3 * 6289 - 5);
  static short s0 = (short) (3 * 5626);
  static int[] s1 = null;
  static boolean s2 = (3 & 3) == 0;
  static long acc;
  S39_4() {
    long r = 44;
    base = r;
  }
  public short m0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  static synchronized short t0(int a0, boolean a1, char a2, char a3, short a4, char a5, float a6, short a7, short a8, short a9, byte a10, double a11) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  synchronized public boolean m1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 38;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 4) == 0;
  }
  static synchronized boolean t1(Object a0, char a1, int a2, long a3, char a4, int[] a5, double a6) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 4) == 0;
  }
  public int m2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 3;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (int) (r ^ r >>> 32);
  }
  static int t2(boolean a0, float a1, char a2, long a3, long a4, short a5) {
    long r = 21;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (int) (r ^ r >>> 32);
  }
  public int[] m3(char a0, boolean a1, long a2) {
    long r = 69;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return new int[] {(int) r, 4};
  }
  static private int[] t3(char a0, boolean a1, long a2) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return new int[] {(int) r, 4};
  }
  public double m4() {
    long r = 70;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t4() {
    long r = 3;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S39_4 o = new S39_4();
    long r = 1;
    r = r * 31 + L.set(o, "f1", null);
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.get(o, "f2");
    r = r * 31 + L.set(o, "f2", new Object[] {(p & 2) == 0}[0]);
    r = r * 31 + L.v(s0) + L.get(S39_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S39_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S39_4.class, "s2");
    return r;
  }
}
public class G39 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + L.v(((J39) new S39_1((Object) Integer.valueOf(p), (char) (p * 25156 - 5), p * 499955, p * 14600000000L, (char) (p * 49319 - 5), new int[] {p, 67}, p / 175.0)).m0(p * 10699037, (p & 1) == 0, (char) (p * 39058 - 5), (char) (p * 12578 - 5), (short) (p * 1940), (char) (p * 38065 - 5), p * 35.25f, (short) (p * 12125), (short) (p * 18236), (short) (p * 4559), (byte) (p * 158), p / 156.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      java.util.Comparator<String> f = String::compareTo;
      r = r * 31 + f.compare("a" + p, "a8");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.IntL f = L::bump;
      r = r * 31 + f.f(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S39_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final Object c0 = null;
      final long c1 = p * 14100000000L;
      final char c2 = (char) (p * 34093 - 5);
      F39_4 f = () -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2); long r1 = r0; return (double) (r1 & 0xfffffffffL) / 16; };
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.call(S39_3.class, "t3", (Object) ((char) (p * 58918 - 5)), (Object) ((p & 3) == 0), (Object) (p * 12100000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J39) new S39_2((p & 2) == 0, p * 177.25f, (char) (p * 8275 - 5), p * 18900000000L, p * 3400000000L, (short) (p * 6887))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S39_4.t4());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N39_4 f = S39_4::new;
      r = r * 31 + f.f().base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J39) L.full(J39.class)).m2((p & 3) == 0, p * 198.25f, (char) (p * 50643 - 5), p * 14900000000L, p * 19500000000L, (short) (p * 9797)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      java.util.List<Integer> l = new java.util.ArrayList<Integer>();
      l.add(p);
      L.ToL<Integer> f = l::get;
      r = r * 31 + f.f(0);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      L.Gn<Integer, L.Gn<Integer, Integer>> f = x -> y -> x - y * 9;
      r = r * 31 + f.f(p).f(p + 3);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D39) new S39_3((char) (p * 45347 - 5), (p & 2) == 0, p * 19600000000L)).m1((Object) Integer.valueOf(p), (char) (p * 28135 - 5), p * 17698407, p * 4800000000L, (char) (p * 32438 - 5), null, p / 151.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F39_2 f = new S39_1("o" + p, (char) (p * 15557 - 5), p * 7899289, p * 17400000000L, (char) (p * 10923 - 5), null, p / 9.0)::m2;
      r = r * 31 + L.v(f.f((p & 1) == 0, p * 131.25f, (char) (p * 6289 - 5), p * 8400000000L, p * 17100000000L, (short) (p * 9118)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J39) L.full(J39.class)).m2((p & 3) == 0, p * 4.25f, (char) (p * 28135 - 5), p * 11400000000L, p * 18200000000L, (short) (p * 14356)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D39) new S39_3((char) (p * 37072 - 5), (p & 1) == 0, p * 19600000000L)).m3((char) (p * 35748 - 5), (p & 2) == 0, p * 11200000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      L.ToD<Float> f = L::dbl;
      r = r * 31 + L.v(f.f(p / 3f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S39_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S39_2.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J39) new S39_3((char) (p * 16550 - 5), (p & 3) == 0, p * 14000000000L)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F39_0 f = new S39_4()::m0;
      r = r * 31 + L.v(f.f(p * 6299433, (p & 3) == 0, (char) (p * 20191 - 5), (char) (p * 47664 - 5), (short) (p * 16199), (char) (p * 56270 - 5), p * 19.25f, (short) (p * 9506), (short) (p * 388), (short) (p * 970), (byte) (p * 83), p / 158.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      java.util.Comparator<String> f = String::compareTo;
      r = r * 31 + f.compare("a" + p, "a35");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J39) new S39_4()).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S39_3.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J39) L.full(J39.class)).m3((char) (p * 45678 - 5), (p & 1) == 0, p * 2800000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S39_1((Object) Integer.valueOf(p), (char) (p * 25487 - 5), p * 2399784, p * 700000000L, (char) (p * 38727 - 5), null, p / 4.0), "m4");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.call(S39_0.class, "t0", (Object) (p * 199982), (Object) ((p & 3) == 0), (Object) ((char) (p * 34424 - 5)), (Object) ((char) (p * 8606 - 5)), (Object) ((short) (p * 12028)), (Object) ((char) (p * 57594 - 5)), (Object) (p * 105.25f), (Object) ((short) (p * 17945)), (Object) ((short) (p * 14259)), (Object) ((short) (p * 7566)), (Object) ((byte) (p * 153)), (Object) (p / 18.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F39_1 f = S39_1::t1;
      r = r * 31 + L.v(f.f(null, (char) (p * 7613 - 5), p * 14898659, p * 200000000L, (char) (p * 15226 - 5), new int[] {p, 10}, p / 196.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N39_4 f = S39_4::new;
      r = r * 31 + f.f().base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + L.make(S39_0.class, (Object) (p * 1799838), (Object) ((p & 2) == 0), (Object) ((char) (p * 63552 - 5)), (Object) ((char) (p * 13902 - 5)), (Object) ((short) (p * 19109)), (Object) ((char) (p * 63221 - 5)), (Object) (p * 48.25f), (Object) ((short) (p * 10379)), (Object) ((short) (p * 9797)), (Object) ((short) (p * 12222)), (Object) ((byte) (p * 190)), (Object) (p / 48.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J39) new S39_1((Object) Integer.valueOf(p), (char) (p * 28797 - 5), p * 15498605, p * 17300000000L, (char) (p * 17874 - 5), null, p / 31.0)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N39_0 f = S39_0::new;
      r = r * 31 + f.f(p * 15598596, (p & 1) == 0, (char) (p * 5627 - 5), (char) (p * 38727 - 5), (short) (p * 16005), (char) (p * 7282 - 5), p * 84.25f, (short) (p * 3783), (short) (p * 18721), (short) (p * 1067), (byte) (p * 65), p / 92.0).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final int c0 = p * 17998380;
      final short c1 = (short) (p * 15811);
      final float c2 = p * 159.25f;
      final short c3 = (short) (p * 13095);
      F39_1 f = (x0, x1, x2, x3, x4, x5, x6) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) + L.v(c3) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6); long r1 = r0; return (r1 & 4) == 0; };
      r = r * 31 + L.v(f.f((Object) Integer.valueOf(p), (char) (p * 62559 - 5), p * 17798398, p * 800000000L, (char) (p * 65207 - 5), null, p / 9.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.ToL<Short> f = x -> x;
      r = r * 31 + f.f((short) (p * -33));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J39) new S39_2((p & 3) == 0, p * 72.25f, (char) (p * 48988 - 5), p * 9000000000L, p * 13600000000L, (short) (p * 7469))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      final Object c0 = (Object) Integer.valueOf(p);
      final long c1 = p * 100000000L;
      final char c2 = (char) (p * 37734 - 5);
      F39_4 f = () -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2); long r1 = r0; return (double) (r1 & 0xfffffffffL) / 16; };
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N39_4 f = S39_4::new;
      r = r * 31 + f.f().base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J39) new S39_0(p * 18698317, (p & 1) == 0, (char) (p * 8275 - 5), (char) (p * 18536 - 5), (short) (p * 4753), (char) (p * 36741 - 5), p * 155.25f, (short) (p * 3880), (short) (p * 7469), (short) (p * 4074), (byte) (p * 93), p / 140.0)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.ToD<Character> f = L::dbl;
      r = r * 31 + L.v(f.f((char) (p + 70)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

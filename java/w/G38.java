package w;
/* generated by tools/genlink.py */
interface J38 {
  double m0();
  int[] m1();
  float m2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6);
  float m3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11);
  char m4();
  default long d(int p) { return p + 50; }
}
interface F38_0 { double f(); }
interface F38_1 { int[] f(); }
interface F38_2 { float f(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6); }
interface F38_3 { float f(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11); }
interface F38_4 { char f(); }
interface N38_0 { D38 f(); }
interface N38_1 { D38 f(); }
interface N38_2 { D38 f(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6); }
interface N38_3 { D38 f(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11); }
interface N38_4 { D38 f(); }
abstract class D38 {
  long base;
  public double m0() throws RuntimeException { long r = 5; long acc; return (double) (r & 0xfffffffffL) / 16; }
  public abstract int[] m1();
  public abstract float m2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6);
  public abstract float m3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11);
  public abstract char m4();
}
class S38_0 extends D38 implements J38 {
  volatile double f0 = 3 / 155.0;
  volatile byte f1 = (byte) (3 * 128);
  volatile short f2 = (short) (3 * 1261);
  String f3 = "lit38";
  volatile long f4 = 3 * 2200000000L;
  static double s0 = 3 / 122.0;
  static byte s1 = (byte) (3 * 144);
  static volatile short s2 = (short) (3 * 1843);
  static long acc;
  S38_0() {
    long r = 4;
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public double m0() {
    long r = 43;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t0() {
    long r = 84;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  synchronized public int[] m1() {
    long r = 2;
    r += base;
    return new int[] {(int) r, 4};
  }
  static synchronized int[] t1() {
    long r = 12;
    return new int[] {(int) r, 4};
  }
  public float m2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 83;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static float t2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 78;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public float m3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 87;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 44;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  public char m4() {
    long r = 28;
    r += base;
    return (char) r;
  }
  static private char t4() {
    long r = 14;
    return (char) r;
  }
  static long fields(int p) {
    S38_0 o = new S38_0();
    long r = 1;
    o.f3 = "lit12";
    r = r * 31 + L.v(o.f3);
    r = r * 31 + L.get(o, "f3");
    o.f2 = (short) (p * 16393);
    r = r * 31 + L.v(o.f2);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f4");
    o.f4 += p;
    r += L.v(o.f4++);
    o.f3 = "lit89";
    r = r * 31 + L.v(o.f3);
    r = r * 31 + L.v(s0) + L.get(S38_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S38_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S38_0.class, "s2");
    return r;
  }
}
class S38_1 extends D38 implements J38 {
  volatile int f0 = 3 * 10399064;
  short f1 = (short) (3 * 776);
  volatile int[] f2 = null;
  public Object f3 = null;
  public char f4 = (char) (3 * 19860 - 5);
  static volatile int s0 = 3 * 10699037;
  static short s1 = (short) (3 * 11446);
  static int[] s2 = null;
  static long acc;
  S38_1() {
    long r = 68;
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public double m0() {
    long r = 31;
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static synchronized double t0() {
    long r = 56;
    return (double) (r & 0xfffffffffL) / 16;
  }
  public int[] m1() {
    long r = 31;
    r += base;
    return new int[] {(int) r, 4};
  }
  static int[] t1() {
    long r = 17;
    return new int[] {(int) r, 4};
  }
  public float m2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static private float t2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 33;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (float) (r & 0xfffff) / 8;
  }
  public float m3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 28;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static private float t3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 68;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (float) (r & 0xfffff) / 8;
  }
  public char m4() {
    long r = 10;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static private char t4() {
    long r = 62;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static long fields(int p) {
    S38_1 o = new S38_1();
    long r = 1;
    r = r * 31 + L.get(o, "f0");
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.set(o, "f0", new Object[] {p * 2099811}[0]);
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.get(o, "f1");
    o.f1 += 3;
    r += L.v(o.f1++);
    o.f3 = "o" + p;
    r = r * 31 + L.v(o.f3);
    r = r * 31 + L.v(s0) + L.get(S38_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S38_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S38_1.class, "s2");
    return r;
  }
}
class S38_2 extends D38 implements J38 {
  public long f0 = 3 * 3600000000L;
  public Object f1 = (Object) Integer.valueOf(3);
  public boolean f2 = (3 & 2) == 0;
  int[] f3 = null;
  public String f4 = "a" + 3;
  static long s0 = 3 * 8900000000L;
  static volatile Object s1 = (Object) Integer.valueOf(3);
  static boolean s2 = (3 & 2) == 0;
  static long acc;
  S38_2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 48;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    base = r;
  }
  synchronized public double m0() {
    long r = 3;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static synchronized double t0() {
    long r = 80;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  public int[] m1() {
    long r = 52;
    r += base;
    return new int[] {(int) r, 4};
  }
  static private int[] t1() {
    long r = 95;
    return new int[] {(int) r, 4};
  }
  public float m2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 72;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static float t2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (float) (r & 0xfffff) / 8;
  }
  public float m3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 22;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public char m4() {
    long r = 64;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static synchronized char t4() {
    long r = 68;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static long fields(int p) {
    S38_2 o = new S38_2(new int[] {p, 137}, "lit62", null, p / 59.0, (p & 2) == 0, (p & 3) == 0, "a" + p);
    long r = 1;
    o.f3 = new int[] {p, 120};
    r = r * 31 + L.v(o.f3);
    o.f3 = null;
    r = r * 31 + L.v(o.f3);
    r = r * 31 + L.set(o, "f0", new Object[] {p * 13200000000L}[0]);
    o.f0 += 3;
    r += L.v(o.f0++);
    o.f1 = (Object) Integer.valueOf(p);
    r = r * 31 + L.v(o.f1);
    r = r * 31 + L.v(s0) + L.get(S38_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S38_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S38_2.class, "s2");
    return r;
  }
}
class S38_3 extends D38 implements J38 {
  volatile double f0 = 3 / 114.0;
  volatile long f1 = 3 * 18000000000L;
  volatile float f2 = 3 * 76.25f;
  String f3 = "a" + 3;
  char f4 = (char) (3 * 37734 - 5);
  static double s0 = 3 / 23.0;
  static long s1 = 3 * 600000000L;
  static volatile float s2 = 3 * 174.25f;
  static long acc;
  S38_3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 59;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public double m0() {
    long r = 27;
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static private double t0() {
    long r = 10;
    return (double) (r & 0xfffffffffL) / 16;
  }
  synchronized public int[] m1() {
    long r = 75;
    r += base;
    return new int[] {(int) r, 4};
  }
  static synchronized int[] t1() {
    long r = 57;
    return new int[] {(int) r, 4};
  }
  synchronized public float m2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 56;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 18;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public float m3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 38;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static float t3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 21;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public char m4() {
    long r = 93;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static private char t4() {
    long r = 38;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static long fields(int p) {
    S38_3 o = new S38_3(p * 7300000000L, (p & 3) == 0, (byte) (p * 150), (char) (p * 8275 - 5), (char) (p * 64545 - 5), (char) (p * 14895 - 5), null, (char) (p * 50312 - 5), null, p * 60.25f, null, p * 17298443);
    long r = 1;
    r = r * 31 + L.get(o, "f4");
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f3", "a" + p);
    r = r * 31 + L.get(o, "f4");
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.get(o, "f3");
    r = r * 31 + L.v(s0) + L.get(S38_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S38_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S38_3.class, "s2");
    return r;
  }
}
class S38_4 extends D38 implements J38 {
  double f0 = 3 / 69.0;
  public short f1 = (short) (3 * 3395);
  volatile boolean f2 = (3 & 1) == 0;
  volatile int f3 = 3 * 6299433;
  int[] f4 = new int[] {3, 174};
  static volatile double s0 = 3 / 81.0;
  static volatile short s1 = (short) (3 * 15423);
  static boolean s2 = (3 & 2) == 0;
  static long acc;
  S38_4() {
    long r = 47;
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public double m0() {
    long r = 24;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t0() {
    long r = 30;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  synchronized public int[] m1() {
    long r = 34;
    r += base;
    return new int[] {(int) r, 4};
  }
  static private int[] t1() {
    long r = 95;
    return new int[] {(int) r, 4};
  }
  public float m2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 66;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static private float t2(int[] a0, String a1, Object a2, double a3, boolean a4, boolean a5, String a6) {
    long r = 22;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (float) (r & 0xfffff) / 8;
  }
  public float m3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 74;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static private float t3(long a0, boolean a1, byte a2, char a3, char a4, char a5, int[] a6, char a7, int[] a8, float a9, int[] a10, int a11) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  public char m4() {
    long r = 99;
    r += base;
    return (char) r;
  }
  static char t4() {
    long r = 89;
    return (char) r;
  }
  static long fields(int p) {
    S38_4 o = new S38_4();
    long r = 1;
    r = r * 31 + L.set(o, "f4", new int[] {p, 34});
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f2");
    r = r * 31 + L.v(s0) + L.get(S38_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S38_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S38_4.class, "s2");
    return r;
  }
}
public class G38 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + L.make(S38_3.class, (Object) (p * 3400000000L), (Object) ((p & 3) == 0), (Object) ((byte) (p * 14)), (Object) ((char) (p * 55939 - 5)), (Object) ((char) (p * 39058 - 5)), (Object) ((char) (p * 41706 - 5)), (Object) (null), (Object) ((char) (p * 65869 - 5)), (Object) (new int[] {p, 171}), (Object) (p * 164.25f), (Object) (null), (Object) (p * 3599676));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F38_4 f = new S38_2(null, null, (Object) Integer.valueOf(p), p / 133.0, (p & 3) == 0, (p & 3) == 0, "lit23")::m4;
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D38) new S38_0()).m1());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.call(new S38_0(), "m0");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J38) new S38_3(p * 11400000000L, (p & 1) == 0, (byte) (p * 101), (char) (p * 27804 - 5), (char) (p * 62890 - 5), (char) (p * 7613 - 5), null, (char) (p * 64876 - 5), new int[] {p, 47}, p * 88.25f, null, p * 5399514)).m4());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N38_3 f = S38_3::new;
      r = r * 31 + f.f(p * 7600000000L, (p & 2) == 0, (byte) (p * 23), (char) (p * 9268 - 5), (char) (p * 55939 - 5), (char) (p * 32107 - 5), null, (char) (p * 49981 - 5), null, p * 48.25f, null, p * 4899559).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F38_1 f = S38_1::t1;
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S38_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + L.make(S38_1.class);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D38) new S38_0()).m4());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S38_3.class, "t3", (Object) (p * 17400000000L), (Object) ((p & 3) == 0), (Object) ((byte) (p * 36)), (Object) ((char) (p * 19198 - 5)), (Object) ((char) (p * 15226 - 5)), (Object) ((char) (p * 6289 - 5)), (Object) (new int[] {p, 191}), (Object) ((char) (p * 53953 - 5)), (Object) (null), (Object) (p * 130.25f), (Object) (new int[] {p, 125}), (Object) (p * 2199802));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S38_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r = r * 31 + L.call(S38_3.class, "t3", (Object) (p * 10200000000L), (Object) ((p & 3) == 0), (Object) ((byte) (p * 195)), (Object) ((char) (p * 27804 - 5)), (Object) ((char) (p * 55277 - 5)), (Object) ((char) (p * 17874 - 5)), (Object) (null), (Object) ((char) (p * 49319 - 5)), (Object) (null), (Object) (p * 104.25f), (Object) (null), (Object) (p * 9799118));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S38_4.t4());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(new S38_4().m1());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r = r * 31 + ((J38) new S38_4()).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F38_3 f = S38_3::t3;
      r = r * 31 + L.v(f.f(p * 15000000000L, (p & 3) == 0, (byte) (p * 36), (char) (p * 59580 - 5), (char) (p * 30121 - 5), (char) (p * 21184 - 5), null, (char) (p * 6620 - 5), null, p * 76.25f, null, p * 3099721));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(new S38_3(p * 800000000L, (p & 1) == 0, (byte) (p * 17), (char) (p * 18867 - 5), (char) (p * 56932 - 5), (char) (p * 47002 - 5), new int[] {p, 100}, (char) (p * 52629 - 5), null, p * 134.25f, null, p * 12998830).m2(null, null, "o" + p, p / 137.0, (p & 1) == 0, (p & 1) == 0, null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J38) new S38_3(p * 5500000000L, (p & 2) == 0, (byte) (p * 189), (char) (p * 19198 - 5), (char) (p * 5296 - 5), (char) (p * 61566 - 5), new int[] {p, 185}, (char) (p * 9268 - 5), null, p * 36.25f, new int[] {p, 147}, p * 7099361)).m2(null, null, (Object) Integer.valueOf(p), p / 177.0, (p & 2) == 0, (p & 2) == 0, null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J38) L.full(J38.class)).m2(new int[] {p, 62}, null, null, p / 100.0, (p & 2) == 0, (p & 2) == 0, "lit98"));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      N38_3 f = S38_3::new;
      r = r * 31 + f.f(p * 10800000000L, (p & 2) == 0, (byte) (p * 35), (char) (p * 26149 - 5), (char) (p * 59249 - 5), (char) (p * 6620 - 5), new int[] {p, 134}, (char) (p * 30121 - 5), new int[] {p, 43}, p * 160.25f, null, p * 7199352).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(new S38_4().m2(new int[] {p, 174}, null, (Object) Integer.valueOf(p), p / 161.0, (p & 2) == 0, (p & 2) == 0, "lit186"));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S38_2.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(new S38_2(null, "a" + p, (Object) Integer.valueOf(p), p / 122.0, (p & 2) == 0, (p & 1) == 0, "lit59").m3(p * 1900000000L, (p & 3) == 0, (byte) (p * 112), (char) (p * 41706 - 5), (char) (p * 8275 - 5), (char) (p * 37734 - 5), new int[] {p, 58}, (char) (p * 6289 - 5), new int[] {p, 123}, p * 1.25f, new int[] {p, 32}, p * 18198362));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      F38_3 f = S38_3::t3;
      r = r * 31 + L.v(f.f(p * 8100000000L, (p & 2) == 0, (byte) (p * 190), (char) (p * 7282 - 5), (char) (p * 28797 - 5), (char) (p * 57925 - 5), null, (char) (p * 26149 - 5), new int[] {p, 3}, p * 106.25f, null, p * 5099541));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S38_3.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Integer, Object> f = L::cube;
      r = r * 31 + L.v(f.f(p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J38) new S38_1()).m3(p * 9100000000L, (p & 3) == 0, (byte) (p * 179), (char) (p * 33762 - 5), (char) (p * 60573 - 5), (char) (p * 28466 - 5), new int[] {p, 130}, (char) (p * 42037 - 5), new int[] {p, 151}, p * 95.25f, null, p * 10599046));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S38_0.class, "t0");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S38_3.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      N38_0 f = S38_0::new;
      r = r * 31 + f.f().base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(new S38_1().m4());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J38) new S38_2(null, "lit76", "o" + p, p / 109.0, (p & 2) == 0, (p & 2) == 0, "a" + p)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S38_2(new int[] {p, 160}, null, "o" + p, p / 184.0, (p & 2) == 0, (p & 2) == 0, "lit169"), "m3", (Object) (p * 800000000L), (Object) ((p & 2) == 0), (Object) ((byte) (p * 22)), (Object) ((char) (p * 46671 - 5)), (Object) ((char) (p * 55939 - 5)), (Object) ((char) (p * 64214 - 5)), (Object) (null), (Object) ((char) (p * 22839 - 5)), (Object) (null), (Object) (p * 44.25f), (Object) (null), (Object) (p * 4999550));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S38_3(p * 900000000L, (p & 2) == 0, (byte) (p * 121), (char) (p * 12909 - 5), (char) (p * 46009 - 5), (char) (p * 56932 - 5), new int[] {p, 83}, (char) (p * 32769 - 5), new int[] {p, 109}, p * 99.25f, null, p * 12598866), "m1");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

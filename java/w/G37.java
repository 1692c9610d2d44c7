package w;
/* generated by tools/genlink.py */
interface J37 {
  byte m0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6);
  long m1(int[] a0, long a1, boolean a2);
  byte m2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11);
  int m3();
  long m4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11);
  default long d(int p) { return p + 66; }
}
interface F37_0 { byte f(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6); }
interface F37_1 { long f(int[] a0, long a1, boolean a2); }
interface F37_2 { byte f(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11); }
interface F37_3 { int f(); }
interface F37_4 { long f(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11); }
interface N37_0 { D37 f(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6); }
interface N37_1 { D37 f(int[] a0, long a1, boolean a2); }
interface N37_2 { D37 f(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11); }
interface N37_3 { D37 f(); }
interface N37_4 { D37 f(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11); }
abstract class D37 {
  long base;
  public byte m0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) throws RuntimeException { long r = 5; long acc; return (byte) r; }
  public abstract long m1(int[] a0, long a1, boolean a2);
  public abstract byte m2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11);
  public abstract int m3();
  public abstract long m4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11);
}
class S37_0 extends D37 implements J37 {
  volatile boolean f0 = (3 & 2) == 0;
  volatile short f1 = (short) (3 * 4171);
  volatile double f2 = 3 / 149.0;
  volatile int f3 = 3 * 5699487;
  byte f4 = (byte) (3 * 175);
  static boolean s0 = (3 & 1) == 0;
  static short s1 = (short) (3 * 13677);
  static volatile double s2 = 3 / 85.0;
  static long acc;
  S37_0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 72;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public byte m0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (byte) r;
  }
  static byte t0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (byte) r;
  }
  synchronized public long m1(int[] a0, long a1, boolean a2) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static synchronized long t1(int[] a0, long a1, boolean a2) {
    long r = 94;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  synchronized public byte m2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 9;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (byte) r;
  }
  static byte t2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 17;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (byte) r;
  }
  public int m3() {
    long r = 56;
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static private int t3() {
    long r = 79;
    return (int) (r ^ r >>> 32);
  }
  synchronized public long m4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return r;
  }
  static private long t4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 51;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return r;
  }
  static long fields(int p) {
    S37_0 o = new S37_0(p * 16300000000L, p * 145.25f, p / 158.0, (char) (p * 39720 - 5), p * 899919, (byte) (p * 171), new int[] {p, 151});
    long r = 1;
    o.f3 = p * 1999820;
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    o.f1 = (short) (p * 5529);
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    o.f4 = (byte) (p * 22);
    r = r * 31 + L.v(o.f4);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S37_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S37_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S37_0.class, "s2");
    return r;
  }
}
class S37_1 extends D37 implements J37 {
  volatile boolean f0 = (3 & 1) == 0;
  public int[] f1 = null;
  double f2 = 3 / 60.0;
  Object f3 = (Object) Integer.valueOf(3);
  byte f4 = (byte) (3 * 181);
  static boolean s0 = (3 & 1) == 0;
  static volatile int[] s1 = null;
  static double s2 = 3 / 195.0;
  static long acc;
  S37_1(int[] a0, long a1, boolean a2) {
    long r = 36;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    base = r;
  }
  public byte m0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 67;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (byte) r;
  }
  static private byte t0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 7;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (byte) r;
  }
  public long m1(int[] a0, long a1, boolean a2) {
    long r = 8;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t1(int[] a0, long a1, boolean a2) {
    long r = 56;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public byte m2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 25;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (byte) r;
  }
  static synchronized byte t2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 96;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (byte) r;
  }
  synchronized public int m3() {
    long r = 13;
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static synchronized int t3() {
    long r = 26;
    return (int) (r ^ r >>> 32);
  }
  synchronized public long m4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 90;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return r;
  }
  static long t4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 66;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return r;
  }
  static long fields(int p) {
    S37_1 o = new S37_1(new int[] {p, 67}, p * 11200000000L, (p & 2) == 0);
    long r = 1;
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.get(o, "f0");
    o.f0 = (p & 3) == 0;
    r = r * 31 + L.v(o.f0);
    o.f3 = "o" + p;
    r = r * 31 + L.v(o.f3);
    r = r * 31 + L.set(o, "f4", new Object[] {(byte) (p * 34)}[0]);
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S37_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S37_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S37_1.class, "s2");
    return r;
  }
}
class S37_2 extends D37 implements J37 {
  public byte f0 = (byte) (3 * 191);
  Object f1 = (Object) Integer.valueOf(3);
  public int[] f2 = null;
  volatile char f3 = (char) (3 * 37072 - 5);
  volatile String f4 = null;
  static byte s0 = (byte) (3 * 198);
  static volatile Object s1 = (Object) Integer.valueOf(3);
  static volatile int[] s2 = new int[] {3, 36};
  static long acc;
  S37_2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 64;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
  }
  public byte m0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 7;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (byte) r;
  }
  static byte t0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 64;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (byte) r;
  }
  public long m1(int[] a0, long a1, boolean a2) {
    long r = 66;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static private long t1(int[] a0, long a1, boolean a2) {
    long r = 11;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public byte m2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 6;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (byte) r;
  }
  static byte t2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 99;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (byte) r;
  }
  synchronized public int m3() {
    long r = 49;
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static synchronized int t3() {
    long r = 36;
    return (int) (r ^ r >>> 32);
  }
  synchronized public long m4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 84;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 28;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long fields(int p) {
    S37_2 o = new S37_2(p * 19698227, p * 1.25f, p * 18800000000L, p * 149.25f, p * 72.25f, "lit41", "o" + p, new int[] {p, 112}, p * 12798848, p / 198.0, p * 14000000000L, p / 147.0);
    long r = 1;
    r = r * 31 + L.set(o, "f0", new Object[] {(byte) (p * 112)}[0]);
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.get(o, "f3");
    o.f3 += p;
    r += L.v(o.f3++);
    o.f3 = (char) (p * 41044 - 5);
    r = r * 31 + L.v(o.f3);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f1");
    o.f4 = "a" + p;
    r = r * 31 + L.v(o.f4);
    o.f2 = new int[] {p, 120};
    r = r * 31 + L.v(o.f2);
    r = r * 31 + L.v(s0) + L.get(S37_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S37_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S37_2.class, "s2");
    return r;
  }
}
class S37_3 extends D37 implements J37 {
  double f0 = 3 / 181.0;
  float f1 = 3 * 149.25f;
  char f2 = (char) (3 * 9268 - 5);
  int f3 = 3 * 1899829;
  public long f4 = 3 * 11100000000L;
  static volatile double s0 = 3 / 196.0;
  static float s1 = 3 * 145.25f;
  static char s2 = (char) (3 * 21515 - 5);
  static long acc;
  S37_3() {
    long r = 66;
    base = r;
  }
  public byte m0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (byte) r;
  }
  static synchronized byte t0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 91;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (byte) r;
  }
  public long m1(int[] a0, long a1, boolean a2) {
    long r = 90;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return r;
  }
  static private long t1(int[] a0, long a1, boolean a2) {
    long r = 79;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return r;
  }
  synchronized public byte m2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 21;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (byte) r;
  }
  static byte t2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 67;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (byte) r;
  }
  public int m3() {
    long r = 27;
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static int t3() {
    long r = 32;
    return (int) (r ^ r >>> 32);
  }
  public long m4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return r;
  }
  static private long t4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 5;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return r;
  }
  static long fields(int p) {
    S37_3 o = new S37_3();
    long r = 1;
    r = r * 31 + L.get(o, "f1");
    o.f1 += p;
    r += L.v(o.f1++);
    o.f3 = p * 13798758;
    r = r * 31 + L.v(o.f3);
    o.f3 += p;
    r += L.v(o.f3++);
    o.f0 = p / 46.0;
    r = r * 31 + L.v(o.f0);
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.v(s0) + L.get(S37_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S37_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S37_3.class, "s2");
    return r;
  }
}
class S37_4 extends D37 implements J37 {
  volatile float f0 = 3 * 41.25f;
  volatile byte f1 = (byte) (3 * 116);
  int f2 = 3 * 8099271;
  public char f3 = (char) (3 * 46340 - 5);
  volatile boolean f4 = (3 & 2) == 0;
  static float s0 = 3 * 156.25f;
  static byte s1 = (byte) (3 * 34);
  static int s2 = 3 * 15098641;
  static long acc;
  S37_4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
  }
  synchronized public byte m0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 8;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (byte) r;
  }
  static byte t0(long a0, float a1, double a2, char a3, int a4, byte a5, int[] a6) {
    long r = 31;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (byte) r;
  }
  public long m1(int[] a0, long a1, boolean a2) {
    long r = 19;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return r;
  }
  static synchronized long t1(int[] a0, long a1, boolean a2) {
    long r = 71;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return r;
  }
  public byte m2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (byte) r;
  }
  static synchronized byte t2(int a0, float a1, long a2, float a3, float a4, String a5, Object a6, int[] a7, int a8, double a9, long a10, double a11) {
    long r = 45;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (byte) r;
  }
  public int m3() {
    long r = 33;
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static synchronized int t3() {
    long r = 94;
    return (int) (r ^ r >>> 32);
  }
  public long m4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 16;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return r;
  }
  static long t4(long a0, String a1, long a2, byte a3, Object a4, short a5, int a6, byte a7, float a8, byte a9, int[] a10, int a11) {
    long r = 91;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return r;
  }
  static long fields(int p) {
    S37_4 o = new S37_4(p * 9200000000L, "lit95", p * 9300000000L, (byte) (p * 103), null, (short) (p * 6596), p * 4699577, (byte) (p * 36), p * 101.25f, (byte) (p * 148), null, p * 10399064);
    long r = 1;
    r = r * 31 + L.get(o, "f4");
    o.f1 = (byte) (p * 64);
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f3", new Object[] {(char) (p * 22839 - 5)}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f0", new Object[] {p * 12.25f}[0]);
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.set(o, "f1", new Object[] {(byte) (p * 170)}[0]);
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.v(s0) + L.get(S37_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S37_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S37_4.class, "s2");
    return r;
  }
}
public class G37 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + L.v(new S37_0(p * 1500000000L, p * 28.25f, p / 131.0, (char) (p * 60904 - 5), p * 10699037, (byte) (p * 198), new int[] {p, 156}).m0(p * 10900000000L, p * 35.25f, p / 42.0, (char) (p * 41706 - 5), p * 6199442, (byte) (p * 172), new int[] {p, 169}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.ToD<Long> f = Long::longValue;
      r = r * 31 + L.v(f.f(p * 3L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S37_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Long, Number> f = x -> x * 38;
      r = r * 31 + f.f((long) p).longValue();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.v(((J37) L.full(J37.class)).m0(p * 2300000000L, p * 36.25f, p / 34.0, (char) (p * 1324 - 5), p * 8499235, (byte) (p * 128), null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J37) new S37_2(p * 12298893, p * 92.25f, p * 19100000000L, p * 1.25f, p * 136.25f, "a" + p, (Object) Integer.valueOf(p), new int[] {p, 5}, p * 4399604, p / 82.0, p * 11000000000L, p / 158.0)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J37) new S37_0(p * 7600000000L, p * 178.25f, p / 172.0, (char) (p * 27142 - 5), p * 5299523, (byte) (p * 173), new int[] {p, 135})).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S37_2.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.make(S37_2.class, (Object) (p * 5699487), (Object) (p * 2.25f), (Object) (p * 200000000L), (Object) (p * 170.25f), (Object) (p * 137.25f), (Object) (null), (Object) ("o" + p), (Object) (new int[] {p, 157}), (Object) (p * 16498515), (Object) (p / 117.0), (Object) (p * 19600000000L), (Object) (p / 103.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S37_4.class, "t4", (Object) (p * 17000000000L), (Object) ("lit88"), (Object) (p * 1200000000L), (Object) ((byte) (p * 196)), (Object) ((Object) Integer.valueOf(p)), (Object) ((short) (p * 6984)), (Object) (p * 12198902), (Object) ((byte) (p * 168)), (Object) (p * 49.25f), (Object) ((byte) (p * 73)), (Object) (null), (Object) (p * 15498605));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      final boolean c0 = (p & 2) == 0;
      final double c1 = p / 148.0;
      final double c2 = p / 9.0;
      F37_3 f = () -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2); long r1 = r0; return (int) (r1 ^ r1 >>> 32); };
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J37) L.full(J37.class)).m4(p * 19200000000L, "a" + p, p * 13100000000L, (byte) (p * 17), (Object) Integer.valueOf(p), (short) (p * 5141), p * 2099811, (byte) (p * 36), p * 141.25f, (byte) (p * 195), null, p * 7799298));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S37_2(p * 19598236, p * 152.25f, p * 8900000000L, p * 121.25f, p * 33.25f, "lit104", null, null, p * 17298443, p / 192.0, p * 8400000000L, p / 158.0), "m2", (Object) (p * 12198902), (Object) (p * 166.25f), (Object) (p * 10600000000L), (Object) (p * 129.25f), (Object) (p * 178.25f), (Object) ("lit51"), (Object) ((Object) Integer.valueOf(p)), (Object) (null), (Object) (p * 6299433), (Object) (p / 9.0), (Object) (p * 17600000000L), (Object) (p / 194.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.make(S37_2.class, (Object) (p * 2199802), (Object) (p * 113.25f), (Object) (p * 5800000000L), (Object) (p * 68.25f), (Object) (p * 62.25f), (Object) ("a" + p), (Object) ("o" + p), (Object) (new int[] {p, 16}), (Object) (p * 15498605), (Object) (p / 173.0), (Object) (p * 8500000000L), (Object) (p / 4.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N37_1 f = S37_1::new;
      r = r * 31 + f.f(null, p * 9400000000L, (p & 2) == 0).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<Integer, L.Gn<Integer, Integer>> f = x -> y -> x - y * 36;
      r = r * 31 + f.f(p).f(p + 3);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r = r * 31 + S37_2.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<Object, Long> f = x -> { switch (x.hashCode() & 1) { case 0: return 5L; default: return (long) 15; } };
      r = r * 31 + f.f("q" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D37) new S37_0(p * 10100000000L, p * 138.25f, p / 163.0, (char) (p * 40713 - 5), p * 13798758, (byte) (p * 76), null)).m0(p * 13000000000L, p * 47.25f, p / 1.0, (char) (p * 14564 - 5), p * 14598686, (byte) (p * 148), new int[] {p, 45}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J37) L.full(J37.class)).m0(p * 11300000000L, p * 18.25f, p / 124.0, (char) (p * 41044 - 5), p * 11598956, (byte) (p * 29), new int[] {p, 46}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J37) L.full(J37.class)).m3());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      final byte c0 = (byte) (p * 6);
      final long c1 = p * 8500000000L;
      final String c2 = null;
      final boolean c3 = (p & 1) == 0;
      F37_4 f = (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) + L.v(c3) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6) - L.v(x7) - L.v(x8) - L.v(x9) - L.v(x10) - L.v(x11); long r1 = r0; return r1; };
      r = r * 31 + L.v(f.f(p * 3000000000L, "lit65", p * 14700000000L, (byte) (p * 34), "o" + p, (short) (p * 8730), p * 3299703, (byte) (p * 61), p * 4.25f, (byte) (p * 174), null, p * 1099901));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.ToD<Character> f = L::dbl;
      r = r * 31 + L.v(f.f((char) (p + 70)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      java.util.Comparator<String> f = String::compareTo;
      r = r * 31 + f.compare("a" + p, "a44");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.make(S37_4.class, (Object) (p * 5300000000L), (Object) ("a" + p), (Object) (p * 1300000000L), (Object) ((byte) (p * 154)), (Object) ("o" + p), (Object) ((short) (p * 8148)), (Object) (p * 5599496), (Object) ((byte) (p * 26)), (Object) (p * 7.25f), (Object) ((byte) (p * 199)), (Object) (null), (Object) (p * 6399424));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N37_4 f = S37_4::new;
      r = r * 31 + f.f(p * 20000000000L, null, p * 9900000000L, (byte) (p * 154), (Object) Integer.valueOf(p), (short) (p * 17169), p * 3299703, (byte) (p * 127), p * 99.25f, (byte) (p * 149), new int[] {p, 50}, p * 13598776).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.make(S37_2.class, (Object) (p * 14498695), (Object) (p * 139.25f), (Object) (p * 2600000000L), (Object) (p * 103.25f), (Object) (p * 137.25f), (Object) (null), (Object) ("o" + p), (Object) (new int[] {p, 130}), (Object) (p * 10599046), (Object) (p / 32.0), (Object) (p * 12800000000L), (Object) (p / 108.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F37_2 f = S37_2::t2;
      r = r * 31 + L.v(f.f(p * 10599046, p * 117.25f, p * 18600000000L, p * 48.25f, p * 197.25f, "a" + p, null, null, p * 4899559, p / 7.0, p * 7800000000L, p / 50.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N37_4 f = S37_4::new;
      r = r * 31 + f.f(p * 5100000000L, "a" + p, p * 1600000000L, (byte) (p * 141), null, (short) (p * 9312), p * 18298353, (byte) (p * 125), p * 49.25f, (byte) (p * 54), new int[] {p, 184}, p * 11498965).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J37) new S37_3()).m0(p * 13800000000L, p * 188.25f, p / 13.0, (char) (p * 38727 - 5), p * 16898479, (byte) (p * 86), new int[] {p, 12}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S37_2.class, "t2", (Object) (p * 7699307), (Object) (p * 104.25f), (Object) (p * 100000000L), (Object) (p * 137.25f), (Object) (p * 136.25f), (Object) (null), (Object) ("o" + p), (Object) (null), (Object) (p * 14598686), (Object) (p / 123.0), (Object) (p * 4200000000L), (Object) (p / 99.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + L.make(S37_4.class, (Object) (p * 1900000000L), (Object) ("a" + p), (Object) (p * 1900000000L), (Object) ((byte) (p * 109)), (Object) (null), (Object) ((short) (p * 13580)), (Object) (p * 18998290), (Object) ((byte) (p * 51)), (Object) (p * 29.25f), (Object) ((byte) (p * 42)), (Object) (new int[] {p, 31}), (Object) (p * 11798938));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Integer, int[]> f = int[]::new;
      r = r * 31 + f.f(p & 7).length;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Boolean, Boolean> f = L::not;
      r = r * 31 + L.v(f.f(p > 48));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Integer, Object> f = L::cube;
      r = r * 31 + L.v(f.f(p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      r = r * 31 + L.v(((D37) new S37_1(new int[] {p, 157}, p * 1100000000L, (p & 1) == 0)).m0(p * 7700000000L, p * 104.25f, p / 38.0, (char) (p * 52298 - 5), p * 12198902, (byte) (p * 173), null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S37_4.t4(p * 13600000000L, "lit166", p * 1400000000L, (byte) (p * 91), (Object) Integer.valueOf(p), (short) (p * 9409), p * 899919, (byte) (p * 160), p * 168.25f, (byte) (p * 138), null, p * 17198452));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<int[], int[]> f = int[]::clone;
      r = r * 31 + L.v(f.f(new int[] {p, 31}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

package w;
/* generated by tools/genlink.py */
interface J31 {
  long m0(String a0, boolean a1, String a2);
  double m1(boolean a0, boolean a1, int a2, String a3, long a4);
  long m2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8);
  long m3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6);
  double m4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8);
  default long d(int p) { return p + 75; }
}
interface F31_0 { long f(String a0, boolean a1, String a2); }
interface F31_1 { double f(boolean a0, boolean a1, int a2, String a3, long a4); }
interface F31_2 { long f(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8); }
interface F31_3 { long f(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6); }
interface F31_4 { double f(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8); }
interface N31_0 { D31 f(String a0, boolean a1, String a2); }
interface N31_1 { D31 f(boolean a0, boolean a1, int a2, String a3, long a4); }
interface N31_2 { D31 f(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8); }
interface N31_3 { D31 f(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6); }
interface N31_4 { D31 f(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8); }
abstract class D31 {
  long base;
  public long m0(String a0, boolean a1, String a2) throws RuntimeException { long r = 5; long acc; return r; }
  public abstract double m1(boolean a0, boolean a1, int a2, String a3, long a4);
  public long m2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) throws RuntimeException { long r = 5; long acc; return r; }
  public long m3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) throws RuntimeException { long r = 5; long acc; return r; }
  public double m4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) throws RuntimeException { long r = 5; long acc; return (double) (r & 0xfffffffffL) / 16; }
}
class S31_0 extends D31 implements J31 {
  public boolean f0 = (3 & 1) == 0;
  public float f1 = 3 * 56.25f;
  volatile Object f2 = (Object) Integer.valueOf(3);
  long f3 = 3 * 3000000000L;
  int f4 = 3 * 17398434;
  static volatile boolean s0 = (3 & 2) == 0;
  static volatile float s1 = 3 * 60.25f;
  static volatile Object s2 = "o" + 3;
  static long acc;
  S31_0(String a0, boolean a1, String a2) {
    long r = 87;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public long m0(String a0, boolean a1, String a2) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return r;
  }
  static long t0(String a0, boolean a1, String a2) {
    long r = 74;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return r;
  }
  synchronized public double m1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static private double t1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 4;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  public long m2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 49;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return r;
  }
  static synchronized long t2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 93;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return r;
  }
  public long m3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 37;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return r;
  }
  static long t3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 48;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return r;
  }
  synchronized public double m4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 82;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 3;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S31_0 o = new S31_0("lit173", (p & 1) == 0, "lit74");
    long r = 1;
    r = r * 31 + L.set(o, "f4", new Object[] {p * 3599676}[0]);
    o.f4 += p;
    r += L.v(o.f4++);
    o.f3 = p * 16600000000L;
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    o.f4 = p * 13498785;
    r = r * 31 + L.v(o.f4);
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f4", new Object[] {p * 13498785}[0]);
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.get(o, "f3");
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S31_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S31_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S31_0.class, "s2");
    return r;
  }
}
class S31_1 extends D31 implements J31 {
  public byte f0 = (byte) (3 * 8);
  volatile String f1 = "a" + 3;
  public char f2 = (char) (3 * 6951 - 5);
  int f3 = 3 * 999910;
  Object f4 = "o" + 3;
  static volatile byte s0 = (byte) (3 * 79);
  static volatile String s1 = "lit36";
  static char s2 = (char) (3 * 47002 - 5);
  static long acc;
  S31_1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 52;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    base = r;
  }
  public long m0(String a0, boolean a1, String a2) {
    long r = 73;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static private long t0(String a0, boolean a1, String a2) {
    long r = 35;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public double m1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 16;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return (double) (r & 0xfffffffffL) / 16;
  }
  synchronized public long m2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 90;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return r;
  }
  static private long t2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 33;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return r;
  }
  public long m3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 70;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return r;
  }
  static synchronized long t3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 87;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return r;
  }
  public double m4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 55;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static synchronized double t4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 73;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S31_1 o = new S31_1((p & 2) == 0, (p & 3) == 0, p * 8199262, "a" + p, p * 10200000000L);
    long r = 1;
    o.f4 = null;
    r = r * 31 + L.v(o.f4);
    r = r * 31 + L.set(o, "f4", "o" + p);
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.set(o, "f0", new Object[] {(byte) (p * 118)}[0]);
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.v(s0) + L.get(S31_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S31_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S31_1.class, "s2");
    return r;
  }
}
class S31_2 extends D31 implements J31 {
  boolean f0 = (3 & 1) == 0;
  volatile int[] f1 = null;
  volatile char f2 = (char) (3 * 44354 - 5);
  public int f3 = 3 * 4299613;
  long f4 = 3 * 18900000000L;
  static volatile boolean s0 = (3 & 2) == 0;
  static int[] s1 = null;
  static char s2 = (char) (3 * 40382 - 5);
  static long acc;
  S31_2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 35;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public long m0(String a0, boolean a1, String a2) {
    long r = 83;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static synchronized long t0(String a0, boolean a1, String a2) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public double m1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 19;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static synchronized double t1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return (double) (r & 0xfffffffffL) / 16;
  }
  public long m2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 35;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 37;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public long m3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 66;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return r;
  }
  static synchronized long t3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 51;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return r;
  }
  synchronized public double m4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 32;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static synchronized double t4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 48;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S31_2 o = new S31_2((short) (p * 9312), p / 42.0, (char) (p * 52298 - 5), p * 3999640, new int[] {p, 55}, p * 18700000000L, (p & 2) == 0, p * 8999190, null);
    long r = 1;
    r = r * 31 + L.get(o, "f0");
    o.f2 = (char) (p * 32438 - 5);
    r = r * 31 + L.v(o.f2);
    o.f2 += 3;
    r += L.v(o.f2++);
    o.f1 = null;
    r = r * 31 + L.v(o.f1);
    r = r * 31 + L.v(s0) + L.get(S31_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S31_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S31_2.class, "s2");
    return r;
  }
}
class S31_3 extends D31 implements J31 {
  long f0 = 3 * 11300000000L;
  public int f1 = 3 * 18798308;
  volatile String f2 = "a" + 3;
  public int[] f3 = null;
  float f4 = 3 * 6.25f;
  static long s0 = 3 * 2000000000L;
  static volatile int s1 = 3 * 4799568;
  static volatile String s2 = null;
  static long acc;
  S31_3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 62;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public long m0(String a0, boolean a1, String a2) {
    long r = 84;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static private long t0(String a0, boolean a1, String a2) {
    long r = 6;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public double m1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 99;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 54;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  synchronized public long m2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 82;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return r;
  }
  static long t2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 63;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return r;
  }
  public long m3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 18;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public double m4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 25;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static private double t4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 5;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S31_3 o = new S31_3((char) (p * 25818 - 5), (Object) Integer.valueOf(p), "o" + p, (byte) (p * 40), p / 68.0, (short) (p * 15035), (short) (p * 10476));
    long r = 1;
    o.f4 = p * 41.25f;
    r = r * 31 + L.v(o.f4);
    o.f4 += p;
    r += L.v(o.f4++);
    o.f1 = p * 10599046;
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    o.f1 = p * 11898929;
    r = r * 31 + L.v(o.f1);
    o.f1 += p;
    r += L.v(o.f1++);
    r = r * 31 + L.v(s0) + L.get(S31_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S31_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S31_3.class, "s2");
    return r;
  }
}
class S31_4 extends D31 implements J31 {
  public String f0 = "a" + 3;
  public byte f1 = (byte) (3 * 144);
  public long f2 = 3 * 5500000000L;
  int f3 = 3 * 17498425;
  Object f4 = "o" + 3;
  static volatile String s0 = "lit131";
  static byte s1 = (byte) (3 * 157);
  static volatile long s2 = 3 * 16500000000L;
  static long acc;
  S31_4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public long m0(String a0, boolean a1, String a2) {
    long r = 97;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return r;
  }
  static long t0(String a0, boolean a1, String a2) {
    long r = 31;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return r;
  }
  public double m1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 84;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static synchronized double t1(boolean a0, boolean a1, int a2, String a3, long a4) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  public long m2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 77;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return r;
  }
  static long t2(short a0, double a1, char a2, int a3, int[] a4, long a5, boolean a6, int a7, int[] a8) {
    long r = 69;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return r;
  }
  synchronized public long m3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 63;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return r;
  }
  static long t3(char a0, Object a1, Object a2, byte a3, double a4, short a5, short a6) {
    long r = 27;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return r;
  }
  synchronized public double m4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 38;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t4(int a0, char a1, int[] a2, String a3, long a4, short a5, byte a6, double a7, Object a8) {
    long r = 40;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S31_4 o = new S31_4(p * 18998290, (char) (p * 37734 - 5), new int[] {p, 71}, null, p * 15000000000L, (short) (p * 14162), (byte) (p * 53), p / 84.0, null);
    long r = 1;
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.set(o, "f4", "o" + p);
    o.f0 = null;
    r = r * 31 + L.v(o.f0);
    r = r * 31 + L.get(o, "f1");
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f3", new Object[] {p * 11898929}[0]);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f2");
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.v(s0) + L.get(S31_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S31_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S31_4.class, "s2");
    return r;
  }
}
public class G31 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + ((J31) new S31_4(p * 14898659, (char) (p * 57594 - 5), null, null, p * 900000000L, (short) (p * 9215), (byte) (p * 6), p / 98.0, (Object) Integer.valueOf(p))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J31) new S31_0(null, (p & 3) == 0, "lit42")).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(new S31_4(p * 4099631, (char) (p * 16881 - 5), new int[] {p, 2}, "a" + p, p * 4600000000L, (short) (p * 3589), (byte) (p * 134), p / 159.0, (Object) Integer.valueOf(p)).m1((p & 2) == 0, (p & 1) == 0, p * 12398884, null, p * 200000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N31_0 f = S31_0::new;
      r = r * 31 + f.f(null, (p & 1) == 0, null).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F31_3 f = new S31_1((p & 1) == 0, (p & 3) == 0, p * 399964, null, p * 15900000000L)::m3;
      r = r * 31 + L.v(f.f((char) (p * 46009 - 5), "o" + p, (Object) Integer.valueOf(p), (byte) (p * 32), p / 37.0, (short) (p * 5141), (short) (p * 9021)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S31_4(p * 18098371, (char) (p * 46009 - 5), new int[] {p, 87}, "lit33", p * 19500000000L, (short) (p * 19400), (byte) (p * 52), p / 79.0, (Object) Integer.valueOf(p)), "m2", (Object) ((short) (p * 8148)), (Object) (p / 189.0), (Object) ((char) (p * 27142 - 5)), (Object) (p * 11099001), (Object) (new int[] {p, 19}), (Object) (p * 13700000000L), (Object) ((p & 2) == 0), (Object) (p * 13298803), (Object) (null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.v(((D31) new S31_1((p & 2) == 0, (p & 1) == 0, p * 19498245, "a" + p, p * 11200000000L)).m1((p & 1) == 0, (p & 1) == 0, p * 399964, "a" + p, p * 19200000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J31) new S31_0("lit127", (p & 1) == 0, "a" + p)).m4(p * 13598776, (char) (p * 17212 - 5), null, "a" + p, p * 5500000000L, (short) (p * 3977), (byte) (p * 15), p / 43.0, (Object) Integer.valueOf(p)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S31_4(p * 14598686, (char) (p * 32769 - 5), null, "lit24", p * 3400000000L, (short) (p * 5238), (byte) (p * 35), p / 94.0, null), "m0", (Object) ("a" + p), (Object) ((p & 2) == 0), (Object) (null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(S31_0.t0("lit188", (p & 3) == 0, "lit19"));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      java.util.Comparator<String> f = String::compareTo;
      r = r * 31 + f.compare("a" + p, "a13");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + L.v(((J31) L.full(J31.class)).m1((p & 1) == 0, (p & 2) == 0, p * 4299613, "a" + p, p * 12000000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.make(S31_4.class, (Object) (p * 2399784), (Object) ((char) (p * 40051 - 5)), (Object) (null), (Object) ("a" + p), (Object) (p * 2100000000L), (Object) ((short) (p * 3007)), (Object) ((byte) (p * 83)), (Object) (p / 123.0), (Object) ("o" + p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final boolean c0 = (p & 1) == 0;
      final int c1 = p * 8499235;
      final float c2 = p * 185.25f;
      F31_1 f = (x0, x1, x2, x3, x4) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4); long r1 = r0; return (double) (r1 & 0xfffffffffL) / 16; };
      r = r * 31 + L.v(f.f((p & 2) == 0, (p & 2) == 0, p * 299973, "lit177", p * 7600000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S31_4(p * 4299613, (char) (p * 31776 - 5), new int[] {p, 40}, null, p * 10600000000L, (short) (p * 11155), (byte) (p * 137), p / 142.0, null), "m3", (Object) ((char) (p * 36079 - 5)), (Object) ((Object) Integer.valueOf(p)), (Object) ((Object) Integer.valueOf(p)), (Object) ((byte) (p * 35)), (Object) (p / 188.0), (Object) ((short) (p * 5820)), (Object) ((short) (p * 9991)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn2<String, String, Integer> f = String::indexOf;
      r = r * 31 + f.f("xy" + p, "" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      L.ToL<Byte> f = L::wide;
      r = r * 31 + f.f((byte) (p * 40));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S31_2((short) (p * 776), p / 151.0, (char) (p * 20522 - 5), p * 3699667, null, p * 2500000000L, (p & 1) == 0, p * 9899109, new int[] {p, 97}), "m3", (Object) ((char) (p * 11254 - 5)), (Object) ("o" + p), (Object) ("o" + p), (Object) ((byte) (p * 78)), (Object) (p / 42.0), (Object) ((short) (p * 388)), (Object) ((short) (p * 4268)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F31_4 f = new S31_4(p * 17398434, (char) (p * 19529 - 5), new int[] {p, 43}, null, p * 3800000000L, (short) (p * 11252), (byte) (p * 69), p / 159.0, "o" + p)::m4;
      r = r * 31 + L.v(f.f(p * 7699307, (char) (p * 63552 - 5), null, null, p * 18800000000L, (short) (p * 14065), (byte) (p * 15), p / 94.0, null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r = r * 31 + L.v(((J31) new S31_2((short) (p * 970), p / 199.0, (char) (p * 30121 - 5), p * 699937, null, p * 15700000000L, (p & 1) == 0, p * 11898929, new int[] {p, 167})).m3((char) (p * 65538 - 5), "o" + p, null, (byte) (p * 77), p / 131.0, (short) (p * 18818), (short) (p * 18624)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final char c0 = (char) (p * 12578 - 5);
      final char c1 = (char) (p * 64876 - 5);
      final char c2 = (char) (p * 2317 - 5);
      final Object c3 = "o" + p;
      F31_0 f = (x0, x1, x2) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) + L.v(c3) - L.v(x0) - L.v(x1) - L.v(x2); long r1 = r0; return r1; };
      r = r * 31 + L.v(f.f("lit161", (p & 2) == 0, null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J31) new S31_1((p & 1) == 0, (p & 1) == 0, p * 11398974, "lit46", p * 17300000000L)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F31_2 f = new S31_1((p & 3) == 0, (p & 1) == 0, p * 8799208, "lit134", p * 9800000000L)::m2;
      r = r * 31 + L.v(f.f((short) (p * 14550), p / 64.0, (char) (p * 28797 - 5), p * 16798488, null, p * 6200000000L, (p & 3) == 0, p * 6199442, new int[] {p, 89}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<java.util.List<Integer>, Integer> f = x -> x.get(0);
      r = r * 31 + f.f(java.util.Collections.singletonList(p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.v(((D31) new S31_2((short) (p * 10573), p / 115.0, (char) (p * 8275 - 5), p * 12798848, new int[] {p, 87}, p * 13800000000L, (p & 2) == 0, p * 9299163, null)).m4(p * 15698587, (char) (p * 37403 - 5), null, null, p * 3400000000L, (short) (p * 7566), (byte) (p * 136), p / 143.0, (Object) Integer.valueOf(p)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J31) new S31_2((short) (p * 17266), p / 93.0, (char) (p * 44685 - 5), p * 6499415, new int[] {p, 198}, p * 3900000000L, (p & 2) == 0, p * 9299163, null)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.make(S31_2.class, (Object) ((short) (p * 15423)), (Object) (p / 96.0), (Object) ((char) (p * 11916 - 5)), (Object) (p * 8799208), (Object) (new int[] {p, 96}), (Object) (p * 100000000L), (Object) ((p & 3) == 0), (Object) (p * 8599226), (Object) (null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S31_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + L.v(S31_3.t3((char) (p * 59249 - 5), "o" + p, null, (byte) (p * 80), p / 42.0, (short) (p * 15229), (short) (p * 8827)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.make(S31_4.class, (Object) (p * 17098461), (Object) ((char) (p * 25818 - 5)), (Object) (null), (Object) ("a" + p), (Object) (p * 17200000000L), (Object) ((short) (p * 2328)), (Object) ((byte) (p * 44)), (Object) (p / 72.0), (Object) ((Object) Integer.valueOf(p)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.ToD<Float> f = L::dbl;
      r = r * 31 + L.v(f.f(p / 3f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.IntL f = L::bump;
      r = r * 31 + f.f(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      r = r * 31 + L.v(new S31_3((char) (p * 40051 - 5), "o" + p, null, (byte) (p * 199), p / 181.0, (short) (p * 8148), (short) (p * 5723)).m4(p * 18198362, (char) (p * 32769 - 5), null, "a" + p, p * 12200000000L, (short) (p * 11931), (byte) (p * 176), p / 196.0, null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, StringBuilder> f = StringBuilder::new;
      r = r * 31 + f.f("s" + p).length();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final char c0 = (char) (p * 6951 - 5);
      final char c1 = (char) (p * 35417 - 5);
      final char c2 = (char) (p * 51967 - 5);
      final Object c3 = (Object) Integer.valueOf(p);
      F31_0 f = (x0, x1, x2) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) + L.v(c3) - L.v(x0) - L.v(x1) - L.v(x2); long r1 = r0; return r1; };
      r = r * 31 + L.v(f.f("a" + p, (p & 1) == 0, "lit102"));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

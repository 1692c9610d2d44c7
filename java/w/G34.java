package w;
/* generated by tools/genlink.py */
interface J34 {
  long m0(int a0, int a1, char a2, String a3, char a4, char a5);
  boolean m1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8);
  char m2(long a0, int[] a1, short a2);
  String m3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11);
  int m4(char a0, Object a1, boolean a2, int a3);
  default long d(int p) { return p + 95; }
}
interface F34_0 { long f(int a0, int a1, char a2, String a3, char a4, char a5); }
interface F34_1 { boolean f(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8); }
interface F34_2 { char f(long a0, int[] a1, short a2); }
interface F34_3 { String f(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11); }
interface F34_4 { int f(char a0, Object a1, boolean a2, int a3); }
interface N34_0 { D34 f(int a0, int a1, char a2, String a3, char a4, char a5); }
interface N34_1 { D34 f(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8); }
interface N34_2 { D34 f(long a0, int[] a1, short a2); }
interface N34_3 { D34 f(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11); }
interface N34_4 { D34 f(char a0, Object a1, boolean a2, int a3); }
abstract class D34 {
  long base;
  public abstract long m0(int a0, int a1, char a2, String a3, char a4, char a5);
  public boolean m1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) throws RuntimeException { long r = 5; long acc; return (r & 4) == 0; }
  public char m2(long a0, int[] a1, short a2) throws RuntimeException { long r = 5; long acc; return (char) r; }
  public String m3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) throws RuntimeException { long r = 5; long acc; return (r & 7) == 0 ? null : "r" + (r & 0xfff); }
  public abstract int m4(char a0, Object a1, boolean a2, int a3);
}
class S34_0 extends D34 implements J34 {
  byte f0 = (byte) (3 * 31);
  volatile long f1 = 3 * 900000000L;
  volatile int[] f2 = null;
  volatile double f3 = 3 / 53.0;
  public String f4 = "lit196";
  static volatile byte s0 = (byte) (3 * 28);
  static long s1 = 3 * 9800000000L;
  static int[] s2 = new int[] {3, 85};
  static long acc;
  S34_0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 20;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public long m0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 74;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 86;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public boolean m1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 80;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 82;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (r & 4) == 0;
  }
  synchronized public char m2(long a0, int[] a1, short a2) {
    long r = 19;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (char) r;
  }
  static private char t2(long a0, int[] a1, short a2) {
    long r = 6;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (char) r;
  }
  public String m3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 78;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static synchronized String t3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 49;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  public int m4(char a0, Object a1, boolean a2, int a3) {
    long r = 30;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static int t4(char a0, Object a1, boolean a2, int a3) {
    long r = 82;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (int) (r ^ r >>> 32);
  }
  static long fields(int p) {
    S34_0 o = new S34_0(p * 6599406, p * 4999550, (char) (p * 20853 - 5), "a" + p, (char) (p * 8606 - 5), (char) (p * 53622 - 5));
    long r = 1;
    o.f4 = "a" + p;
    r = r * 31 + L.v(o.f4);
    o.f4 = "lit182";
    r = r * 31 + L.v(o.f4);
    o.f2 = null;
    r = r * 31 + L.v(o.f2);
    r = r * 31 + L.set(o, "f4", null);
    o.f4 = "lit72";
    r = r * 31 + L.v(o.f4);
    r = r * 31 + L.v(s0) + L.get(S34_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S34_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S34_0.class, "s2");
    return r;
  }
}
class S34_1 extends D34 implements J34 {
  volatile double f0 = 3 / 30.0;
  long f1 = 3 * 3200000000L;
  boolean f2 = (3 & 3) == 0;
  int f3 = 3 * 2199802;
  byte f4 = (byte) (3 * 164);
  static volatile double s0 = 3 / 82.0;
  static volatile long s1 = 3 * 12100000000L;
  static boolean s2 = (3 & 2) == 0;
  static long acc;
  S34_1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 98;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    base = r;
  }
  public long m0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 59;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static synchronized long t0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 44;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public boolean m1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 59;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 91;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (r & 4) == 0;
  }
  synchronized public char m2(long a0, int[] a1, short a2) {
    long r = 77;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (char) r;
  }
  static synchronized char t2(long a0, int[] a1, short a2) {
    long r = 82;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (char) r;
  }
  public String m3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 49;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 23;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public int m4(char a0, Object a1, boolean a2, int a3) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (int) (r ^ r >>> 32);
  }
  static int t4(char a0, Object a1, boolean a2, int a3) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (int) (r ^ r >>> 32);
  }
  static long fields(int p) {
    S34_1 o = new S34_1(p * 6800000000L, "a" + p, p * 14398704, p * 61.25f, (char) (p * 59911 - 5), (short) (p * 16878), "a" + p, "lit143", (short) (p * 13483));
    long r = 1;
    o.f2 = (p & 2) == 0;
    r = r * 31 + L.v(o.f2);
    r = r * 31 + L.set(o, "f3", new Object[] {p * 999910}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f0");
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.v(s0) + L.get(S34_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S34_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S34_1.class, "s2");
    return r;
  }
}
class S34_2 extends D34 implements J34 {
  byte f0 = (byte) (3 * 6);
  int[] f1 = null;
  volatile Object f2 = "o" + 3;
  volatile String f3 = "a" + 3;
  public long f4 = 3 * 7300000000L;
  static volatile byte s0 = (byte) (3 * 68);
  static int[] s1 = new int[] {3, 120};
  static volatile Object s2 = (Object) Integer.valueOf(3);
  static long acc;
  S34_2(long a0, int[] a1, short a2) {
    long r = 63;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public long m0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 76;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return r;
  }
  static long t0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 69;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return r;
  }
  synchronized public boolean m1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (r & 4) == 0;
  }
  static synchronized boolean t1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (r & 4) == 0;
  }
  public char m2(long a0, int[] a1, short a2) {
    long r = 5;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static char t2(long a0, int[] a1, short a2) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  public String m3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 77;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static private String t3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 33;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public int m4(char a0, Object a1, boolean a2, int a3) {
    long r = 62;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static synchronized int t4(char a0, Object a1, boolean a2, int a3) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (int) (r ^ r >>> 32);
  }
  static long fields(int p) {
    S34_2 o = new S34_2(p * 5600000000L, null, (short) (p * 13483));
    long r = 1;
    r = r * 31 + L.set(o, "f2", "o" + p);
    o.f4 = p * 7200000000L;
    r = r * 31 + L.v(o.f4);
    o.f4 += p;
    r += L.v(o.f4++);
    o.f0 = (byte) (p * 62);
    r = r * 31 + L.v(o.f0);
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.v(s0) + L.get(S34_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S34_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S34_2.class, "s2");
    return r;
  }
}
class S34_3 extends D34 implements J34 {
  public short f0 = (short) (3 * 9797);
  volatile int[] f1 = null;
  volatile long f2 = 3 * 2000000000L;
  volatile boolean f3 = (3 & 1) == 0;
  public String f4 = "a" + 3;
  static short s0 = (short) (3 * 15520);
  static volatile int[] s1 = null;
  static long s2 = 3 * 9000000000L;
  static long acc;
  S34_3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 73;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public long m0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 14;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return r;
  }
  static synchronized long t0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 14;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return r;
  }
  public boolean m1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 25;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 97;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (r & 4) == 0;
  }
  synchronized public char m2(long a0, int[] a1, short a2) {
    long r = 91;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (char) r;
  }
  static private char t2(long a0, int[] a1, short a2) {
    long r = 19;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (char) r;
  }
  public String m3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 20;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  public int m4(char a0, Object a1, boolean a2, int a3) {
    long r = 51;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static synchronized int t4(char a0, Object a1, boolean a2, int a3) {
    long r = 50;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (int) (r ^ r >>> 32);
  }
  static long fields(int p) {
    S34_3 o = new S34_3((char) (p * 31114 - 5), p / 73.0, p * 13200000000L, p * 17300000000L, p * 11898929, (Object) Integer.valueOf(p), p * 6699397, (byte) (p * 44), new int[] {p, 88}, (Object) Integer.valueOf(p), (char) (p * 23832 - 5), null);
    long r = 1;
    r = r * 31 + L.get(o, "f3");
    o.f1 = new int[] {p, 61};
    r = r * 31 + L.v(o.f1);
    o.f3 = (p & 1) == 0;
    r = r * 31 + L.v(o.f3);
    o.f1 = null;
    r = r * 31 + L.v(o.f1);
    r = r * 31 + L.v(s0) + L.get(S34_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S34_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S34_3.class, "s2");
    return r;
  }
}
class S34_4 extends D34 implements J34 {
  volatile String f0 = null;
  volatile byte f1 = (byte) (3 * 39);
  short f2 = (short) (3 * 13968);
  public Object f3 = "o" + 3;
  volatile int[] f4 = null;
  static volatile String s0 = "a" + 3;
  static volatile byte s1 = (byte) (3 * 135);
  static volatile short s2 = (short) (3 * 6499);
  static long acc;
  S34_4(char a0, Object a1, boolean a2, int a3) {
    long r = 52;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public long m0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 86;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t0(int a0, int a1, char a2, String a3, char a4, char a5) {
    long r = 64;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public boolean m1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 93;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (r & 4) == 0;
  }
  static private boolean t1(long a0, String a1, int a2, float a3, char a4, short a5, String a6, String a7, short a8) {
    long r = 35;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (r & 4) == 0;
  }
  synchronized public char m2(long a0, int[] a1, short a2) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (char) r;
  }
  static private char t2(long a0, int[] a1, short a2) {
    long r = 43;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (char) r;
  }
  synchronized public String m3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 9;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t3(char a0, double a1, long a2, long a3, int a4, Object a5, int a6, byte a7, int[] a8, Object a9, char a10, String a11) {
    long r = 8;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public int m4(char a0, Object a1, boolean a2, int a3) {
    long r = 7;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static int t4(char a0, Object a1, boolean a2, int a3) {
    long r = 30;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (int) (r ^ r >>> 32);
  }
  static long fields(int p) {
    S34_4 o = new S34_4((char) (p * 40713 - 5), null, (p & 1) == 0, p * 11798938);
    long r = 1;
    r = r * 31 + L.get(o, "f2");
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f1");
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.get(o, "f4");
    o.f1 = (byte) (p * 62);
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.get(o, "f0");
    r = r * 31 + L.v(s0) + L.get(S34_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S34_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S34_4.class, "s2");
    return r;
  }
}
public class G34 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + L.v(S34_4.t4((char) (p * 33100 - 5), (Object) Integer.valueOf(p), (p & 2) == 0, p * 9499145));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final boolean c0 = (p & 2) == 0;
      final double c1 = p / 113.0;
      F34_0 f = (x0, x1, x2, x3, x4, x5) -> { long r0 = p + L.v(c0) + L.v(c1) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5); long r1 = r0; return r1; };
      r = r * 31 + L.v(f.f(p * 19198272, p * 19098281, (char) (p * 15888 - 5), "lit2", (char) (p * 22177 - 5), (char) (p * 61235 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.make(S34_0.class, (Object) (p * 3899649), (Object) (p * 2199802), (Object) ((char) (p * 53953 - 5)), (Object) ("a" + p), (Object) ((char) (p * 64214 - 5)), (Object) ((char) (p * 39389 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(new S34_4((char) (p * 44023 - 5), "o" + p, (p & 1) == 0, p * 7199352).m2(p * 7700000000L, null, (short) (p * 14938)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.v(new S34_1(p * 7800000000L, null, p * 7799298, p * 2.25f, (char) (p * 11585 - 5), (short) (p * 10573), "a" + p, "lit75", (short) (p * 582)).m2(p * 3300000000L, null, (short) (p * 11543)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F34_0 f = new S34_1(p * 15900000000L, "a" + p, p * 6199442, p * 87.25f, (char) (p * 35086 - 5), (short) (p * 8342), "a" + p, null, (short) (p * 8633))::m0;
      r = r * 31 + L.v(f.f(p * 19998200, p * 2099811, (char) (p * 25487 - 5), "a" + p, (char) (p * 11254 - 5), (char) (p * 19198 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<String, Integer> f = Integer::parseInt;
      r = r * 31 + f.f("" + p * 17);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, StringBuilder> f = StringBuilder::new;
      r = r * 31 + f.f("s" + p).length();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + S34_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.ToD<Float> f = L::dbl;
      r = r * 31 + L.v(f.f(p / 3f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D34) new S34_2(p * 12000000000L, null, (short) (p * 7566))).m3((char) (p * 48988 - 5), p / 191.0, p * 18900000000L, p * 10900000000L, p * 8899199, (Object) Integer.valueOf(p), p * 4799568, (byte) (p * 20), new int[] {p, 113}, "o" + p, (char) (p * 37072 - 5), "a" + p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S34_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      N34_2 f = S34_2::new;
      r = r * 31 + f.f(p * 16000000000L, new int[] {p, 114}, (short) (p * 3589)).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J34) L.full(J34.class)).m1(p * 9000000000L, "a" + p, p * 1399874, p * 168.25f, (char) (p * 24825 - 5), (short) (p * 4268), null, "a" + p, (short) (p * 15811)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S34_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S34_4.class, "t4", (Object) ((char) (p * 5627 - 5)), (Object) (null), (Object) ((p & 3) == 0), (Object) (p * 3499685));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J34) new S34_0(p * 18498335, p * 11798938, (char) (p * 34093 - 5), "lit11", (char) (p * 61897 - 5), (char) (p * 21184 - 5))).m2(p * 10000000000L, new int[] {p, 11}, (short) (p * 11252)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r = r * 31 + L.call(S34_4.class, "t4", (Object) ((char) (p * 56270 - 5)), (Object) ("o" + p), (Object) ((p & 1) == 0), (Object) (p * 18798308));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(S34_1.class, "t1", (Object) (p * 14800000000L), (Object) ("a" + p), (Object) (p * 17098461), (Object) (p * 61.25f), (Object) ((char) (p * 41044 - 5)), (Object) ((short) (p * 10379)), (Object) (null), (Object) ("a" + p), (Object) ((short) (p * 4850)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F34_4 f = new S34_1(p * 16100000000L, "lit79", p * 9399154, p * 58.25f, (char) (p * 40713 - 5), (short) (p * 8633), "a" + p, "a" + p, (short) (p * 12707))::m4;
      r = r * 31 + L.v(f.f((char) (p * 35748 - 5), null, (p & 1) == 0, p * 9999100));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S34_1.t1(p * 700000000L, null, p * 3399694, p * 172.25f, (char) (p * 18205 - 5), (short) (p * 5238), "a" + p, "a" + p, (short) (p * 6693)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      F34_0 f = new S34_0(p * 15398614, p * 17798398, (char) (p * 7282 - 5), "lit104", (char) (p * 39389 - 5), (char) (p * 13902 - 5))::m0;
      r = r * 31 + L.v(f.f(p * 14498695, p * 19398254, (char) (p * 41375 - 5), "lit192", (char) (p * 32107 - 5), (char) (p * 19529 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S34_3((char) (p * 61235 - 5), p / 95.0, p * 14600000000L, p * 14500000000L, p * 5399514, null, p * 899919, (byte) (p * 20), new int[] {p, 4}, (Object) Integer.valueOf(p), (char) (p * 3641 - 5), "lit133"), "m3", (Object) ((char) (p * 34424 - 5)), (Object) (p / 11.0), (Object) (p * 14800000000L), (Object) (p * 13900000000L), (Object) (p * 18498335), (Object) ("o" + p), (Object) (p * 17198452), (Object) ((byte) (p * 178)), (Object) (new int[] {p, 14}), (Object) (null), (Object) ((char) (p * 10923 - 5)), (Object) (null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(new S34_0(p * 19398254, p * 17698407, (char) (p * 47664 - 5), "lit50", (char) (p * 39389 - 5), (char) (p * 11254 - 5)).m1(p * 12400000000L, "lit59", p * 11898929, p * 60.25f, (char) (p * 63221 - 5), (short) (p * 17169), "a" + p, null, (short) (p * 4850)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D34) new S34_1(p * 9600000000L, "lit136", p * 8899199, p * 37.25f, (char) (p * 37072 - 5), (short) (p * 12125), "a" + p, "lit79", (short) (p * 12610))).m2(p * 6200000000L, null, (short) (p * 7566)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + L.v(S34_2.t2(p * 3100000000L, new int[] {p, 83}, (short) (p * 4850)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S34_3.t3((char) (p * 55608 - 5), p / 44.0, p * 8600000000L, p * 5200000000L, p * 11598956, "o" + p, p * 7899289, (byte) (p * 147), new int[] {p, 21}, "o" + p, (char) (p * 62890 - 5), null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J34) new S34_3((char) (p * 35748 - 5), p / 91.0, p * 5600000000L, p * 9100000000L, p * 15598596, "o" + p, p * 3899649, (byte) (p * 195), null, null, (char) (p * 46340 - 5), "lit4")).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<String, StringBuilder> f = StringBuilder::new;
      r = r * 31 + f.f("s" + p).length();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      L.ToL<String> f = String::length;
      r = r * 31 + f.f("x" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F34_3 f = new S34_1(p * 16700000000L, null, p * 299973, p * 81.25f, (char) (p * 43030 - 5), (short) (p * 2134), null, "lit108", (short) (p * 6887))::m3;
      r = r * 31 + L.v(f.f((char) (p * 7613 - 5), p / 54.0, p * 18200000000L, p * 2700000000L, p * 10799028, "o" + p, p * 19698227, (byte) (p * 70), new int[] {p, 111}, null, (char) (p * 39389 - 5), "a" + p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S34_2.class, "t2", (Object) (p * 1100000000L), (Object) (null), (Object) ((short) (p * 7566)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(S34_4.t4((char) (p * 28797 - 5), null, (p & 3) == 0, p * 2799748));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S34_1(p * 15700000000L, null, p * 10699037, p * 52.25f, (char) (p * 26480 - 5), (short) (p * 5529), "lit1", "lit55", (short) (p * 14938)), "m3", (Object) ((char) (p * 53291 - 5)), (Object) (p / 146.0), (Object) (p * 1700000000L), (Object) (p * 13900000000L), (Object) (p * 6299433), (Object) ((Object) Integer.valueOf(p)), (Object) (p * 5899469), (Object) ((byte) (p * 162)), (Object) (null), (Object) (null), (Object) ((char) (p * 43361 - 5)), (Object) (null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J34) new S34_4((char) (p * 43030 - 5), null, (p & 1) == 0, p * 11498965)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

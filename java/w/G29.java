package w;
/* generated by tools/genlink.py */
interface J29 {
  void m0(double a0, boolean a1, double a2);
  long m1(char a0, boolean a1, byte a2, char a3, short a4, short a5);
  String m2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6);
  float m3(int[] a0, double a1, double a2);
  char m4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5);
  default long d(int p) { return p + 52; }
}
interface F29_0 { void f(double a0, boolean a1, double a2); }
interface F29_1 { long f(char a0, boolean a1, byte a2, char a3, short a4, short a5); }
interface F29_2 { String f(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6); }
interface F29_3 { float f(int[] a0, double a1, double a2); }
interface F29_4 { char f(short a0, double a1, Object a2, Object a3, boolean a4, byte a5); }
interface N29_0 { D29 f(double a0, boolean a1, double a2); }
interface N29_1 { D29 f(char a0, boolean a1, byte a2, char a3, short a4, short a5); }
interface N29_2 { D29 f(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6); }
interface N29_3 { D29 f(int[] a0, double a1, double a2); }
interface N29_4 { D29 f(short a0, double a1, Object a2, Object a3, boolean a4, byte a5); }
abstract class D29 {
  long base;
  public abstract void m0(double a0, boolean a1, double a2);
  public long m1(char a0, boolean a1, byte a2, char a3, short a4, short a5) throws RuntimeException { long r = 5; long acc; return r; }
  public abstract String m2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6);
  public float m3(int[] a0, double a1, double a2) throws RuntimeException { long r = 5; long acc; return (float) (r & 0xfffff) / 8; }
  public char m4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) throws RuntimeException { long r = 5; long acc; return (char) r; }
}
class S29_0 extends D29 implements J29 {
  public int[] f0 = new int[] {3, 175};
  Object f1 = null;
  volatile float f2 = 3 * 93.25f;
  volatile char f3 = (char) (3 * 29790 - 5);
  public long f4 = 3 * 19500000000L;
  static int[] s0 = new int[] {3, 116};
  static Object s1 = (Object) Integer.valueOf(3);
  static volatile float s2 = 3 * 83.25f;
  static long acc;
  S29_0(double a0, boolean a1, double a2) {
    long r = 35;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public void m0(double a0, boolean a1, double a2) {
    long r = 87;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    G29.acc = r;
  }
  static void t0(double a0, boolean a1, double a2) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    G29.acc = r;
  }
  public long m1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 37;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return r;
  }
  static long t1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 56;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return r;
  }
  public String m2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 5;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 9;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public float m3(int[] a0, double a1, double a2) {
    long r = 56;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t3(int[] a0, double a1, double a2) {
    long r = 76;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public char m4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 55;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (char) r;
  }
  static char t4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 5;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (char) r;
  }
  static long fields(int p) {
    S29_0 o = new S29_0(p / 111.0, (p & 2) == 0, p / 183.0);
    long r = 1;
    r = r * 31 + L.set(o, "f3", new Object[] {(char) (p * 3310 - 5)}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f0");
    r = r * 31 + L.get(o, "f4");
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f2", new Object[] {p * 183.25f}[0]);
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.set(o, "f0", new int[] {p, 10});
    r = r * 31 + L.v(s0) + L.get(S29_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S29_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S29_0.class, "s2");
    return r;
  }
}
class S29_1 extends D29 implements J29 {
  String f0 = "a" + 3;
  boolean f1 = (3 & 1) == 0;
  volatile Object f2 = (Object) Integer.valueOf(3);
  public short f3 = (short) (3 * 17945);
  float f4 = 3 * 148.25f;
  static String s0 = "a" + 3;
  static volatile boolean s1 = (3 & 1) == 0;
  static Object s2 = (Object) Integer.valueOf(3);
  static long acc;
  S29_1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public void m0(double a0, boolean a1, double a2) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    G29.acc = r;
  }
  static void t0(double a0, boolean a1, double a2) {
    long r = 7;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    G29.acc = r;
  }
  synchronized public long m1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 79;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public String m2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static private String t2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 25;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  public float m3(int[] a0, double a1, double a2) {
    long r = 23;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static float t3(int[] a0, double a1, double a2) {
    long r = 69;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  public char m4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 45;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static private char t4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 85;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static long fields(int p) {
    S29_1 o = new S29_1((char) (p * 20191 - 5), (p & 3) == 0, (byte) (p * 166), (char) (p * 29790 - 5), (short) (p * 5238), (short) (p * 15132));
    long r = 1;
    r = r * 31 + L.set(o, "f4", new Object[] {p * 17.25f}[0]);
    o.f4 += 3;
    r += L.v(o.f4++);
    o.f4 = p * 62.25f;
    r = r * 31 + L.v(o.f4);
    o.f4 += p;
    r += L.v(o.f4++);
    o.f1 = (p & 3) == 0;
    r = r * 31 + L.v(o.f1);
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.get(o, "f2");
    r = r * 31 + L.v(s0) + L.get(S29_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S29_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S29_1.class, "s2");
    return r;
  }
}
class S29_2 extends D29 implements J29 {
  int f0 = 3 * 6799388;
  volatile int[] f1 = null;
  double f2 = 3 / 113.0;
  public float f3 = 3 * 10.25f;
  public boolean f4 = (3 & 3) == 0;
  static int s0 = 3 * 8099271;
  static int[] s1 = null;
  static double s2 = 3 / 197.0;
  static long acc;
  S29_2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 87;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public void m0(double a0, boolean a1, double a2) {
    long r = 27;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    G29.acc = r;
  }
  static private void t0(double a0, boolean a1, double a2) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    G29.acc = r;
  }
  public long m1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 63;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return r;
  }
  static long t1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return r;
  }
  public String m2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 72;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 76;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  public float m3(int[] a0, double a1, double a2) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t3(int[] a0, double a1, double a2) {
    long r = 16;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (float) (r & 0xfffff) / 8;
  }
  public char m4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 98;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (char) r;
  }
  static private char t4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (char) r;
  }
  static long fields(int p) {
    S29_2 o = new S29_2((Object) Integer.valueOf(p), null, (Object) Integer.valueOf(p), p * 17200000000L, "a" + p, (p & 3) == 0, (char) (p * 41044 - 5));
    long r = 1;
    o.f3 = p * 88.25f;
    r = r * 31 + L.v(o.f3);
    o.f3 += p;
    r += L.v(o.f3++);
    o.f2 = p / 170.0;
    r = r * 31 + L.v(o.f2);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.set(o, "f3", new Object[] {p * 20.25f}[0]);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f2", new Object[] {p / 110.0}[0]);
    o.f2 += 3;
    r += L.v(o.f2++);
    o.f2 = p / 189.0;
    r = r * 31 + L.v(o.f2);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.set(o, "f1", null);
    r = r * 31 + L.v(s0) + L.get(S29_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S29_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S29_2.class, "s2");
    return r;
  }
}
class S29_3 extends D29 implements J29 {
  float f0 = 3 * 6.25f;
  volatile int[] f1 = null;
  double f2 = 3 / 118.0;
  volatile boolean f3 = (3 & 2) == 0;
  public char f4 = (char) (3 * 26811 - 5);
  static volatile float s0 = 3 * 151.25f;
  static volatile int[] s1 = new int[] {3, 7};
  static volatile double s2 = 3 / 54.0;
  static long acc;
  S29_3(int[] a0, double a1, double a2) {
    long r = 99;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public void m0(double a0, boolean a1, double a2) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    G29.acc = r;
  }
  static void t0(double a0, boolean a1, double a2) {
    long r = 30;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    G29.acc = r;
  }
  public long m1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return r;
  }
  static long t1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 6;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return r;
  }
  public String m2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 73;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static synchronized String t2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 33;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public float m3(int[] a0, double a1, double a2) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static float t3(int[] a0, double a1, double a2) {
    long r = 58;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public char m4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (char) r;
  }
  static synchronized char t4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 23;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (char) r;
  }
  static long fields(int p) {
    S29_3 o = new S29_3(new int[] {p, 61}, p / 145.0, p / 150.0);
    long r = 1;
    r = r * 31 + L.set(o, "f4", new Object[] {(char) (p * 37403 - 5)}[0]);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.get(o, "f4");
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.set(o, "f3", new Object[] {(p & 3) == 0}[0]);
    o.f0 = p * 105.25f;
    r = r * 31 + L.v(o.f0);
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.v(s0) + L.get(S29_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S29_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S29_3.class, "s2");
    return r;
  }
}
class S29_4 extends D29 implements J29 {
  volatile int f0 = 3 * 8999190;
  char f1 = (char) (3 * 34424 - 5);
  int[] f2 = new int[] {3, 141};
  public short f3 = (short) (3 * 2037);
  String f4 = "a" + 3;
  static int s0 = 3 * 10899019;
  static volatile char s1 = (char) (3 * 662 - 5);
  static int[] s2 = new int[] {3, 185};
  static long acc;
  S29_4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    base = r;
  }
  public void m0(double a0, boolean a1, double a2) {
    long r = 74;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    G29.acc = r;
  }
  static private void t0(double a0, boolean a1, double a2) {
    long r = 81;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    G29.acc = r;
  }
  public long m1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return r;
  }
  static long t1(char a0, boolean a1, byte a2, char a3, short a4, short a5) {
    long r = 56;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return r;
  }
  public String m2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static private String t2(Object a0, Object a1, Object a2, long a3, String a4, boolean a5, char a6) {
    long r = 40;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public float m3(int[] a0, double a1, double a2) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t3(int[] a0, double a1, double a2) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public char m4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 27;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (char) r;
  }
  static char t4(short a0, double a1, Object a2, Object a3, boolean a4, byte a5) {
    long r = 78;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (char) r;
  }
  static long fields(int p) {
    S29_4 o = new S29_4((short) (p * 4268), p / 98.0, "o" + p, "o" + p, (p & 2) == 0, (byte) (p * 127));
    long r = 1;
    o.f4 = "a" + p;
    r = r * 31 + L.v(o.f4);
    o.f4 = null;
    r = r * 31 + L.v(o.f4);
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    o.f4 = "lit75";
    r = r * 31 + L.v(o.f4);
    r = r * 31 + L.v(s0) + L.get(S29_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S29_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S29_4.class, "s2");
    return r;
  }
}
public class G29 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + L.call(S29_0.class, "t0", (Object) (p / 105.0), (Object) ((p & 1) == 0), (Object) (p / 15.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.ToL<String> f = String::length;
      r = r * 31 + f.f("x" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J29) new S29_3(new int[] {p, 136}, p / 6.0, p / 108.0)).m3(null, p / 131.0, p / 120.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S29_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S29_3(null, p / 156.0, p / 86.0), "m4", (Object) ((short) (p * 17072)), (Object) (p / 107.0), (Object) (null), (Object) ("o" + p), (Object) ((p & 3) == 0), (Object) ((byte) (p * 90)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, Integer> f = Integer::parseInt;
      r = r * 31 + f.f("" + p * 26);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      N29_1 f = S29_1::new;
      r = r * 31 + f.f((char) (p * 40051 - 5), (p & 1) == 0, (byte) (p * 179), (char) (p * 23501 - 5), (short) (p * 12028), (short) (p * 9894)).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final short c0 = (short) (p * 12804);
      final String c1 = null;
      final int[] c2 = new int[] {p, 82};
      final long c3 = p * 4400000000L;
      F29_4 f = (x0, x1, x2, x3, x4, x5) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) + L.v(c3) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5); long r1 = r0; return (char) r1; };
      r = r * 31 + L.v(f.f((short) (p * 5044), p / 6.0, (Object) Integer.valueOf(p), "o" + p, (p & 3) == 0, (byte) (p * 82)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J29) new S29_4((short) (p * 13483), p / 123.0, null, null, (p & 3) == 0, (byte) (p * 172))).m3(null, p / 1.0, p / 55.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S29_4((short) (p * 1067), p / 10.0, (Object) Integer.valueOf(p), (Object) Integer.valueOf(p), (p & 1) == 0, (byte) (p * 99)), "m1", (Object) ((char) (p * 53622 - 5)), (Object) ((p & 3) == 0), (Object) ((byte) (p * 21)), (Object) ((char) (p * 58918 - 5)), (Object) ((short) (p * 5529)), (Object) ((short) (p * 12804)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + L.v(new S29_3(null, p / 93.0, p / 65.0).m3(null, p / 34.0, p / 105.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.ToL<String> f = String::length;
      r = r * 31 + f.f("x" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J29) new S29_3(null, p / 35.0, p / 85.0)).m2(null, null, (Object) Integer.valueOf(p), p * 18100000000L, "lit86", (p & 3) == 0, (char) (p * 58256 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D29) new S29_1((char) (p * 6620 - 5), (p & 2) == 0, (byte) (p * 121), (char) (p * 43030 - 5), (short) (p * 8536), (short) (p * 10476))).m2("o" + p, "o" + p, "o" + p, p * 17400000000L, null, (p & 3) == 0, (char) (p * 31776 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F29_1 f = S29_1::t1;
      r = r * 31 + L.v(f.f((char) (p * 44354 - 5), (p & 2) == 0, (byte) (p * 2), (char) (p * 37072 - 5), (short) (p * 9797), (short) (p * 7469)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Integer, L.Gn<Integer, Integer>> f = x -> y -> x - y * 41;
      r = r * 31 + f.f(p).f(p + 3);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      F29_4 f = S29_4::t4;
      r = r * 31 + L.v(f.f((short) (p * 17654), p / 17.0, null, "o" + p, (p & 3) == 0, (byte) (p * 194)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      java.util.List<Integer> l = new java.util.ArrayList<Integer>();
      l.add(p);
      L.ToL<Integer> f = l::get;
      r = r * 31 + f.f(0);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(S29_2.class, "t2", (Object) (null), (Object) ((Object) Integer.valueOf(p)), (Object) ((Object) Integer.valueOf(p)), (Object) (p * 10100000000L), (Object) ("lit38"), (Object) ((p & 1) == 0), (Object) ((char) (p * 31114 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N29_4 f = S29_4::new;
      r = r * 31 + f.f((short) (p * 9215), p / 181.0, (Object) Integer.valueOf(p), "o" + p, (p & 3) == 0, (byte) (p * 159)).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      new S29_1((char) (p * 3641 - 5), (p & 3) == 0, (byte) (p * 23), (char) (p * 32438 - 5), (short) (p * 2716), (short) (p * 10476)).m0(p / 27.0, (p & 3) == 0, p / 192.0);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r = r * 31 + L.v(((J29) new S29_4((short) (p * 5335), p / 121.0, null, null, (p & 2) == 0, (byte) (p * 3))).m4((short) (p * 11640), p / 152.0, null, (Object) Integer.valueOf(p), (p & 1) == 0, (byte) (p * 119)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J29) new S29_2((Object) Integer.valueOf(p), (Object) Integer.valueOf(p), null, p * 18800000000L, "a" + p, (p & 3) == 0, (char) (p * 49650 - 5))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N29_2 f = S29_2::new;
      r = r * 31 + f.f(null, null, (Object) Integer.valueOf(p), p * 16300000000L, "lit20", (p & 3) == 0, (char) (p * 57263 - 5)).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F29_4 f = S29_4::t4;
      r = r * 31 + L.v(f.f((short) (p * 17557), p / 143.0, "o" + p, (Object) Integer.valueOf(p), (p & 1) == 0, (byte) (p * 172)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F29_4 f = S29_4::t4;
      r = r * 31 + L.v(f.f((short) (p * 18042), p / 43.0, (Object) Integer.valueOf(p), (Object) Integer.valueOf(p), (p & 2) == 0, (byte) (p * 55)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S29_2((Object) Integer.valueOf(p), null, "o" + p, p * 10900000000L, null, (p & 1) == 0, (char) (p * 8606 - 5)), "m3", (Object) (new int[] {p, 174}), (Object) (p / 158.0), (Object) (p / 40.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      L.Gn<String, Integer> f = Integer::parseInt;
      r = r * 31 + f.f("" + p * 21);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<int[], int[]> f = int[]::clone;
      r = r * 31 + L.v(f.f(new int[] {p, 17}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F29_4 f = new S29_2("o" + p, null, null, p * 15700000000L, "lit157", (p & 3) == 0, (char) (p * 46009 - 5))::m4;
      r = r * 31 + L.v(f.f((short) (p * 1940), p / 148.0, "o" + p, "o" + p, (p & 3) == 0, (byte) (p * 178)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S29_0(p / 165.0, (p & 1) == 0, p / 80.0), "m1", (Object) ((char) (p * 39389 - 5)), (Object) ((p & 2) == 0), (Object) ((byte) (p * 89)), (Object) ((char) (p * 4303 - 5)), (Object) ((short) (p * 1358)), (Object) ((short) (p * 194)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.ToL<Integer> f = L::wide;
      r = r * 31 + f.f(p * 26);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + S29_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J29) new S29_2("o" + p, null, null, p * 4200000000L, null, (p & 2) == 0, (char) (p * 26480 - 5))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.make(S29_3.class, (Object) (null), (Object) (p / 81.0), (Object) (p / 23.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      r = r * 31 + L.v(((D29) new S29_0(p / 60.0, (p & 2) == 0, p / 169.0)).m3(new int[] {p, 149}, p / 73.0, p / 200.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S29_2((Object) Integer.valueOf(p), (Object) Integer.valueOf(p), (Object) Integer.valueOf(p), p * 18400000000L, null, (p & 1) == 0, (char) (p * 43030 - 5)), "m1", (Object) ((char) (p * 21184 - 5)), (Object) ((p & 3) == 0), (Object) ((byte) (p * 114)), (Object) ((char) (p * 53622 - 5)), (Object) ((short) (p * 10961)), (Object) ((short) (p * 10282)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J29) new S29_4((short) (p * 8730), p / 139.0, null, null, (p & 3) == 0, (byte) (p * 136))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final Object c0 = null;
      final String c1 = null;
      final Object c2 = (Object) Integer.valueOf(p);
      F29_3 f = (x0, x1, x2) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) - L.v(x0) - L.v(x1) - L.v(x2); long r1 = r0; return (float) (r1 & 0xfffff) / 8; };
      r = r * 31 + L.v(f.f(new int[] {p, 102}, p / 10.0, p / 12.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

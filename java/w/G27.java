package w;
/* generated by tools/genlink.py */
interface J27 {
  void m0(char a0, boolean a1, String a2, boolean a3);
  boolean m1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6);
  Object m2(char a0);
  short m3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5);
  long m4(double a0, long a1);
  default long d(int p) { return p + 47; }
}
interface F27_0 { void f(char a0, boolean a1, String a2, boolean a3); }
interface F27_1 { boolean f(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6); }
interface F27_2 { Object f(char a0); }
interface F27_3 { short f(boolean a0, int a1, short a2, String a3, Object a4, boolean a5); }
interface F27_4 { long f(double a0, long a1); }
interface N27_0 { D27 f(char a0, boolean a1, String a2, boolean a3); }
interface N27_1 { D27 f(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6); }
interface N27_2 { D27 f(char a0); }
interface N27_3 { D27 f(boolean a0, int a1, short a2, String a3, Object a4, boolean a5); }
interface N27_4 { D27 f(double a0, long a1); }
abstract class D27 {
  long base;
  public abstract void m0(char a0, boolean a1, String a2, boolean a3);
  public boolean m1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) throws RuntimeException { long r = 5; long acc; return (r & 4) == 0; }
  public Object m2(char a0) throws RuntimeException { long r = 5; long acc; return (r & 7) == 0 ? null : (Object) Long.valueOf(r); }
  public abstract short m3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5);
  public long m4(double a0, long a1) throws RuntimeException { long r = 5; long acc; return r; }
}
class S27_0 extends D27 implements J27 {
  float f0 = 3 * 130.25f;
  int[] f1 = new int[] {3, 117};
  public long f2 = 3 * 9900000000L;
  byte f3 = (byte) (3 * 1);
  boolean f4 = (3 & 3) == 0;
  static float s0 = 3 * 154.25f;
  static volatile int[] s1 = null;
  static volatile long s2 = 3 * 5800000000L;
  static long acc;
  S27_0(char a0, boolean a1, String a2, boolean a3) {
    long r = 63;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    base = r;
  }
  synchronized public void m0(char a0, boolean a1, String a2, boolean a3) {
    long r = 65;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    G27.acc = r;
  }
  static void t0(char a0, boolean a1, String a2, boolean a3) {
    long r = 4;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    G27.acc = r;
  }
  public boolean m1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 45;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 4) == 0;
  }
  static synchronized boolean t1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 30;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 4) == 0;
  }
  synchronized public Object m2(char a0) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t2(char a0) {
    long r = 59;
    r = r * 31 + L.v(a0);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public short m3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (short) r;
  }
  static private short t3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (short) r;
  }
  public long m4(double a0, long a1) {
    long r = 6;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return r;
  }
  static long t4(double a0, long a1) {
    long r = 64;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return r;
  }
  static long fields(int p) {
    S27_0 o = new S27_0((char) (p * 5958 - 5), (p & 3) == 0, "a" + p, (p & 2) == 0);
    long r = 1;
    r = r * 31 + L.set(o, "f4", new Object[] {(p & 3) == 0}[0]);
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.set(o, "f3", new Object[] {(byte) (p * 67)}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f3", new Object[] {(byte) (p * 19)}[0]);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S27_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S27_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S27_0.class, "s2");
    return r;
  }
}
class S27_1 extends D27 implements J27 {
  public Object f0 = null;
  String f1 = "lit69";
  boolean f2 = (3 & 3) == 0;
  int[] f3 = null;
  short f4 = (short) (3 * 18042);
  static volatile Object s0 = (Object) Integer.valueOf(3);
  static String s1 = null;
  static boolean s2 = (3 & 2) == 0;
  static long acc;
  S27_1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 99;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    base = r;
  }
  public void m0(char a0, boolean a1, String a2, boolean a3) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    G27.acc = r;
  }
  static void t0(char a0, boolean a1, String a2, boolean a3) {
    long r = 18;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    G27.acc = r;
  }
  public boolean m1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 10;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  static boolean t1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 67;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  synchronized public Object m2(char a0) {
    long r = 66;
    r = r * 31 + L.v(a0);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t2(char a0) {
    long r = 25;
    r = r * 31 + L.v(a0);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public short m3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 33;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (short) r;
  }
  static private short t3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (short) r;
  }
  synchronized public long m4(double a0, long a1) {
    long r = 87;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return r;
  }
  static synchronized long t4(double a0, long a1) {
    long r = 84;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return r;
  }
  static long fields(int p) {
    S27_1 o = new S27_1((short) (p * 2619), null, p * 13800000000L, p * 300000000L, p / 188.0, null, null);
    long r = 1;
    r = r * 31 + L.set(o, "f3", null);
    r = r * 31 + L.get(o, "f4");
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f3", null);
    r = r * 31 + L.get(o, "f4");
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.get(o, "f3");
    r = r * 31 + L.v(s0) + L.get(S27_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S27_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S27_1.class, "s2");
    return r;
  }
}
class S27_2 extends D27 implements J27 {
  public byte f0 = (byte) (3 * 16);
  volatile int[] f1 = new int[] {3, 78};
  volatile double f2 = 3 / 13.0;
  short f3 = (short) (3 * 11543);
  volatile boolean f4 = (3 & 1) == 0;
  static byte s0 = (byte) (3 * 147);
  static volatile int[] s1 = null;
  static double s2 = 3 / 32.0;
  static long acc;
  S27_2(char a0) {
    long r = 1;
    r = r * 31 + L.v(a0);
    base = r;
  }
  synchronized public void m0(char a0, boolean a1, String a2, boolean a3) {
    long r = 4;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    G27.acc = r;
  }
  static void t0(char a0, boolean a1, String a2, boolean a3) {
    long r = 87;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    G27.acc = r;
  }
  synchronized public boolean m1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 67;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 4) == 0;
  }
  static private boolean t1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 36;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 4) == 0;
  }
  public Object m2(char a0) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t2(char a0) {
    long r = 95;
    r = r * 31 + L.v(a0);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public short m3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 28;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  static short t3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  public long m4(double a0, long a1) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t4(double a0, long a1) {
    long r = 37;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long fields(int p) {
    S27_2 o = new S27_2((char) (p * 2979 - 5));
    long r = 1;
    r = r * 31 + L.get(o, "f3");
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f2");
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f2");
    o.f2 += p;
    r += L.v(o.f2++);
    o.f3 = (short) (p * 97);
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f4", new Object[] {(p & 2) == 0}[0]);
    r = r * 31 + L.v(s0) + L.get(S27_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S27_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S27_2.class, "s2");
    return r;
  }
}
class S27_3 extends D27 implements J27 {
  volatile long f0 = 3 * 6700000000L;
  volatile short f1 = (short) (3 * 9700);
  String f2 = "a" + 3;
  public Object f3 = null;
  public boolean f4 = (3 & 2) == 0;
  static volatile long s0 = 3 * 11900000000L;
  static volatile short s1 = (short) (3 * 5917);
  static String s2 = "a" + 3;
  static long acc;
  S27_3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 93;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public void m0(char a0, boolean a1, String a2, boolean a3) {
    long r = 90;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    G27.acc = r;
  }
  static void t0(char a0, boolean a1, String a2, boolean a3) {
    long r = 37;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    G27.acc = r;
  }
  public boolean m1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 4) == 0;
  }
  static synchronized boolean t1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 4) == 0;
  }
  synchronized public Object m2(char a0) {
    long r = 73;
    r = r * 31 + L.v(a0);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t2(char a0) {
    long r = 67;
    r = r * 31 + L.v(a0);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public short m3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  static short t3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 35;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  public long m4(double a0, long a1) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return r;
  }
  static synchronized long t4(double a0, long a1) {
    long r = 96;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return r;
  }
  static long fields(int p) {
    S27_3 o = new S27_3((p & 1) == 0, p * 10799028, (short) (p * 3783), "lit138", null, (p & 2) == 0);
    long r = 1;
    r = r * 31 + L.set(o, "f3", (Object) Integer.valueOf(p));
    r = r * 31 + L.set(o, "f3", (Object) Integer.valueOf(p));
    r = r * 31 + L.set(o, "f1", new Object[] {(short) (p * 7372)}[0]);
    o.f1 += p;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f2", "lit43");
    r = r * 31 + L.v(s0) + L.get(S27_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S27_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S27_3.class, "s2");
    return r;
  }
}
class S27_4 extends D27 implements J27 {
  float f0 = 3 * 91.25f;
  Object f1 = (Object) Integer.valueOf(3);
  volatile String f2 = "a" + 3;
  public boolean f3 = (3 & 1) == 0;
  public int[] f4 = new int[] {3, 77};
  static volatile float s0 = 3 * 137.25f;
  static Object s1 = "o" + 3;
  static String s2 = null;
  static long acc;
  S27_4(double a0, long a1) {
    long r = 49;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public void m0(char a0, boolean a1, String a2, boolean a3) {
    long r = 93;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    G27.acc = r;
  }
  static void t0(char a0, boolean a1, String a2, boolean a3) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    G27.acc = r;
  }
  synchronized public boolean m1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 4;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 4) == 0;
  }
  static synchronized boolean t1(short a0, String a1, long a2, long a3, double a4, int[] a5, int[] a6) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 4) == 0;
  }
  public Object m2(char a0) {
    long r = 56;
    r = r * 31 + L.v(a0);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t2(char a0) {
    long r = 12;
    r = r * 31 + L.v(a0);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public short m3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 55;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (short) r;
  }
  static short t3(boolean a0, int a1, short a2, String a3, Object a4, boolean a5) {
    long r = 30;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (short) r;
  }
  public long m4(double a0, long a1) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return r;
  }
  static long t4(double a0, long a1) {
    long r = 56;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return r;
  }
  static long fields(int p) {
    S27_4 o = new S27_4(p / 61.0, p * 8300000000L);
    long r = 1;
    r = r * 31 + L.get(o, "f2");
    o.f3 = (p & 2) == 0;
    r = r * 31 + L.v(o.f3);
    o.f4 = null;
    r = r * 31 + L.v(o.f4);
    r = r * 31 + L.set(o, "f4", new int[] {p, 123});
    r = r * 31 + L.get(o, "f4");
    o.f4 = null;
    r = r * 31 + L.v(o.f4);
    r = r * 31 + L.v(s0) + L.get(S27_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S27_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S27_4.class, "s2");
    return r;
  }
}
public class G27 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      L.Gn2<String, String, Integer> f = String::indexOf;
      r = r * 31 + f.f("xy" + p, "" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S27_1((short) (p * 12901), "lit58", p * 8500000000L, p * 16000000000L, p / 195.0, null, null), "m4", (Object) (p / 64.0), (Object) (p * 100000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      Runnable f = (Runnable & java.io.Serializable) () -> L.il(p);
      f.run();
      r = r * 31 + (f instanceof java.io.Serializable ? 1 : 2);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S27_4(p / 84.0, p * 9200000000L), "m1", (Object) ((short) (p * 10476)), (Object) (null), (Object) (p * 18100000000L), (Object) (p * 3200000000L), (Object) (p / 121.0), (Object) (null), (Object) (null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.v(new S27_3((p & 1) == 0, p * 10799028, (short) (p * 8827), "a" + p, "o" + p, (p & 3) == 0).m1((short) (p * 17557), "a" + p, p * 5400000000L, p * 10400000000L, p / 22.0, new int[] {p, 185}, new int[] {p, 109}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S27_3((p & 2) == 0, p * 15198632, (short) (p * 5432), "a" + p, "o" + p, (p & 2) == 0), "m4", (Object) (p / 23.0), (Object) (p * 18900000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.make(S27_0.class, (Object) ((char) (p * 53622 - 5)), (Object) ((p & 3) == 0), (Object) ("a" + p), (Object) ((p & 3) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final int c0 = p * 6999370;
      F27_4 f = (x0, x1) -> { long r0 = p + L.v(c0) - L.v(x0) - L.v(x1); long r1 = r0; return r1; };
      r = r * 31 + L.v(f.f(p / 27.0, p * 7700000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + L.call(S27_3.class, "t3", (Object) ((p & 3) == 0), (Object) (p * 18498335), (Object) ((short) (p * 16393)), (Object) ("lit9"), (Object) ("o" + p), (Object) ((p & 3) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S27_4.t4(p / 70.0, p * 13700000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N27_4 f = S27_4::new;
      r = r * 31 + f.f(p / 70.0, p * 15300000000L).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      java.util.List<Integer> l = new java.util.ArrayList<Integer>();
      l.add(p);
      L.ToL<Integer> f = l::get;
      r = r * 31 + f.f(0);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      L.ToL<Integer> f = L::wide;
      r = r * 31 + f.f(p * 37);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J27) new S27_1((short) (p * 6499), "a" + p, p * 11400000000L, p * 8300000000L, p / 47.0, new int[] {p, 94}, null)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J27) L.full(J27.class)).m1((short) (p * 11349), null, p * 15900000000L, p * 15600000000L, p / 130.0, new int[] {p, 130}, null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      final int c0 = p * 2599766;
      F27_4 f = (x0, x1) -> { long r0 = p + L.v(c0) - L.v(x0) - L.v(x1); long r1 = r0; return r1; };
      r = r * 31 + L.v(f.f(p / 92.0, p * 11200000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N27_3 f = S27_3::new;
      r = r * 31 + f.f((p & 1) == 0, p * 19398254, (short) (p * 16684), "lit51", "o" + p, (p & 2) == 0).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.ToL<String> f = String::length;
      r = r * 31 + f.f("x" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F27_3 f = S27_3::t3;
      r = r * 31 + L.v(f.f((p & 1) == 0, p * 9199172, (short) (p * 7566), "lit62", null, (p & 1) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N27_3 f = S27_3::new;
      r = r * 31 + f.f((p & 3) == 0, p * 14498695, (short) (p * 15617), null, null, (p & 3) == 0).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.v(((J27) L.full(J27.class)).m2((char) (p * 59580 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J27) new S27_3((p & 1) == 0, p * 2199802, (short) (p * 9700), "a" + p, (Object) Integer.valueOf(p), (p & 3) == 0)).m4(p / 4.0, p * 12000000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J27) new S27_0((char) (p * 56932 - 5), (p & 2) == 0, "a" + p, (p & 2) == 0)).m3((p & 2) == 0, p * 12998830, (short) (p * 16975), "a" + p, (Object) Integer.valueOf(p), (p & 1) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      ((D27) new S27_3((p & 1) == 0, p * 3499685, (short) (p * 9700), "a" + p, "o" + p, (p & 1) == 0)).m0((char) (p * 13240 - 5), (p & 2) == 0, "a" + p, (p & 3) == 0);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      java.util.List<Integer> l = new java.util.ArrayList<Integer>();
      l.add(p);
      L.ToL<Integer> f = l::get;
      r = r * 31 + f.f(0);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S27_3.t3((p & 1) == 0, p * 10399064, (short) (p * 14938), "a" + p, null, (p & 2) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(new S27_1((short) (p * 13580), "a" + p, p * 18900000000L, p * 15800000000L, p / 178.0, null, new int[] {p, 172}).m4(p / 112.0, p * 3500000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, Integer> f = Integer::parseInt;
      r = r * 31 + f.f("" + p * 50);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S27_2.t2((char) (p * 29459 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      ((J27) new S27_1((short) (p * 5335), null, p * 13800000000L, p * 10600000000L, p / 157.0, null, null)).m0((char) (p * 63221 - 5), (p & 1) == 0, "a" + p, (p & 1) == 0);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<Object, Long> f = x -> { switch (x.hashCode() & 1) { case 0: return 5L; default: return (long) 24; } };
      r = r * 31 + f.f("q" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Object, Long> f = x -> { switch (x.hashCode() & 1) { case 0: return 5L; default: return (long) 33; } };
      r = r * 31 + f.f("q" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

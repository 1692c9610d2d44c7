package w;
/* generated by tools/genlink.py */
interface J25 {
  long m0(boolean a0, short a1, long a2, int[] a3);
  long m1(byte a0, String a1, int a2, short a3, long a4);
  long m2(byte a0, short a1, float a2);
  short m3(int[] a0, String a1, Object a2, byte a3);
  Object m4(short a0, byte a1, short a2);
  default long d(int p) { return p + 35; }
}
interface F25_0 { long f(boolean a0, short a1, long a2, int[] a3); }
interface F25_1 { long f(byte a0, String a1, int a2, short a3, long a4); }
interface F25_2 { long f(byte a0, short a1, float a2); }
interface F25_3 { short f(int[] a0, String a1, Object a2, byte a3); }
interface F25_4 { Object f(short a0, byte a1, short a2); }
interface N25_0 { D25 f(boolean a0, short a1, long a2, int[] a3); }
interface N25_1 { D25 f(byte a0, String a1, int a2, short a3, long a4); }
interface N25_2 { D25 f(byte a0, short a1, float a2); }
interface N25_3 { D25 f(int[] a0, String a1, Object a2, byte a3); }
interface N25_4 { D25 f(short a0, byte a1, short a2); }
abstract class D25 {
  long base;
  public abstract long m0(boolean a0, short a1, long a2, int[] a3);
  public abstract long m1(byte a0, String a1, int a2, short a3, long a4);
  public abstract long m2(byte a0, short a1, float a2);
  public abstract short m3(int[] a0, String a1, Object a2, byte a3);
  public Object m4(short a0, byte a1, short a2) throws RuntimeException { long r = 5; long acc; return (r & 7) == 0 ? null : (Object) Long.valueOf(r); }
}
class S25_0 extends D25 implements J25 {
  public int f0 = 3 * 9899109;
  public long f1 = 3 * 5300000000L;
  short f2 = (short) (3 * 9603);
  public String f3 = "a" + 3;
  volatile double f4 = 3 / 67.0;
  static int s0 = 3 * 13098821;
  static long s1 = 3 * 200000000L;
  static short s2 = (short) (3 * 10961);
  static long acc;
  S25_0(boolean a0, short a1, long a2, int[] a3) {
    long r = 73;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public long m0(boolean a0, short a1, long a2, int[] a3) {
    long r = 78;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t0(boolean a0, short a1, long a2, int[] a3) {
    long r = 27;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public long m1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static synchronized long t1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  synchronized public long m2(byte a0, short a1, float a2) {
    long r = 70;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return r;
  }
  static synchronized long t2(byte a0, short a1, float a2) {
    long r = 94;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return r;
  }
  synchronized public short m3(int[] a0, String a1, Object a2, byte a3) {
    long r = 77;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  static short t3(int[] a0, String a1, Object a2, byte a3) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  synchronized public Object m4(short a0, byte a1, short a2) {
    long r = 50;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t4(short a0, byte a1, short a2) {
    long r = 55;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static long fields(int p) {
    S25_0 o = new S25_0((p & 2) == 0, (short) (p * 15229), p * 17400000000L, null);
    long r = 1;
    r = r * 31 + L.set(o, "f1", new Object[] {p * 1600000000L}[0]);
    o.f1 += 3;
    r += L.v(o.f1++);
    o.f3 = null;
    r = r * 31 + L.v(o.f3);
    r = r * 31 + L.set(o, "f4", new Object[] {p / 34.0}[0]);
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f1", new Object[] {p * 11700000000L}[0]);
    o.f1 += p;
    r += L.v(o.f1++);
    r = r * 31 + L.get(o, "f2");
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.v(s0) + L.get(S25_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S25_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S25_0.class, "s2");
    return r;
  }
}
class S25_1 extends D25 implements J25 {
  volatile long f0 = 3 * 14600000000L;
  public int[] f1 = null;
  public int f2 = 3 * 18998290;
  volatile float f3 = 3 * 196.25f;
  volatile Object f4 = "o" + 3;
  static volatile long s0 = 3 * 8500000000L;
  static int[] s1 = new int[] {3, 183};
  static int s2 = 3 * 3099721;
  static long acc;
  S25_1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 42;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    base = r;
  }
  public long m0(boolean a0, short a1, long a2, int[] a3) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return r;
  }
  static private long t0(boolean a0, short a1, long a2, int[] a3) {
    long r = 82;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return r;
  }
  synchronized public long m1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 81;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return r;
  }
  static long t1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 98;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return r;
  }
  public long m2(byte a0, short a1, float a2) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return r;
  }
  static private long t2(byte a0, short a1, float a2) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return r;
  }
  public short m3(int[] a0, String a1, Object a2, byte a3) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (short) r;
  }
  static synchronized short t3(int[] a0, String a1, Object a2, byte a3) {
    long r = 82;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (short) r;
  }
  synchronized public Object m4(short a0, byte a1, short a2) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t4(short a0, byte a1, short a2) {
    long r = 54;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static long fields(int p) {
    S25_1 o = new S25_1((byte) (p * 33), "a" + p, p * 18898299, (short) (p * 11446), p * 17800000000L);
    long r = 1;
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.set(o, "f3", new Object[] {p * 48.25f}[0]);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S25_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S25_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S25_1.class, "s2");
    return r;
  }
}
class S25_2 extends D25 implements J25 {
  double f0 = 3 / 175.0;
  float f1 = 3 * 25.25f;
  String f2 = null;
  volatile byte f3 = (byte) (3 * 142);
  int f4 = 3 * 11598956;
  static double s0 = 3 / 106.0;
  static float s1 = 3 * 35.25f;
  static volatile String s2 = "lit56";
  static long acc;
  S25_2(byte a0, short a1, float a2) {
    long r = 55;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    base = r;
  }
  public long m0(boolean a0, short a1, long a2, int[] a3) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return r;
  }
  static long t0(boolean a0, short a1, long a2, int[] a3) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return r;
  }
  public long m1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return r;
  }
  static synchronized long t1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return r;
  }
  synchronized public long m2(byte a0, short a1, float a2) {
    long r = 80;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return r;
  }
  static long t2(byte a0, short a1, float a2) {
    long r = 21;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return r;
  }
  public short m3(int[] a0, String a1, Object a2, byte a3) {
    long r = 64;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  static private short t3(int[] a0, String a1, Object a2, byte a3) {
    long r = 97;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  synchronized public Object m4(short a0, byte a1, short a2) {
    long r = 81;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t4(short a0, byte a1, short a2) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static long fields(int p) {
    S25_2 o = new S25_2((byte) (p * 79), (short) (p * 9991), p * 72.25f);
    long r = 1;
    r = r * 31 + L.get(o, "f2");
    r = r * 31 + L.set(o, "f4", new Object[] {p * 11198992}[0]);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f3", new Object[] {(byte) (p * 31)}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S25_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S25_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S25_2.class, "s2");
    return r;
  }
}
class S25_3 extends D25 implements J25 {
  volatile double f0 = 3 / 161.0;
  volatile float f1 = 3 * 120.25f;
  public char f2 = (char) (3 * 6620 - 5);
  volatile boolean f3 = (3 & 2) == 0;
  volatile Object f4 = (Object) Integer.valueOf(3);
  static double s0 = 3 / 71.0;
  static volatile float s1 = 3 * 50.25f;
  static char s2 = (char) (3 * 44023 - 5);
  static long acc;
  S25_3(int[] a0, String a1, Object a2, byte a3) {
    long r = 94;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    base = r;
  }
  public long m0(boolean a0, short a1, long a2, int[] a3) {
    long r = 57;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return r;
  }
  static synchronized long t0(boolean a0, short a1, long a2, int[] a3) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return r;
  }
  public long m1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 93;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return r;
  }
  static long t1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 23;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return r;
  }
  synchronized public long m2(byte a0, short a1, float a2) {
    long r = 67;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return r;
  }
  static synchronized long t2(byte a0, short a1, float a2) {
    long r = 20;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return r;
  }
  synchronized public short m3(int[] a0, String a1, Object a2, byte a3) {
    long r = 32;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  static short t3(int[] a0, String a1, Object a2, byte a3) {
    long r = 76;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  synchronized public Object m4(short a0, byte a1, short a2) {
    long r = 48;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t4(short a0, byte a1, short a2) {
    long r = 37;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static long fields(int p) {
    S25_3 o = new S25_3(new int[] {p, 69}, "a" + p, null, (byte) (p * 44));
    long r = 1;
    r = r * 31 + L.set(o, "f1", new Object[] {p * 44.25f}[0]);
    o.f1 += 3;
    r += L.v(o.f1++);
    o.f4 = "o" + p;
    r = r * 31 + L.v(o.f4);
    r = r * 31 + L.get(o, "f2");
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f4");
    o.f4 = "o" + p;
    r = r * 31 + L.v(o.f4);
    r = r * 31 + L.v(s0) + L.get(S25_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S25_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S25_3.class, "s2");
    return r;
  }
}
class S25_4 extends D25 implements J25 {
  volatile boolean f0 = (3 & 3) == 0;
  volatile long f1 = 3 * 8200000000L;
  volatile byte f2 = (byte) (3 * 93);
  public float f3 = 3 * 153.25f;
  volatile int[] f4 = null;
  static boolean s0 = (3 & 3) == 0;
  static long s1 = 3 * 13800000000L;
  static byte s2 = (byte) (3 * 72);
  static long acc;
  S25_4(short a0, byte a1, short a2) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    base = r;
  }
  synchronized public long m0(boolean a0, short a1, long a2, int[] a3) {
    long r = 41;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static private long t0(boolean a0, short a1, long a2, int[] a3) {
    long r = 66;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public long m1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 78;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return r;
  }
  static private long t1(byte a0, String a1, int a2, short a3, long a4) {
    long r = 32;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return r;
  }
  synchronized public long m2(byte a0, short a1, float a2) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return r;
  }
  static long t2(byte a0, short a1, float a2) {
    long r = 34;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return r;
  }
  synchronized public short m3(int[] a0, String a1, Object a2, byte a3) {
    long r = 16;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (short) r;
  }
  static private short t3(int[] a0, String a1, Object a2, byte a3) {
    long r = 59;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (short) r;
  }
  public Object m4(short a0, byte a1, short a2) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t4(short a0, byte a1, short a2) {
    long r = 47;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static long fields(int p) {
    S25_4 o = new S25_4((short) (p * 15520), (byte) (p * 145), (short) (p * 3298));
    long r = 1;
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.set(o, "f3", new Object[] {p * 35.25f}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    o.f0 = (p & 2) == 0;
    r = r * 31 + L.v(o.f0);
    o.f1 = p * 4300000000L;
    r = r * 31 + L.v(o.f1);
    o.f1 += p;
    r += L.v(o.f1++);
    o.f1 = p * 3700000000L;
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f3", new Object[] {p * 177.25f}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S25_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S25_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S25_4.class, "s2");
    return r;
  }
}
public class G25 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + L.v(((J25) L.full(J25.class)).m4((short) (p * 17557), (byte) (p * 75), (short) (p * 1746)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S25_4.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F25_4 f = new S25_1((byte) (p * 70), null, p * 14098731, (short) (p * 4171), p * 5300000000L)::m4;
      r = r * 31 + L.v(f.f((short) (p * 12222), (byte) (p * 51), (short) (p * 5044)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S25_4.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J25) new S25_1((byte) (p * 44), "a" + p, p * 11099001, (short) (p * 4074), p * 13100000000L)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S25_0.class, "t0", (Object) ((p & 2) == 0), (Object) ((short) (p * 8148)), (Object) (p * 12700000000L), (Object) (null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.v(S25_4.t4((short) (p * 3880), (byte) (p * 171), (short) (p * 970)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(new S25_0((p & 3) == 0, (short) (p * 19109), p * 15600000000L, new int[] {p, 116}).m1((byte) (p * 155), null, p * 6999370, (short) (p * 16005), p * 8200000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.IntL f = L::bump;
      r = r * 31 + f.f(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      final String c0 = "lit187";
      final int[] c1 = null;
      F25_2 f = (x0, x1, x2) -> { long r0 = p + L.v(c0) + L.v(c1) - L.v(x0) - L.v(x1) - L.v(x2); long r1 = r0; return r1; };
      r = r * 31 + L.v(f.f((byte) (p * 84), (short) (p * 17848), p * 56.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(new S25_1((byte) (p * 44), null, p * 17698407, (short) (p * 12222), p * 15600000000L).m1((byte) (p * 103), "lit172", p * 10199082, (short) (p * 19206), p * 18600000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S25_0((p & 3) == 0, (short) (p * 11349), p * 19000000000L, new int[] {p, 127}), "m4", (Object) ((short) (p * 19012)), (Object) ((byte) (p * 53)), (Object) ((short) (p * 9894)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final String c0 = null;
      final int[] c1 = null;
      F25_2 f = (x0, x1, x2) -> { long r0 = p + L.v(c0) + L.v(c1) - L.v(x0) - L.v(x1) - L.v(x2); long r1 = r0; return r1; };
      r = r * 31 + L.v(f.f((byte) (p * 187), (short) (p * 5917), p * 57.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r = r * 31 + L.call(S25_1.class, "t1", (Object) ((byte) (p * 176)), (Object) (null), (Object) (p * 8399244), (Object) ((short) (p * 15811)), (Object) (p * 12800000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.ToD<Character> f = L::dbl;
      r = r * 31 + L.v(f.f((char) (p + 70)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J25) new S25_4((short) (p * 3007), (byte) (p * 171), (short) (p * 10961))).m3(null, "a" + p, null, (byte) (p * 184)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(S25_3.class, "t3", (Object) (new int[] {p, 79}), (Object) ("lit69"), (Object) ((Object) Integer.valueOf(p)), (Object) ((byte) (p * 33)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final int[] c0 = new int[] {p, 179};
      final float c1 = p * 179.25f;
      final short c2 = (short) (p * 14938);
      F25_4 f = (x0, x1, x2) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) - L.v(x0) - L.v(x1) - L.v(x2); long r1 = r0; return (r1 & 7) == 0 ? null : (Object) Long.valueOf(r1); };
      r = r * 31 + L.v(f.f((short) (p * 5141), (byte) (p * 175), (short) (p * 291)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r = r * 31 + L.v(((J25) L.full(J25.class)).m3(new int[] {p, 130}, "lit25", (Object) Integer.valueOf(p), (byte) (p * 150)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.make(S25_1.class, (Object) ((byte) (p * 19)), (Object) (null), (Object) (p * 5299523), (Object) ((short) (p * 7954)), (Object) (p * 12500000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J25) new S25_1((byte) (p * 3), "lit119", p * 19498245, (short) (p * 5917), p * 16900000000L)).m4((short) (p * 1164), (byte) (p * 162), (short) (p * 8730)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.call(new S25_0((p & 3) == 0, (short) (p * 11834), p * 19400000000L, new int[] {p, 126}), "m3", (Object) (new int[] {p, 123}), (Object) ("lit26"), (Object) ((Object) Integer.valueOf(p)), (Object) ((byte) (p * 110)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<String, StringBuilder> f = StringBuilder::new;
      r = r * 31 + f.f("s" + p).length();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F25_0 f = new S25_4((short) (p * 3104), (byte) (p * 21), (short) (p * 13289))::m0;
      r = r * 31 + L.v(f.f((p & 1) == 0, (short) (p * 2425), p * 12200000000L, new int[] {p, 163}));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + L.make(S25_2.class, (Object) ((byte) (p * 195)), (Object) ((short) (p * 3201)), (Object) (p * 162.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(S25_1.class, "t1", (Object) ((byte) (p * 94)), (Object) (null), (Object) (p * 5599496), (Object) ((short) (p * 8439)), (Object) (p * 8000000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S25_1.t1((byte) (p * 183), "lit137", p * 10199082, (short) (p * 19109), p * 19400000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J25) L.full(J25.class)).m4((short) (p * 18333), (byte) (p * 49), (short) (p * 8924)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D25) new S25_0((p & 2) == 0, (short) (p * 13871), p * 2200000000L, new int[] {p, 55})).m2((byte) (p * 19), (short) (p * 18430), p * 77.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      r = r * 31 + L.v(((J25) new S25_3(null, null, "o" + p, (byte) (p * 136))).m4((short) (p * 11058), (byte) (p * 140), (short) (p * 11640)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J25) new S25_2((byte) (p * 174), (short) (p * 7178), p * 59.25f)).m0((p & 3) == 0, (short) (p * 4462), p * 18100000000L, null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J25) new S25_1((byte) (p * 9), "a" + p, p * 6899379, (short) (p * 13386), p * 4800000000L)).m4((short) (p * 8051), (byte) (p * 126), (short) (p * 4656)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

package w;
/* generated by tools/genlink.py */
interface J32 {
  char m0();
  short m1(long a0);
  float m2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8);
  short m3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6);
  int[] m4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11);
  default long d(int p) { return p + 59; }
}
interface F32_0 { char f(); }
interface F32_1 { short f(long a0); }
interface F32_2 { float f(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8); }
interface F32_3 { short f(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6); }
interface F32_4 { int[] f(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11); }
interface N32_0 { D32 f(); }
interface N32_1 { D32 f(long a0); }
interface N32_2 { D32 f(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8); }
interface N32_3 { D32 f(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6); }
interface N32_4 { D32 f(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11); }
abstract class D32 {
  long base;
  public abstract char m0();
  public abstract short m1(long a0);
  public float m2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) throws RuntimeException { long r = 5; long acc; return (float) (r & 0xfffff) / 8; }
  public short m3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) throws RuntimeException { long r = 5; long acc; return (short) r; }
  public abstract int[] m4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11);
}
class S32_0 extends D32 implements J32 {
  byte f0 = (byte) (3 * 135);
  long f1 = 3 * 5400000000L;
  volatile float f2 = 3 * 9.25f;
  public int[] f3 = null;
  public boolean f4 = (3 & 2) == 0;
  static byte s0 = (byte) (3 * 157);
  static volatile long s1 = 3 * 5400000000L;
  static volatile float s2 = 3 * 198.25f;
  static long acc;
  S32_0() {
    long r = 73;
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public char m0() {
    long r = 24;
    r += base;
    return (char) r;
  }
  static char t0() {
    long r = 43;
    return (char) r;
  }
  public short m1(long a0) {
    long r = 45;
    r = r * 31 + L.v(a0);
    r += base;
    return (short) r;
  }
  static synchronized short t1(long a0) {
    long r = 85;
    r = r * 31 + L.v(a0);
    return (short) r;
  }
  public float m2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 43;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static float t2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 94;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  public short m3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 40;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (short) r;
  }
  static synchronized short t3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 41;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (short) r;
  }
  public int[] m4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 1;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return new int[] {(int) r, 4};
  }
  static synchronized int[] t4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 94;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return new int[] {(int) r, 4};
  }
  static long fields(int p) {
    S32_0 o = new S32_0();
    long r = 1;
    r = r * 31 + L.get(o, "f0");
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.get(o, "f3");
    r = r * 31 + L.get(o, "f0");
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.set(o, "f2", new Object[] {p * 45.25f}[0]);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.v(s0) + L.get(S32_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S32_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S32_0.class, "s2");
    return r;
  }
}
class S32_1 extends D32 implements J32 {
  boolean f0 = (3 & 1) == 0;
  public char f1 = (char) (3 * 19860 - 5);
  volatile short f2 = (short) (3 * 4074);
  volatile float f3 = 3 * 162.25f;
  public Object f4 = (Object) Integer.valueOf(3);
  static boolean s0 = (3 & 1) == 0;
  static char s1 = (char) (3 * 3641 - 5);
  static short s2 = (short) (3 * 14550);
  static long acc;
  S32_1(long a0) {
    long r = 6;
    r = r * 31 + L.v(a0);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public char m0() {
    long r = 11;
    r += base;
    return (char) r;
  }
  static private char t0() {
    long r = 71;
    return (char) r;
  }
  public short m1(long a0) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r += base;
    return (short) r;
  }
  static short t1(long a0) {
    long r = 77;
    r = r * 31 + L.v(a0);
    return (short) r;
  }
  synchronized public float m2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 84;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public short m3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 47;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  static synchronized short t3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  public int[] m4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 40;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return new int[] {(int) r, 4};
  }
  static int[] t4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 32;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return new int[] {(int) r, 4};
  }
  static long fields(int p) {
    S32_1 o = new S32_1(p * 5000000000L);
    long r = 1;
    r = r * 31 + L.get(o, "f1");
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f3", new Object[] {p * 121.25f}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    o.f4 = (Object) Integer.valueOf(p);
    r = r * 31 + L.v(o.f4);
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S32_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S32_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S32_1.class, "s2");
    return r;
  }
}
class S32_2 extends D32 implements J32 {
  volatile long f0 = 3 * 5700000000L;
  volatile String f1 = null;
  float f2 = 3 * 55.25f;
  volatile byte f3 = (byte) (3 * 59);
  boolean f4 = (3 & 2) == 0;
  static volatile long s0 = 3 * 11600000000L;
  static volatile String s1 = "a" + 3;
  static volatile float s2 = 3 * 157.25f;
  static long acc;
  S32_2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    base = r;
  }
  public char m0() {
    long r = 30;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static private char t0() {
    long r = 41;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  synchronized public short m1(long a0) {
    long r = 97;
    r = r * 31 + L.v(a0);
    r += base;
    return (short) r;
  }
  static private short t1(long a0) {
    long r = 96;
    r = r * 31 + L.v(a0);
    return (short) r;
  }
  synchronized public float m2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static float t2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 56;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public short m3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (short) r;
  }
  static private short t3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 11;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (short) r;
  }
  synchronized public int[] m4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return new int[] {(int) r, 4};
  }
  static int[] t4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return new int[] {(int) r, 4};
  }
  static long fields(int p) {
    S32_2 o = new S32_2((Object) Integer.valueOf(p), "o" + p, p * 19900000000L, (byte) (p * 31), (short) (p * 15326), (short) (p * 13289), (short) (p * 5141), (p & 1) == 0, p / 46.0);
    long r = 1;
    r = r * 31 + L.set(o, "f1", null);
    o.f2 = p * 14.25f;
    r = r * 31 + L.v(o.f2);
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f2");
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.v(s0) + L.get(S32_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S32_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S32_2.class, "s2");
    return r;
  }
}
class S32_3 extends D32 implements J32 {
  volatile short f0 = (short) (3 * 13968);
  public byte f1 = (byte) (3 * 52);
  float f2 = 3 * 159.25f;
  long f3 = 3 * 2100000000L;
  public Object f4 = "o" + 3;
  static volatile short s0 = (short) (3 * 9506);
  static byte s1 = (byte) (3 * 189);
  static float s2 = 3 * 112.25f;
  static long acc;
  S32_3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 86;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    base = r;
  }
  public char m0() {
    long r = 35;
    r += base;
    return (char) r;
  }
  static synchronized char t0() {
    long r = 99;
    return (char) r;
  }
  public short m1(long a0) {
    long r = 66;
    r = r * 31 + L.v(a0);
    r += base;
    return (short) r;
  }
  static synchronized short t1(long a0) {
    long r = 5;
    r = r * 31 + L.v(a0);
    return (short) r;
  }
  synchronized public float m2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static private float t2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 28;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  public short m3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 24;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (short) r;
  }
  static short t3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (short) r;
  }
  synchronized public int[] m4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 70;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return new int[] {(int) r, 4};
  }
  static synchronized int[] t4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 48;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return new int[] {(int) r, 4};
  }
  static long fields(int p) {
    S32_3 o = new S32_3(p * 18600000000L, p * 15300000000L, p * 6200000000L, "a" + p, (short) (p * 6111), (byte) (p * 11), (byte) (p * 67));
    long r = 1;
    r = r * 31 + L.set(o, "f0", new Object[] {(short) (p * 19109)}[0]);
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.set(o, "f4", (Object) Integer.valueOf(p));
    r = r * 31 + L.v(s0) + L.get(S32_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S32_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S32_3.class, "s2");
    return r;
  }
}
class S32_4 extends D32 implements J32 {
  boolean f0 = (3 & 1) == 0;
  double f1 = 3 / 126.0;
  Object f2 = "o" + 3;
  volatile short f3 = (short) (3 * 10670);
  float f4 = 3 * 164.25f;
  static boolean s0 = (3 & 2) == 0;
  static volatile double s1 = 3 / 141.0;
  static Object s2 = null;
  static long acc;
  S32_4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 19;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
  }
  public char m0() {
    long r = 34;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static char t0() {
    long r = 79;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  public short m1(long a0) {
    long r = 17;
    r = r * 31 + L.v(a0);
    r += base;
    return (short) r;
  }
  static private short t1(long a0) {
    long r = 50;
    r = r * 31 + L.v(a0);
    return (short) r;
  }
  public float m2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 23;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static float t2(Object a0, Object a1, long a2, byte a3, short a4, short a5, short a6, boolean a7, double a8) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (float) (r & 0xfffff) / 8;
  }
  public short m3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 94;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (short) r;
  }
  static short t3(long a0, long a1, long a2, String a3, short a4, byte a5, byte a6) {
    long r = 54;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (short) r;
  }
  public int[] m4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 18;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return new int[] {(int) r, 4};
  }
  static int[] t4(int a0, short a1, long a2, short a3, float a4, boolean a5, float a6, int a7, String a8, long a9, int a10, double a11) {
    long r = 16;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return new int[] {(int) r, 4};
  }
  static long fields(int p) {
    S32_4 o = new S32_4(p * 17898389, (short) (p * 8439), p * 15300000000L, (short) (p * 17945), p * 181.25f, (p & 3) == 0, p * 81.25f, p * 18198362, "lit195", p * 5700000000L, p * 1299883, p / 43.0);
    long r = 1;
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    o.f4 = p * 35.25f;
    r = r * 31 + L.v(o.f4);
    o.f4 += p;
    r += L.v(o.f4++);
    o.f2 = (Object) Integer.valueOf(p);
    r = r * 31 + L.v(o.f2);
    r = r * 31 + L.set(o, "f4", new Object[] {p * 170.25f}[0]);
    o.f4 += p;
    r += L.v(o.f4++);
    o.f3 = (short) (p * 194);
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S32_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S32_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S32_4.class, "s2");
    return r;
  }
}
public class G32 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      final short c0 = (short) (p * 388);
      final char c1 = (char) (p * 45678 - 5);
      final short c2 = (short) (p * 17945);
      F32_2 f = (x0, x1, x2, x3, x4, x5, x6, x7, x8) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6) - L.v(x7) - L.v(x8); long r1 = r0; return (float) (r1 & 0xfffff) / 8; };
      r = r * 31 + L.v(f.f(null, "o" + p, p * 13600000000L, (byte) (p * 41), (short) (p * 3007), (short) (p * 15326), (short) (p * 3686), (p & 3) == 0, p / 85.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<Integer, Long> f = L::il;
      r = r * 31 + f.f(p + 49);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final int c0 = p * 15798578;
      final int c1 = p * 16598506;
      final int[] c2 = new int[] {p, 194};
      final int c3 = p * 8699217;
      F32_0 f = () -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) + L.v(c3); long r1 = r0; return (char) r1; };
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final short c0 = (short) (p * 388);
      final char c1 = (char) (p * 18536 - 5);
      final short c2 = (short) (p * 970);
      F32_2 f = (x0, x1, x2, x3, x4, x5, x6, x7, x8) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6) - L.v(x7) - L.v(x8); long r1 = r0; return (float) (r1 & 0xfffff) / 8; };
      r = r * 31 + L.v(f.f("o" + p, "o" + p, p * 19800000000L, (byte) (p * 165), (short) (p * 7469), (short) (p * 16684), (short) (p * 3783), (p & 1) == 0, p / 82.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final boolean c0 = (p & 1) == 0;
      F32_3 f = (x0, x1, x2, x3, x4, x5, x6) -> { long r0 = p + L.v(c0) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6); long r1 = r0; return (short) r1; };
      r = r * 31 + L.v(f.f(p * 10500000000L, p * 12600000000L, p * 19700000000L, "a" + p, (short) (p * 2522), (byte) (p * 78), (byte) (p * 152)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S32_2.t2(null, (Object) Integer.valueOf(p), p * 1600000000L, (byte) (p * 130), (short) (p * 15908), (short) (p * 3492), (short) (p * 8342), (p & 1) == 0, p / 84.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.make(S32_2.class, (Object) ((Object) Integer.valueOf(p)), (Object) ((Object) Integer.valueOf(p)), (Object) (p * 1300000000L), (Object) ((byte) (p * 123)), (Object) ((short) (p * 11931)), (Object) ((short) (p * 6790)), (Object) ((short) (p * 10961)), (Object) ((p & 3) == 0), (Object) (p / 170.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, StringBuilder> f = StringBuilder::new;
      r = r * 31 + f.f("s" + p).length();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J32) new S32_1(p * 4700000000L)).m0());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S32_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J32) new S32_2(null, null, p * 3400000000L, (byte) (p * 169), (short) (p * 10670), (short) (p * 3007), (short) (p * 13968), (p & 2) == 0, p / 10.0)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + L.make(S32_0.class);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S32_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N32_2 f = S32_2::new;
      r = r * 31 + f.f(null, "o" + p, p * 12600000000L, (byte) (p * 60), (short) (p * 6984), (short) (p * 6305), (short) (p * 13774), (p & 1) == 0, p / 4.0).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S32_0.class, "t0");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, Integer> f = ("b" + p)::compareTo;
      r = r * 31 + f.f("a4");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final char c0 = (char) (p * 36079 - 5);
      final byte c1 = (byte) (p * 62);
      F32_4 f = (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) -> { long r0 = p + L.v(c0) + L.v(c1) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6) - L.v(x7) - L.v(x8) - L.v(x9) - L.v(x10) - L.v(x11); long r1 = r0; return new int[] {(int) r1, 4}; };
      r = r * 31 + L.v(f.f(p * 3499685, (short) (p * 12513), p * 800000000L, (short) (p * 8536), p * 117.25f, (p & 2) == 0, p * 162.25f, p * 10999010, "a" + p, p * 11300000000L, p * 6399424, p / 18.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r = r * 31 + L.make(S32_3.class, (Object) (p * 1400000000L), (Object) (p * 10100000000L), (Object) (p * 19800000000L), (Object) (null), (Object) ((short) (p * 8051)), (Object) ((byte) (p * 69)), (Object) ((byte) (p * 115)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D32) new S32_0()).m4(p * 7599316, (short) (p * 12610), p * 19100000000L, (short) (p * 9312), p * 128.25f, (p & 2) == 0, p * 20.25f, p * 16098551, "a" + p, p * 3300000000L, p * 9699127, p / 9.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J32) L.full(J32.class)).m2((Object) Integer.valueOf(p), (Object) Integer.valueOf(p), p * 12000000000L, (byte) (p * 1), (short) (p * 6014), (short) (p * 17266), (short) (p * 7469), (p & 1) == 0, p / 12.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S32_3.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      Runnable f = (Runnable & java.io.Serializable) () -> L.il(p);
      f.run();
      r = r * 31 + (f instanceof java.io.Serializable ? 1 : 2);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r = r * 31 + ((J32) new S32_3(p * 18800000000L, p * 18600000000L, p * 16000000000L, "a" + p, (short) (p * 14647), (byte) (p * 150), (byte) (p * 135))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J32) L.full(J32.class)).m2(null, null, p * 400000000L, (byte) (p * 70), (short) (p * 13095), (short) (p * 7081), (short) (p * 9603), (p & 3) == 0, p / 159.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F32_3 f = S32_3::t3;
      r = r * 31 + L.v(f.f(p * 4900000000L, p * 600000000L, p * 3700000000L, null, (short) (p * 5432), (byte) (p * 80), (byte) (p * 63)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Integer, int[]> f = int[]::new;
      r = r * 31 + f.f(p & 7).length;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S32_3.class, "t3", (Object) (p * 19100000000L), (Object) (p * 20000000000L), (Object) (p * 5300000000L), (Object) ("lit86"), (Object) ((short) (p * 18624)), (Object) ((byte) (p * 99)), (Object) ((byte) (p * 44)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J32) L.full(J32.class)).m0());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.call(new S32_4(p * 6999370, (short) (p * 5529), p * 8400000000L, (short) (p * 12707), p * 102.25f, (p & 1) == 0, p * 60.25f, p * 11198992, "a" + p, p * 14600000000L, p * 4199622, p / 159.0), "m3", (Object) (p * 5500000000L), (Object) (p * 500000000L), (Object) (p * 19500000000L), (Object) ("lit14"), (Object) ((short) (p * 19012)), (Object) ((byte) (p * 171)), (Object) ((byte) (p * 25)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J32) L.full(J32.class)).m1(p * 19600000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F32_1 f = S32_1::t1;
      r = r * 31 + L.v(f.f(p * 10000000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F32_3 f = S32_3::t3;
      r = r * 31 + L.v(f.f(p * 5600000000L, p * 18500000000L, p * 15200000000L, "lit21", (short) (p * 3783), (byte) (p * 80), (byte) (p * 169)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N32_2 f = S32_2::new;
      r = r * 31 + f.f((Object) Integer.valueOf(p), null, p * 4800000000L, (byte) (p * 53), (short) (p * 7954), (short) (p * 10573), (short) (p * 18527), (p & 2) == 0, p / 58.0).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      final boolean c0 = (p & 2) == 0;
      F32_3 f = (x0, x1, x2, x3, x4, x5, x6) -> { long r0 = p + L.v(c0) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6); long r1 = r0; return (short) r1; };
      r = r * 31 + L.v(f.f(p * 400000000L, p * 5000000000L, p * 16700000000L, "a" + p, (short) (p * 3201), (byte) (p * 8), (byte) (p * 71)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S32_3.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S32_3.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J32) new S32_1(p * 3500000000L)).m0());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J32) new S32_3(p * 14500000000L, p * 12500000000L, p * 19100000000L, null, (short) (p * 1455), (byte) (p * 93), (byte) (p * 160))).m3(p * 9100000000L, p * 3000000000L, p * 11500000000L, "lit108", (short) (p * 1358), (byte) (p * 69), (byte) (p * 86)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      F32_2 f = new S32_2("o" + p, null, p * 19100000000L, (byte) (p * 122), (short) (p * 5141), (short) (p * 16781), (short) (p * 5238), (p & 3) == 0, p / 117.0)::m2;
      r = r * 31 + L.v(f.f(null, (Object) Integer.valueOf(p), p * 1100000000L, (byte) (p * 139), (short) (p * 12901), (short) (p * 6596), (short) (p * 1455), (p & 2) == 0, p / 198.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S32_3(p * 8100000000L, p * 3600000000L, p * 18600000000L, "a" + p, (short) (p * 17751), (byte) (p * 101), (byte) (p * 136)), "m2", (Object) (null), (Object) ("o" + p), (Object) (p * 1900000000L), (Object) ((byte) (p * 50)), (Object) ((short) (p * 14065)), (Object) ((short) (p * 16199)), (Object) ((short) (p * 7663)), (Object) ((p & 2) == 0), (Object) (p / 1.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J32) new S32_3(p * 11800000000L, p * 700000000L, p * 3800000000L, null, (short) (p * 2813), (byte) (p * 33), (byte) (p * 90))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

package w;
/* generated by tools/genlink.py */
interface J24 {
  char m0();
  Object m1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11);
  Object m2(float a0, boolean a1, byte a2);
  String m3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11);
  int m4(int[] a0, String a1);
  default long d(int p) { return p + 44; }
}
interface F24_0 { char f(); }
interface F24_1 { Object f(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11); }
interface F24_2 { Object f(float a0, boolean a1, byte a2); }
interface F24_3 { String f(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11); }
interface F24_4 { int f(int[] a0, String a1); }
interface N24_0 { D24 f(); }
interface N24_1 { D24 f(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11); }
interface N24_2 { D24 f(float a0, boolean a1, byte a2); }
interface N24_3 { D24 f(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11); }
interface N24_4 { D24 f(int[] a0, String a1); }
abstract class D24 {
  long base;
  public abstract char m0();
  public abstract Object m1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11);
  public Object m2(float a0, boolean a1, byte a2) throws RuntimeException { long r = 5; long acc; return (r & 7) == 0 ? null : (Object) Long.valueOf(r); }
  public String m3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) throws RuntimeException { long r = 5; long acc; return (r & 7) == 0 ? null : "r" + (r & 0xfff); }
  public abstract int m4(int[] a0, String a1);
}
class S24_0 extends D24 implements J24 {
  boolean f0 = (3 & 3) == 0;
  volatile byte f1 = (byte) (3 * 193);
  public short f2 = (short) (3 * 14356);
  volatile String f3 = null;
  char f4 = (char) (3 * 44354 - 5);
  static boolean s0 = (3 & 1) == 0;
  static byte s1 = (byte) (3 * 105);
  static volatile short s2 = (short) (3 * 18527);
  static long acc;
  S24_0() {
    long r = 30;
    base = r;
  }
  synchronized public char m0() {
    long r = 76;
    r += base;
    return (char) r;
  }
  static char t0() {
    long r = 69;
    return (char) r;
  }
  public Object m1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 65;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 68;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public Object m2(float a0, boolean a1, byte a2) {
    long r = 32;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t2(float a0, boolean a1, byte a2) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  synchronized public String m3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 65;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static private String t3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  public int m4(int[] a0, String a1) {
    long r = 55;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static int t4(int[] a0, String a1) {
    long r = 94;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (int) (r ^ r >>> 32);
  }
  static long fields(int p) {
    S24_0 o = new S24_0();
    long r = 1;
    o.f3 = "lit1";
    r = r * 31 + L.v(o.f3);
    r = r * 31 + L.set(o, "f3", null);
    r = r * 31 + L.set(o, "f1", new Object[] {(byte) (p * 1)}[0]);
    o.f1 += 3;
    r += L.v(o.f1++);
    o.f4 = (char) (p * 35086 - 5);
    r = r * 31 + L.v(o.f4);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S24_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S24_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S24_0.class, "s2");
    return r;
  }
}
class S24_1 extends D24 implements J24 {
  public int[] f0 = null;
  public int f1 = 3 * 14298713;
  Object f2 = "o" + 3;
  volatile float f3 = 3 * 196.25f;
  public long f4 = 3 * 12000000000L;
  static volatile int[] s0 = new int[] {3, 129};
  static volatile int s1 = 3 * 6599406;
  static volatile Object s2 = (Object) Integer.valueOf(3);
  static long acc;
  S24_1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 33;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public char m0() {
    long r = 91;
    r += base;
    return (char) r;
  }
  static synchronized char t0() {
    long r = 43;
    return (char) r;
  }
  public Object m1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 1;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 67;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public Object m2(float a0, boolean a1, byte a2) {
    long r = 39;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t2(float a0, boolean a1, byte a2) {
    long r = 92;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public String m3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 79;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static private String t3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 73;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public int m4(int[] a0, String a1) {
    long r = 14;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static private int t4(int[] a0, String a1) {
    long r = 49;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (int) (r ^ r >>> 32);
  }
  static long fields(int p) {
    S24_1 o = new S24_1((byte) (p * 95), (short) (p * 12513), "o" + p, "lit151", new int[] {p, 34}, (byte) (p * 76), p * 12400000000L, (short) (p * 3201), (Object) Integer.valueOf(p), (char) (p * 2317 - 5), null, (p & 1) == 0);
    long r = 1;
    r = r * 31 + L.get(o, "f2");
    r = r * 31 + L.set(o, "f0", null);
    r = r * 31 + L.get(o, "f4");
    o.f4 += 3;
    r += L.v(o.f4++);
    o.f4 = p * 4500000000L;
    r = r * 31 + L.v(o.f4);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f2", (Object) Integer.valueOf(p));
    r = r * 31 + L.v(s0) + L.get(S24_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S24_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S24_1.class, "s2");
    return r;
  }
}
class S24_2 extends D24 implements J24 {
  public byte f0 = (byte) (3 * 123);
  volatile long f1 = 3 * 1100000000L;
  int f2 = 3 * 16598506;
  public double f3 = 3 / 65.0;
  public Object f4 = null;
  static byte s0 = (byte) (3 * 183);
  static volatile long s1 = 3 * 4800000000L;
  static volatile int s2 = 3 * 4199622;
  static long acc;
  S24_2(float a0, boolean a1, byte a2) {
    long r = 83;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public char m0() {
    long r = 80;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static char t0() {
    long r = 57;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  synchronized public Object m1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 49;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  synchronized public Object m2(float a0, boolean a1, byte a2) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t2(float a0, boolean a1, byte a2) {
    long r = 8;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public String m3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 80;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static private String t3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 56;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public int m4(int[] a0, String a1) {
    long r = 11;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static int t4(int[] a0, String a1) {
    long r = 57;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (int) (r ^ r >>> 32);
  }
  static long fields(int p) {
    S24_2 o = new S24_2(p * 177.25f, (p & 2) == 0, (byte) (p * 184));
    long r = 1;
    o.f1 = p * 19500000000L;
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.get(o, "f4");
    o.f3 = p / 25.0;
    r = r * 31 + L.v(o.f3);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f4", "o" + p);
    o.f1 = p * 900000000L;
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.v(s0) + L.get(S24_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S24_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S24_2.class, "s2");
    return r;
  }
}
class S24_3 extends D24 implements J24 {
  double f0 = 3 / 117.0;
  public int f1 = 3 * 13298803;
  float f2 = 3 * 190.25f;
  volatile short f3 = (short) (3 * 13289);
  volatile byte f4 = (byte) (3 * 32);
  static double s0 = 3 / 7.0;
  static volatile int s1 = 3 * 18698317;
  static float s2 = 3 * 145.25f;
  static long acc;
  S24_3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 50;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    base = r;
  }
  public char m0() {
    long r = 55;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static char t0() {
    long r = 32;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  synchronized public Object m1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 18;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public Object m2(float a0, boolean a1, byte a2) {
    long r = 25;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t2(float a0, boolean a1, byte a2) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public String m3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 6;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 4;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public int m4(int[] a0, String a1) {
    long r = 96;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static private int t4(int[] a0, String a1) {
    long r = 85;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (int) (r ^ r >>> 32);
  }
  static long fields(int p) {
    S24_3 o = new S24_3((Object) Integer.valueOf(p), p * 16000000000L, p * 11700000000L, p * 13000000000L, null, p * 21.25f, p / 188.0, p / 146.0, (byte) (p * 71), p * 16500000000L, p / 134.0, (short) (p * 6499));
    long r = 1;
    r = r * 31 + L.get(o, "f1");
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f3", new Object[] {(short) (p * 12125)}[0]);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f1");
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.v(s0) + L.get(S24_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S24_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S24_3.class, "s2");
    return r;
  }
}
class S24_4 extends D24 implements J24 {
  float f0 = 3 * 179.25f;
  String f1 = "a" + 3;
  byte f2 = (byte) (3 * 31);
  volatile int f3 = 3 * 3199712;
  short f4 = (short) (3 * 19206);
  static float s0 = 3 * 166.25f;
  static String s1 = "a" + 3;
  static volatile byte s2 = (byte) (3 * 29);
  static long acc;
  S24_4(int[] a0, String a1) {
    long r = 21;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    base = r;
  }
  synchronized public char m0() {
    long r = 34;
    r += base;
    return (char) r;
  }
  static private char t0() {
    long r = 92;
    return (char) r;
  }
  synchronized public Object m1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 63;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t1(byte a0, short a1, Object a2, String a3, int[] a4, byte a5, long a6, short a7, Object a8, char a9, String a10, boolean a11) {
    long r = 50;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public Object m2(float a0, boolean a1, byte a2) {
    long r = 24;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t2(float a0, boolean a1, byte a2) {
    long r = 72;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public String m3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 65;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static private String t3(Object a0, long a1, long a2, long a3, int[] a4, float a5, double a6, double a7, byte a8, long a9, double a10, short a11) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r = r * 31 + L.v(a9);
    r = r * 31 + L.v(a10);
    r = r * 31 + L.v(a11);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public int m4(int[] a0, String a1) {
    long r = 21;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static int t4(int[] a0, String a1) {
    long r = 85;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (int) (r ^ r >>> 32);
  }
  static long fields(int p) {
    S24_4 o = new S24_4(null, "lit69");
    long r = 1;
    o.f0 = p * 88.25f;
    r = r * 31 + L.v(o.f0);
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.set(o, "f2", new Object[] {(byte) (p * 117)}[0]);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    o.f1 = "a" + p;
    r = r * 31 + L.v(o.f1);
    r = r * 31 + L.v(s0) + L.get(S24_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S24_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S24_4.class, "s2");
    return r;
  }
}
public class G24 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + S24_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N24_2 f = S24_2::new;
      r = r * 31 + f.f(p * 65.25f, (p & 3) == 0, (byte) (p * 19)).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn2<String, String, Integer> f = String::indexOf;
      r = r * 31 + f.f("xy" + p, "" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D24) new S24_4(null, "a" + p)).m2(p * 66.25f, (p & 2) == 0, (byte) (p * 15)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<Integer, int[]> f = int[]::new;
      r = r * 31 + f.f(p & 7).length;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.call(S24_3.class, "t3", (Object) (null), (Object) (p * 9000000000L), (Object) (p * 16600000000L), (Object) (p * 17200000000L), (Object) (new int[] {p, 76}), (Object) (p * 35.25f), (Object) (p / 2.0), (Object) (p / 55.0), (Object) ((byte) (p * 83)), (Object) (p * 13300000000L), (Object) (p / 105.0), (Object) ((short) (p * 388)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final boolean c0 = (p & 1) == 0;
      F24_0 f = () -> { long r0 = p + L.v(c0); long r1 = r0; return (char) r1; };
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F24_3 f = new S24_1((byte) (p * 176), (short) (p * 3007), (Object) Integer.valueOf(p), "a" + p, new int[] {p, 7}, (byte) (p * 167), p * 3300000000L, (short) (p * 3007), "o" + p, (char) (p * 65207 - 5), "a" + p, (p & 1) == 0)::m3;
      r = r * 31 + L.v(f.f(null, p * 17000000000L, p * 5200000000L, p * 7300000000L, new int[] {p, 41}, p * 157.25f, p / 182.0, p / 6.0, (byte) (p * 89), p * 2400000000L, p / 110.0, (short) (p * 6111)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J24) new S24_3("o" + p, p * 1500000000L, p * 18300000000L, p * 11100000000L, new int[] {p, 49}, p * 181.25f, p / 146.0, p / 72.0, (byte) (p * 113), p * 8200000000L, p / 187.0, (short) (p * 10864))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<Integer, Long> f = L::il;
      r = r * 31 + f.f(p + 41);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J24) new S24_3("o" + p, p * 4000000000L, p * 16500000000L, p * 300000000L, new int[] {p, 65}, p * 140.25f, p / 149.0, p / 130.0, (byte) (p * 72), p * 16000000000L, p / 185.0, (short) (p * 14550))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + S24_2.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F24_1 f = S24_1::t1;
      r = r * 31 + L.v(f.f((byte) (p * 50), (short) (p * 9894), null, "a" + p, new int[] {p, 93}, (byte) (p * 11), p * 2900000000L, (short) (p * 9991), null, (char) (p * 20853 - 5), "a" + p, (p & 1) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J24) new S24_2(p * 20.25f, (p & 3) == 0, (byte) (p * 101))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r = r * 31 + L.call(new S24_3((Object) Integer.valueOf(p), p * 3400000000L, p * 13900000000L, p * 2700000000L, new int[] {p, 187}, p * 121.25f, p / 128.0, p / 170.0, (byte) (p * 48), p * 2500000000L, p / 72.0, (short) (p * 12319)), "m1", (Object) ((byte) (p * 24)), (Object) ((short) (p * 9215)), (Object) ((Object) Integer.valueOf(p)), (Object) (null), (Object) (new int[] {p, 123}), (Object) ((byte) (p * 34)), (Object) (p * 11400000000L), (Object) ((short) (p * 2134)), (Object) (null), (Object) ((char) (p * 23832 - 5)), (Object) ("a" + p), (Object) ((p & 3) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(S24_0.class, "t0");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Integer, Object> f = L::cube;
      r = r * 31 + L.v(f.f(p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S24_4(null, "a" + p), "m4", (Object) (null), (Object) (null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      N24_3 f = S24_3::new;
      r = r * 31 + f.f("o" + p, p * 14200000000L, p * 16900000000L, p * 10300000000L, new int[] {p, 183}, p * 139.25f, p / 109.0, p / 17.0, (byte) (p * 130), p * 18900000000L, p / 147.0, (short) (p * 13871)).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.make(S24_4.class, (Object) (new int[] {p, 158}), (Object) ("lit86"));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J24) new S24_4(null, "lit44")).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S24_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N24_2 f = S24_2::new;
      r = r * 31 + f.f(p * 172.25f, (p & 3) == 0, (byte) (p * 75)).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.v(((J24) new S24_1((byte) (p * 199), (short) (p * 9409), null, "lit108", new int[] {p, 172}, (byte) (p * 170), p * 600000000L, (short) (p * 6014), null, (char) (p * 41706 - 5), "lit23", (p & 3) == 0)).m4(new int[] {p, 36}, null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J24) L.full(J24.class)).m0());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J24) new S24_4(null, "lit72")).m0());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      L.Gn2<String, String, Integer> f = String::indexOf;
      r = r * 31 + f.f("xy" + p, "" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.make(S24_3.class, (Object) ("o" + p), (Object) (p * 16700000000L), (Object) (p * 14800000000L), (Object) (p * 11900000000L), (Object) (new int[] {p, 168}), (Object) (p * 61.25f), (Object) (p / 132.0), (Object) (p / 137.0), (Object) ((byte) (p * 170)), (Object) (p * 200000000L), (Object) (p / 119.0), (Object) ((short) (p * 18915)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N24_0 f = S24_0::new;
      r = r * 31 + f.f().base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Long, Number> f = x -> x * 24;
      r = r * 31 + f.f((long) p).longValue();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final boolean c0 = (p & 1) == 0;
      F24_0 f = () -> { long r0 = p + L.v(c0); long r1 = r0; return (char) r1; };
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      F24_0 f = new S24_0()::m0;
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S24_0(), "m0");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.IntL f = L::bump;
      r = r * 31 + f.f(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J24) new S24_3((Object) Integer.valueOf(p), p * 14700000000L, p * 19300000000L, p * 1500000000L, null, p * 103.25f, p / 57.0, p / 47.0, (byte) (p * 155), p * 100000000L, p / 82.0, (short) (p * 9409))).m2(p * 141.25f, (p & 2) == 0, (byte) (p * 135)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.ToL<String> f = String::length;
      r = r * 31 + f.f("x" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

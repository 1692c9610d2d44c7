package w;
/* generated by tools/genlink.py */
interface J28 {
  Object m0(double a0, boolean a1, short a2, boolean a3, boolean a4);
  float m1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8);
  short m2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8);
  char m3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6);
  long m4(int[] a0, double a1);
  default long d(int p) { return p + 94; }
}
interface F28_0 { Object f(double a0, boolean a1, short a2, boolean a3, boolean a4); }
interface F28_1 { float f(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8); }
interface F28_2 { short f(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8); }
interface F28_3 { char f(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6); }
interface F28_4 { long f(int[] a0, double a1); }
interface N28_0 { D28 f(double a0, boolean a1, short a2, boolean a3, boolean a4); }
interface N28_1 { D28 f(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8); }
interface N28_2 { D28 f(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8); }
interface N28_3 { D28 f(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6); }
interface N28_4 { D28 f(int[] a0, double a1); }
abstract class D28 {
  long base;
  public Object m0(double a0, boolean a1, short a2, boolean a3, boolean a4) throws RuntimeException { long r = 5; long acc; return (r & 7) == 0 ? null : (Object) Long.valueOf(r); }
  public abstract float m1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8);
  public abstract short m2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8);
  public char m3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) throws RuntimeException { long r = 5; long acc; return (char) r; }
  public long m4(int[] a0, double a1) throws RuntimeException { long r = 5; long acc; return r; }
}
class S28_0 extends D28 implements J28 {
  String f0 = "lit105";
  int[] f1 = null;
  long f2 = 3 * 3100000000L;
  public int f3 = 3 * 10799028;
  volatile double f4 = 3 / 123.0;
  static volatile String s0 = null;
  static volatile int[] s1 = null;
  static volatile long s2 = 3 * 13300000000L;
  static long acc;
  S28_0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public Object m0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 99;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 79;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public float m1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 42;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static private float t1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (float) (r & 0xfffff) / 8;
  }
  public short m2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 32;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  static synchronized short t2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  public char m3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 86;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (char) r;
  }
  static private char t3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (char) r;
  }
  public long m4(int[] a0, double a1) {
    long r = 39;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return r;
  }
  static long t4(int[] a0, double a1) {
    long r = 18;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return r;
  }
  static long fields(int p) {
    S28_0 o = new S28_0(p / 159.0, (p & 1) == 0, (short) (p * 19012), (p & 3) == 0, (p & 1) == 0);
    long r = 1;
    r = r * 31 + L.get(o, "f4");
    o.f4 += 3;
    r += L.v(o.f4++);
    o.f4 = p / 85.0;
    r = r * 31 + L.v(o.f4);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f3", new Object[] {p * 15798578}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    o.f3 = p * 3399694;
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S28_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S28_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S28_0.class, "s2");
    return r;
  }
}
class S28_1 extends D28 implements J28 {
  int f0 = 3 * 12798848;
  public boolean f1 = (3 & 1) == 0;
  volatile Object f2 = null;
  public short f3 = (short) (3 * 6984);
  volatile double f4 = 3 / 50.0;
  static volatile int s0 = 3 * 999910;
  static boolean s1 = (3 & 2) == 0;
  static Object s2 = (Object) Integer.valueOf(3);
  static long acc;
  S28_1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public Object m0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 85;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 62;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  synchronized public float m1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 68;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static float t1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 7;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (float) (r & 0xfffff) / 8;
  }
  public short m2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 98;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (short) r;
  }
  static private short t2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 70;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (short) r;
  }
  synchronized public char m3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 40;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (char) r;
  }
  static synchronized char t3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 96;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (char) r;
  }
  public long m4(int[] a0, double a1) {
    long r = 69;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return r;
  }
  static private long t4(int[] a0, double a1) {
    long r = 44;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return r;
  }
  static long fields(int p) {
    S28_1 o = new S28_1("lit165", p * 5799478, p * 146.25f, p * 11099001, null, (char) (p * 52298 - 5), (char) (p * 47333 - 5), "lit98", (char) (p * 60573 - 5));
    long r = 1;
    r = r * 31 + L.get(o, "f1");
    o.f0 = p * 13398794;
    r = r * 31 + L.v(o.f0);
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.set(o, "f0", new Object[] {p * 4999550}[0]);
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.get(o, "f3");
    o.f3 += p;
    r += L.v(o.f3++);
    o.f4 = p / 126.0;
    r = r * 31 + L.v(o.f4);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S28_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S28_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S28_1.class, "s2");
    return r;
  }
}
class S28_2 extends D28 implements J28 {
  volatile long f0 = 3 * 6400000000L;
  int f1 = 3 * 5799478;
  public char f2 = (char) (3 * 34093 - 5);
  public boolean f3 = (3 & 1) == 0;
  short f4 = (short) (3 * 8342);
  static volatile long s0 = 3 * 15600000000L;
  static volatile int s1 = 3 * 7899289;
  static char s2 = (char) (3 * 51305 - 5);
  static long acc;
  S28_2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 42;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public Object m0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 85;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 25;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  synchronized public float m1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 4;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static private float t1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 72;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (float) (r & 0xfffff) / 8;
  }
  public short m2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 82;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (short) r;
  }
  static short t2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (short) r;
  }
  public char m3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 42;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (char) r;
  }
  static private char t3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 96;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (char) r;
  }
  public long m4(int[] a0, double a1) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return r;
  }
  static private long t4(int[] a0, double a1) {
    long r = 82;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return r;
  }
  static long fields(int p) {
    S28_2 o = new S28_2("a" + p, p * 19698227, (p & 1) == 0, p * 14300000000L, (byte) (p * 27), "lit111", (short) (p * 8536), p * 65.25f, p * 4999550);
    long r = 1;
    r = r * 31 + L.set(o, "f2", new Object[] {(char) (p * 35086 - 5)}[0]);
    o.f2 += 3;
    r += L.v(o.f2++);
    o.f3 = (p & 2) == 0;
    r = r * 31 + L.v(o.f3);
    o.f2 = (char) (p * 27473 - 5);
    r = r * 31 + L.v(o.f2);
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f2");
    o.f2 += p;
    r += L.v(o.f2++);
    o.f1 = p * 999910;
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    o.f2 = (char) (p * 4634 - 5);
    r = r * 31 + L.v(o.f2);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.v(s0) + L.get(S28_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S28_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S28_2.class, "s2");
    return r;
  }
}
class S28_3 extends D28 implements J28 {
  byte f0 = (byte) (3 * 83);
  volatile short f1 = (short) (3 * 17169);
  volatile int f2 = 3 * 1899829;
  volatile long f3 = 3 * 3600000000L;
  int[] f4 = null;
  static byte s0 = (byte) (3 * 55);
  static volatile short s1 = (short) (3 * 8924);
  static volatile int s2 = 3 * 17798398;
  static long acc;
  S28_3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 57;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public Object m0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 20;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 21;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public float m1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 85;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static private float t1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 3;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public short m2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 99;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  static private short t2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 82;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (short) r;
  }
  synchronized public char m3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 10;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (char) r;
  }
  static char t3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 66;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (char) r;
  }
  public long m4(int[] a0, double a1) {
    long r = 30;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return r;
  }
  static private long t4(int[] a0, double a1) {
    long r = 50;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return r;
  }
  static long fields(int p) {
    S28_3 o = new S28_3(null, p / 106.0, (char) (p * 52298 - 5), (char) (p * 6951 - 5), (char) (p * 60573 - 5), (p & 1) == 0, p * 5700000000L);
    long r = 1;
    r = r * 31 + L.set(o, "f2", new Object[] {p * 4199622}[0]);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.set(o, "f4", null);
    r = r * 31 + L.set(o, "f4", new int[] {p, 194});
    r = r * 31 + L.set(o, "f0", new Object[] {(byte) (p * 189)}[0]);
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.v(s0) + L.get(S28_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S28_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S28_3.class, "s2");
    return r;
  }
}
class S28_4 extends D28 implements J28 {
  volatile Object f0 = null;
  volatile char f1 = (char) (3 * 3972 - 5);
  volatile double f2 = 3 / 199.0;
  public short f3 = (short) (3 * 8633);
  int[] f4 = null;
  static Object s0 = null;
  static volatile char s1 = (char) (3 * 50974 - 5);
  static volatile double s2 = 3 / 7.0;
  static long acc;
  S28_4(int[] a0, double a1) {
    long r = 42;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public Object m0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 97;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t0(double a0, boolean a1, short a2, boolean a3, boolean a4) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public float m1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 23;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t1(String a0, int a1, float a2, int a3, String a4, char a5, char a6, String a7, char a8) {
    long r = 71;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (float) (r & 0xfffff) / 8;
  }
  public short m2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 73;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (short) r;
  }
  static short t2(String a0, int a1, boolean a2, long a3, byte a4, String a5, short a6, float a7, int a8) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (short) r;
  }
  public char m3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (char) r;
  }
  static synchronized char t3(int[] a0, double a1, char a2, char a3, char a4, boolean a5, long a6) {
    long r = 49;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (char) r;
  }
  public long m4(int[] a0, double a1) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return r;
  }
  static long t4(int[] a0, double a1) {
    long r = 5;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return r;
  }
  static long fields(int p) {
    S28_4 o = new S28_4(null, p / 186.0);
    long r = 1;
    r = r * 31 + L.get(o, "f0");
    o.f2 = p / 51.0;
    r = r * 31 + L.v(o.f2);
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.set(o, "f4", new int[] {p, 196});
    r = r * 31 + L.v(s0) + L.get(S28_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S28_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S28_4.class, "s2");
    return r;
  }
}
public class G28 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      F28_4 f = new S28_3(null, p / 15.0, (char) (p * 27473 - 5), (char) (p * 47664 - 5), (char) (p * 34093 - 5), (p & 2) == 0, p * 13700000000L)::m4;
      r = r * 31 + L.v(f.f(null, p / 183.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      java.util.Comparator<String> f = String::compareTo;
      r = r * 31 + f.compare("a" + p, "a21");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.make(S28_3.class, (Object) (null), (Object) (p / 180.0), (Object) ((char) (p * 5958 - 5)), (Object) ((char) (p * 20522 - 5)), (Object) ((char) (p * 65207 - 5)), (Object) ((p & 2) == 0), (Object) (p * 13400000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N28_2 f = S28_2::new;
      r = r * 31 + f.f("a" + p, p * 2999730, (p & 2) == 0, p * 10900000000L, (byte) (p * 196), null, (short) (p * 5820), p * 34.25f, p * 1199892).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J28) new S28_2("lit39", p * 15998560, (p & 1) == 0, p * 10900000000L, (byte) (p * 33), null, (short) (p * 5335), p * 157.25f, p * 7399334)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J28) L.full(J28.class)).m3(new int[] {p, 107}, p / 129.0, (char) (p * 45016 - 5), (char) (p * 9268 - 5), (char) (p * 35748 - 5), (p & 2) == 0, p * 4300000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      N28_4 f = S28_4::new;
      r = r * 31 + f.f(new int[] {p, 47}, p / 91.0).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S28_1("lit145", p * 10199082, p * 164.25f, p * 11398974, "lit41", (char) (p * 17543 - 5), (char) (p * 57925 - 5), "lit103", (char) (p * 42699 - 5)), "m4", (Object) (null), (Object) (p / 156.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S28_3.class, "t3", (Object) (null), (Object) (p / 56.0), (Object) ((char) (p * 47333 - 5)), (Object) ((char) (p * 9599 - 5)), (Object) ((char) (p * 24494 - 5)), (Object) ((p & 1) == 0), (Object) (p * 13800000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S28_4(new int[] {p, 133}, p / 100.0), "m0", (Object) (p / 115.0), (Object) ((p & 3) == 0), (Object) ((short) (p * 8439)), (Object) ((p & 3) == 0), (Object) ((p & 1) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S28_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + L.make(S28_0.class, (Object) (p / 82.0), (Object) ((p & 2) == 0), (Object) ((short) (p * 17945)), (Object) ((p & 3) == 0), (Object) ((p & 2) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, Integer> f = ("b" + p)::compareTo;
      r = r * 31 + f.f("a49");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F28_1 f = new S28_4(new int[] {p, 168}, p / 70.0)::m1;
      r = r * 31 + L.v(f.f("lit41", p * 14398704, p * 144.25f, p * 1899829, "lit140", (char) (p * 21846 - 5), (char) (p * 4634 - 5), "lit156", (char) (p * 58256 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      final byte c0 = (byte) (p * 2);
      F28_1 f = (x0, x1, x2, x3, x4, x5, x6, x7, x8) -> { long r0 = p + L.v(c0) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6) - L.v(x7) - L.v(x8); long r1 = r0; return (float) (r1 & 0xfffff) / 8; };
      r = r * 31 + L.v(f.f("lit113", p * 15798578, p * 74.25f, p * 9299163, null, (char) (p * 11254 - 5), (char) (p * 9930 - 5), "a" + p, (char) (p * 34755 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F28_0 f = new S28_4(null, p / 35.0)::m0;
      r = r * 31 + L.v(f.f(p / 42.0, (p & 2) == 0, (short) (p * 12028), (p & 3) == 0, (p & 3) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(new S28_4(new int[] {p, 37}, p / 166.0).m3(new int[] {p, 153}, p / 102.0, (char) (p * 26149 - 5), (char) (p * 29790 - 5), (char) (p * 26811 - 5), (p & 3) == 0, p * 8800000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S28_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S28_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J28) L.full(J28.class)).m3(null, p / 71.0, (char) (p * 50643 - 5), (char) (p * 26149 - 5), (char) (p * 61235 - 5), (p & 3) == 0, p * 8400000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      F28_4 f = new S28_0(p / 121.0, (p & 3) == 0, (short) (p * 10088), (p & 2) == 0, (p & 1) == 0)::m4;
      r = r * 31 + L.v(f.f(null, p / 172.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(new S28_3(new int[] {p, 63}, p / 181.0, (char) (p * 63552 - 5), (char) (p * 40713 - 5), (char) (p * 2648 - 5), (p & 1) == 0, p * 8700000000L).m2("lit55", p * 7899289, (p & 2) == 0, p * 700000000L, (byte) (p * 32), null, (short) (p * 7954), p * 37.25f, p * 1699847));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D28) new S28_1("lit89", p * 17098461, p * 185.25f, p * 6199442, null, (char) (p * 39389 - 5), (char) (p * 31776 - 5), null, (char) (p * 29790 - 5))).m4(new int[] {p, 133}, p / 186.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N28_4 f = S28_4::new;
      r = r * 31 + f.f(new int[] {p, 45}, p / 48.0).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final int c0 = p * 3599676;
      F28_4 f = (x0, x1) -> { long r0 = p + L.v(c0) - L.v(x0) - L.v(x1); long r1 = r0; return r1; };
      r = r * 31 + L.v(f.f(new int[] {p, 97}, p / 90.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(S28_1.class, "t1", (Object) (null), (Object) (p * 8499235), (Object) (p * 184.25f), (Object) (p * 7799298), (Object) ("lit4"), (Object) ((char) (p * 60904 - 5)), (Object) ((char) (p * 47333 - 5)), (Object) (null), (Object) ((char) (p * 8606 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      final byte c0 = (byte) (p * 3);
      F28_1 f = (x0, x1, x2, x3, x4, x5, x6, x7, x8) -> { long r0 = p + L.v(c0) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6) - L.v(x7) - L.v(x8); long r1 = r0; return (float) (r1 & 0xfffff) / 8; };
      r = r * 31 + L.v(f.f("lit94", p * 7499325, p * 46.25f, p * 499955, "lit61", (char) (p * 36741 - 5), (char) (p * 54946 - 5), null, (char) (p * 44023 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(new S28_0(p / 58.0, (p & 1) == 0, (short) (p * 1649), (p & 1) == 0, (p & 1) == 0).m2("lit55", p * 16898479, (p & 1) == 0, p * 7000000000L, (byte) (p * 115), "a" + p, (short) (p * 12028), p * 64.25f, p * 8699217));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, Integer> f = Integer::parseInt;
      r = r * 31 + f.f("" + p * 19);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F28_0 f = new S28_4(null, p / 15.0)::m0;
      r = r * 31 + L.v(f.f(p / 157.0, (p & 3) == 0, (short) (p * 17460), (p & 2) == 0, (p & 3) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + L.v(((J28) L.full(J28.class)).m1("lit93", p * 2099811, p * 147.25f, p * 10499055, "lit198", (char) (p * 35086 - 5), (char) (p * 57263 - 5), "a" + p, (char) (p * 993 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J28) new S28_2("a" + p, p * 12098911, (p & 3) == 0, p * 9100000000L, (byte) (p * 90), "a" + p, (short) (p * 11931), p * 182.25f, p * 6999370)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N28_4 f = S28_4::new;
      r = r * 31 + f.f(null, p / 166.0).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      java.util.List<Integer> l = new java.util.ArrayList<Integer>();
      l.add(p);
      L.ToL<Integer> f = l::get;
      r = r * 31 + f.f(0);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S28_3.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J28) new S28_1(null, p * 5199532, p * 119.25f, p * 14298713, "lit122", (char) (p * 48657 - 5), (char) (p * 48326 - 5), "a" + p, (char) (p * 16550 - 5))).m0(p / 148.0, (p & 1) == 0, (short) (p * 14550), (p & 1) == 0, (p & 1) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

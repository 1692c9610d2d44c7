package w;
/* generated by tools/genlink.py */
interface J30 {
  String m0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8);
  String m1(int a0, long a1, String a2, int[] a3, long a4, char a5);
  void m2();
  short m3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8);
  Object m4(String a0, long a1, short a2, String a3, short a4);
  default long d(int p) { return p + 72; }
}
interface F30_0 { String f(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8); }
interface F30_1 { String f(int a0, long a1, String a2, int[] a3, long a4, char a5); }
interface F30_2 { void f(); }
interface F30_3 { short f(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8); }
interface F30_4 { Object f(String a0, long a1, short a2, String a3, short a4); }
interface N30_0 { D30 f(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8); }
interface N30_1 { D30 f(int a0, long a1, String a2, int[] a3, long a4, char a5); }
interface N30_2 { D30 f(); }
interface N30_3 { D30 f(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8); }
interface N30_4 { D30 f(String a0, long a1, short a2, String a3, short a4); }
abstract class D30 {
  long base;
  public String m0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) throws RuntimeException { long r = 5; long acc; return (r & 7) == 0 ? null : "r" + (r & 0xfff); }
  public abstract String m1(int a0, long a1, String a2, int[] a3, long a4, char a5);
  public abstract void m2();
  public abstract short m3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8);
  public Object m4(String a0, long a1, short a2, String a3, short a4) throws RuntimeException { long r = 5; long acc; return (r & 7) == 0 ? null : (Object) Long.valueOf(r); }
}
class S30_0 extends D30 implements J30 {
  float f0 = 3 * 35.25f;
  volatile short f1 = (short) (3 * 19109);
  volatile boolean f2 = (3 & 2) == 0;
  volatile byte f3 = (byte) (3 * 74);
  public long f4 = 3 * 17900000000L;
  static volatile float s0 = 3 * 26.25f;
  static volatile short s1 = (short) (3 * 5917);
  static volatile boolean s2 = (3 & 1) == 0;
  static long acc;
  S30_0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    base = r;
  }
  public String m0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 42;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 65;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public String m1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 51;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static synchronized String t1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 22;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public void m2() {
    long r = 95;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    G30.acc = r;
  }
  static void t2() {
    long r = 57;
    if ((r & 15) == 5) throw new L.Odd(r);
    G30.acc = r;
  }
  public short m3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 58;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (short) r;
  }
  static short t3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 40;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (short) r;
  }
  public Object m4(String a0, long a1, short a2, String a3, short a4) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t4(String a0, long a1, short a2, String a3, short a4) {
    long r = 41;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static long fields(int p) {
    S30_0 o = new S30_0((short) (p * 3395), "o" + p, null, (byte) (p * 160), p / 37.0, (byte) (p * 197), p * 19698227, p * 7099361, p / 70.0);
    long r = 1;
    o.f0 = p * 193.25f;
    r = r * 31 + L.v(o.f0);
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.get(o, "f0");
    o.f0 += p;
    r += L.v(o.f0++);
    o.f3 = (byte) (p * 167);
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f1", new Object[] {(short) (p * 6305)}[0]);
    o.f1 += p;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f3", new Object[] {(byte) (p * 53)}[0]);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S30_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S30_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S30_0.class, "s2");
    return r;
  }
}
class S30_1 extends D30 implements J30 {
  public int[] f0 = null;
  String f1 = "lit151";
  public long f2 = 3 * 12600000000L;
  short f3 = (short) (3 * 15617);
  float f4 = 3 * 135.25f;
  static int[] s0 = null;
  static String s1 = "lit79";
  static volatile long s2 = 3 * 15500000000L;
  static long acc;
  S30_1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 43;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public String m0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 23;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  public String m1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 47;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 5;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  public void m2() {
    long r = 68;
    r += base;
    G30.acc = r;
  }
  static synchronized void t2() {
    long r = 32;
    G30.acc = r;
  }
  public short m3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 97;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (short) r;
  }
  static short t3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 80;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (short) r;
  }
  synchronized public Object m4(String a0, long a1, short a2, String a3, short a4) {
    long r = 44;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t4(String a0, long a1, short a2, String a3, short a4) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static long fields(int p) {
    S30_1 o = new S30_1(p * 15498605, p * 14500000000L, "lit41", null, p * 10500000000L, (char) (p * 27804 - 5));
    long r = 1;
    r = r * 31 + L.set(o, "f3", new Object[] {(short) (p * 6887)}[0]);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f4", new Object[] {p * 172.25f}[0]);
    o.f4 += 3;
    r += L.v(o.f4++);
    o.f3 = (short) (p * 4365);
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f3", new Object[] {(short) (p * 2037)}[0]);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f4");
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S30_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S30_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S30_1.class, "s2");
    return r;
  }
}
class S30_2 extends D30 implements J30 {
  public String f0 = null;
  Object f1 = (Object) Integer.valueOf(3);
  double f2 = 3 / 45.0;
  public short f3 = (short) (3 * 14938);
  public long f4 = 3 * 11300000000L;
  static volatile String s0 = null;
  static volatile Object s1 = "o" + 3;
  static volatile double s2 = 3 / 168.0;
  static long acc;
  S30_2() {
    long r = 52;
    base = r;
  }
  public String m0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 19;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 72;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  public String m1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 30;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static private String t1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 58;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public void m2() {
    long r = 81;
    r += base;
    G30.acc = r;
  }
  static void t2() {
    long r = 86;
    G30.acc = r;
  }
  public short m3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 97;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (short) r;
  }
  static short t3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 79;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (short) r;
  }
  public Object m4(String a0, long a1, short a2, String a3, short a4) {
    long r = 99;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t4(String a0, long a1, short a2, String a3, short a4) {
    long r = 5;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static long fields(int p) {
    S30_2 o = new S30_2();
    long r = 1;
    r = r * 31 + L.set(o, "f2", new Object[] {p / 133.0}[0]);
    o.f2 += p;
    r += L.v(o.f2++);
    o.f2 = p / 120.0;
    r = r * 31 + L.v(o.f2);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.set(o, "f3", new Object[] {(short) (p * 14065)}[0]);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f1");
    r = r * 31 + L.set(o, "f4", new Object[] {p * 10300000000L}[0]);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S30_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S30_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S30_2.class, "s2");
    return r;
  }
}
class S30_3 extends D30 implements J30 {
  public byte f0 = (byte) (3 * 88);
  public long f1 = 3 * 18000000000L;
  public short f2 = (short) (3 * 11543);
  Object f3 = "o" + 3;
  double f4 = 3 / 53.0;
  static byte s0 = (byte) (3 * 12);
  static volatile long s1 = 3 * 13500000000L;
  static short s2 = (short) (3 * 12028);
  static long acc;
  S30_3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 98;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public String m0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static synchronized String t0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 69;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  public String m1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 56;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static String t1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 51;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  public void m2() {
    long r = 58;
    r += base;
    G30.acc = r;
  }
  static void t2() {
    long r = 79;
    G30.acc = r;
  }
  synchronized public short m3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 30;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (short) r;
  }
  static short t3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 19;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (short) r;
  }
  public Object m4(String a0, long a1, short a2, String a3, short a4) {
    long r = 84;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t4(String a0, long a1, short a2, String a3, short a4) {
    long r = 47;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static long fields(int p) {
    S30_3 o = new S30_3(null, p / 171.0, (byte) (p * 183), (char) (p * 20191 - 5), (p & 1) == 0, p * 19298263, (char) (p * 6620 - 5), p * 10200000000L, p * 193.25f);
    long r = 1;
    r = r * 31 + L.get(o, "f1");
    o.f1 += p;
    r += L.v(o.f1++);
    o.f2 = (short) (p * 1067);
    r = r * 31 + L.v(o.f2);
    o.f2 += p;
    r += L.v(o.f2++);
    o.f0 = (byte) (p * 46);
    r = r * 31 + L.v(o.f0);
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.set(o, "f4", new Object[] {p / 151.0}[0]);
    o.f4 += p;
    r += L.v(o.f4++);
    o.f4 = p / 199.0;
    r = r * 31 + L.v(o.f4);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S30_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S30_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S30_3.class, "s2");
    return r;
  }
}
class S30_4 extends D30 implements J30 {
  volatile char f0 = (char) (3 * 21846 - 5);
  double f1 = 3 / 177.0;
  public long f2 = 3 * 600000000L;
  volatile String f3 = null;
  public int[] f4 = new int[] {3, 134};
  static volatile char s0 = (char) (3 * 27142 - 5);
  static double s1 = 3 / 55.0;
  static volatile long s2 = 3 * 19600000000L;
  static long acc;
  S30_4(String a0, long a1, short a2, String a3, short a4) {
    long r = 69;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public String m0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 52;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static synchronized String t0(short a0, Object a1, String a2, byte a3, double a4, byte a5, int a6, int a7, double a8) {
    long r = 31;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public String m1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 48;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  static synchronized String t1(int a0, long a1, String a2, int[] a3, long a4, char a5) {
    long r = 83;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 7) == 0 ? null : "r" + (r & 0xfff);
  }
  synchronized public void m2() {
    long r = 80;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    G30.acc = r;
  }
  static private void t2() {
    long r = 2;
    if ((r & 15) == 5) throw new L.Odd(r);
    G30.acc = r;
  }
  public short m3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 80;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return (short) r;
  }
  static synchronized short t3(Object a0, double a1, byte a2, char a3, boolean a4, int a5, char a6, long a7, float a8) {
    long r = 94;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return (short) r;
  }
  synchronized public Object m4(String a0, long a1, short a2, String a3, short a4) {
    long r = 68;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t4(String a0, long a1, short a2, String a3, short a4) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static long fields(int p) {
    S30_4 o = new S30_4("a" + p, p * 9100000000L, (short) (p * 2425), null, (short) (p * 6499));
    long r = 1;
    r = r * 31 + L.set(o, "f4", new int[] {p, 124});
    r = r * 31 + L.get(o, "f1");
    o.f1 += p;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f4", new int[] {p, 150});
    o.f1 = p / 57.0;
    r = r * 31 + L.v(o.f1);
    o.f1 += p;
    r += L.v(o.f1++);
    o.f3 = "a" + p;
    r = r * 31 + L.v(o.f3);
    r = r * 31 + L.v(s0) + L.get(S30_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S30_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S30_4.class, "s2");
    return r;
  }
}
public class G30 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      F30_3 f = new S30_2()::m3;
      r = r * 31 + L.v(f.f(null, p / 59.0, (byte) (p * 110), (char) (p * 50974 - 5), (p & 1) == 0, p * 10199082, (char) (p * 27142 - 5), p * 12800000000L, p * 11.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J30) L.full(J30.class)).m0((short) (p * 14162), null, "a" + p, (byte) (p * 109), p / 40.0, (byte) (p * 113), p * 19198272, p * 11298983, p / 105.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F30_0 f = S30_0::t0;
      r = r * 31 + L.v(f.f((short) (p * 15132), "o" + p, null, (byte) (p * 164), p / 34.0, (byte) (p * 106), p * 4599586, p * 10299073, p / 169.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S30_4.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final double c0 = p / 181.0;
      final double c1 = p / 149.0;
      final short c2 = (short) (p * 4753);
      final char c3 = (char) (p * 23501 - 5);
      F30_3 f = (x0, x1, x2, x3, x4, x5, x6, x7, x8) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) + L.v(c3) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6) - L.v(x7) - L.v(x8); long r1 = r0; return (short) r1; };
      r = r * 31 + L.v(f.f((Object) Integer.valueOf(p), p / 98.0, (byte) (p * 168), (char) (p * 10923 - 5), (p & 2) == 0, p * 399964, (char) (p * 17212 - 5), p * 13900000000L, p * 33.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J30) L.full(J30.class)).m0((short) (p * 679), "o" + p, null, (byte) (p * 169), p / 37.0, (byte) (p * 159), p * 12598866, p * 13798758, p / 179.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.v(((J30) new S30_1(p * 15298623, p * 9700000000L, "a" + p, new int[] {p, 150}, p * 18500000000L, (char) (p * 3310 - 5))).m1(p * 12198902, p * 8600000000L, "a" + p, null, p * 4000000000L, (char) (p * 2648 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N30_3 f = S30_3::new;
      r = r * 31 + f.f("o" + p, p / 11.0, (byte) (p * 195), (char) (p * 61566 - 5), (p & 1) == 0, p * 9899109, (char) (p * 20191 - 5), p * 400000000L, p * 122.25f).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D30) new S30_2()).m1(p * 7099361, p * 6400000000L, "a" + p, new int[] {p, 117}, p * 19300000000L, (char) (p * 66200 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S30_3.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + S30_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S30_3("o" + p, p / 133.0, (byte) (p * 151), (char) (p * 45678 - 5), (p & 2) == 0, p * 4799568, (char) (p * 66200 - 5), p * 15000000000L, p * 134.25f), "m1", (Object) (p * 14998650), (Object) (p * 2400000000L), (Object) ("lit116"), (Object) (new int[] {p, 197}), (Object) (p * 17700000000L), (Object) ((char) (p * 58587 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(new S30_3((Object) Integer.valueOf(p), p / 1.0, (byte) (p * 109), (char) (p * 32107 - 5), (p & 1) == 0, p * 4299613, (char) (p * 53291 - 5), p * 18100000000L, p * 114.25f).m0((short) (p * 2231), null, "lit47", (byte) (p * 33), p / 147.0, (byte) (p * 114), p * 12298893, p * 399964, p / 95.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S30_0.class, "t0", (Object) ((short) (p * 14162)), (Object) (null), (Object) ("a" + p), (Object) ((byte) (p * 92)), (Object) (p / 2.0), (Object) ((byte) (p * 193)), (Object) (p * 2799748), (Object) (p * 16298533), (Object) (p / 135.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      final byte c0 = (byte) (p * 58);
      F30_4 f = (x0, x1, x2, x3, x4) -> { long r0 = p + L.v(c0) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4); long r1 = r0; return (r1 & 7) == 0 ? null : (Object) Long.valueOf(r1); };
      r = r * 31 + L.v(f.f(null, p * 8200000000L, (short) (p * 10185), "a" + p, (short) (p * 2910)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D30) new S30_0((short) (p * 8730), null, "lit122", (byte) (p * 70), p / 192.0, (byte) (p * 176), p * 2499775, p * 19698227, p / 145.0)).m0((short) (p * 13580), null, null, (byte) (p * 163), p / 92.0, (byte) (p * 111), p * 3999640, p * 5299523, p / 142.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      Runnable f = (Runnable & java.io.Serializable) () -> L.il(p);
      f.run();
      r = r * 31 + (f instanceof java.io.Serializable ? 1 : 2);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(S30_1.class, "t1", (Object) (p * 19998200), (Object) (p * 8900000000L), (Object) ("a" + p), (Object) (new int[] {p, 150}), (Object) (p * 5900000000L), (Object) ((char) (p * 31776 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D30) new S30_2()).m1(p * 17498425, p * 7700000000L, null, new int[] {p, 42}, p * 13900000000L, (char) (p * 7282 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      ((D30) new S30_4("a" + p, p * 14800000000L, (short) (p * 3492), null, (short) (p * 17363))).m2();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      ((J30) new S30_4(null, p * 3500000000L, (short) (p * 3395), null, (short) (p * 7663))).m2();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D30) new S30_4(null, p * 15400000000L, (short) (p * 8730), "lit159", (short) (p * 15617))).m3((Object) Integer.valueOf(p), p / 128.0, (byte) (p * 125), (char) (p * 60573 - 5), (p & 3) == 0, p * 899919, (char) (p * 15557 - 5), p * 5800000000L, p * 187.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S30_4(null, p * 13200000000L, (short) (p * 17266), "lit179", (short) (p * 7663)), "m3", (Object) ((Object) Integer.valueOf(p)), (Object) (p / 38.0), (Object) ((byte) (p * 177)), (Object) ((char) (p * 331 - 5)), (Object) ((p & 3) == 0), (Object) (p * 9599136), (Object) ((char) (p * 58587 - 5)), (Object) (p * 9800000000L), (Object) (p * 136.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, Integer> f = ("b" + p)::compareTo;
      r = r * 31 + f.f("a34");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      final double c0 = p / 68.0;
      final double c1 = p / 29.0;
      final short c2 = (short) (p * 6402);
      final char c3 = (char) (p * 65869 - 5);
      F30_3 f = (x0, x1, x2, x3, x4, x5, x6, x7, x8) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) + L.v(c3) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5) - L.v(x6) - L.v(x7) - L.v(x8); long r1 = r0; return (short) r1; };
      r = r * 31 + L.v(f.f((Object) Integer.valueOf(p), p / 59.0, (byte) (p * 190), (char) (p * 6951 - 5), (p & 2) == 0, p * 17898389, (char) (p * 21184 - 5), p * 9500000000L, p * 65.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.v(((J30) new S30_0((short) (p * 8051), (Object) Integer.valueOf(p), "a" + p, (byte) (p * 188), p / 183.0, (byte) (p * 118), p * 16198542, p * 8299253, p / 139.0)).m1(p * 9799118, p * 4900000000L, "a" + p, new int[] {p, 9}, p * 6700000000L, (char) (p * 31445 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.ToL<Integer> f = L::wide;
      r = r * 31 + f.f(p * 44);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F30_3 f = new S30_0((short) (p * 9409), null, null, (byte) (p * 73), p / 198.0, (byte) (p * 41), p * 8199262, p * 17498425, p / 109.0)::m3;
      r = r * 31 + L.v(f.f((Object) Integer.valueOf(p), p / 88.0, (byte) (p * 80), (char) (p * 40382 - 5), (p & 2) == 0, p * 3199712, (char) (p * 37072 - 5), p * 12500000000L, p * 123.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J30) new S30_2()).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(new S30_1(p * 15398614, p * 10000000000L, "lit81", null, p * 15400000000L, (char) (p * 22177 - 5)).m1(p * 2499775, p * 10200000000L, "lit130", null, p * 17800000000L, (char) (p * 16550 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + L.v(S30_0.t0((short) (p * 12513), null, null, (byte) (p * 110), p / 50.0, (byte) (p * 92), p * 12098911, p * 7999280, p / 167.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F30_3 f = new S30_2()::m3;
      r = r * 31 + L.v(f.f(null, p / 127.0, (byte) (p * 177), (char) (p * 57925 - 5), (p & 2) == 0, p * 19398254, (char) (p * 52960 - 5), p * 6600000000L, p * 176.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn2<String, String, Integer> f = String::indexOf;
      r = r * 31 + f.f("xy" + p, "" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S30_4.t4("lit2", p * 16100000000L, (short) (p * 9797), null, (short) (p * 14647)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      new S30_0((short) (p * 1067), null, null, (byte) (p * 184), p / 118.0, (byte) (p * 5), p * 18398344, p * 9099181, p / 157.0).m2();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S30_4("a" + p, p * 12300000000L, (short) (p * 19012), "a" + p, (short) (p * 18721)), "m4", (Object) ("a" + p), (Object) (p * 3100000000L), (Object) ((short) (p * 19206)), (Object) ("a" + p), (Object) ((short) (p * 17945)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S30_3.class, "t3", (Object) ("o" + p), (Object) (p / 66.0), (Object) ((byte) (p * 84)), (Object) ((char) (p * 31114 - 5)), (Object) ((p & 1) == 0), (Object) (p * 4099631), (Object) ((char) (p * 12578 - 5)), (Object) (p * 8900000000L), (Object) (p * 188.25f));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S30_4("lit61", p * 9500000000L, (short) (p * 15617), "lit26", (short) (p * 2813)), "m0", (Object) ((short) (p * 17654)), (Object) ("o" + p), (Object) ("a" + p), (Object) ((byte) (p * 87)), (Object) (p / 143.0), (Object) ((byte) (p * 14)), (Object) (p * 3599676), (Object) (p * 2399784), (Object) (p / 28.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D30) new S30_0((short) (p * 776), "o" + p, null, (byte) (p * 1), p / 26.0, (byte) (p * 121), p * 2699757, p * 11698947, p / 195.0)).m4("a" + p, p * 2200000000L, (short) (p * 12319), null, (short) (p * 1164)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

package w;
/* generated by tools/genlink.py */
interface J33 {
  short m0(int[] a0, byte a1, long a2, char a3);
  boolean m1(int[] a0, Object a1, int a2, short a3, Object a4, double a5);
  Object m2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6);
  boolean m3(String a0);
  float m4();
  default long d(int p) { return p + 63; }
}
interface F33_0 { short f(int[] a0, byte a1, long a2, char a3); }
interface F33_1 { boolean f(int[] a0, Object a1, int a2, short a3, Object a4, double a5); }
interface F33_2 { Object f(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6); }
interface F33_3 { boolean f(String a0); }
interface F33_4 { float f(); }
interface N33_0 { D33 f(int[] a0, byte a1, long a2, char a3); }
interface N33_1 { D33 f(int[] a0, Object a1, int a2, short a3, Object a4, double a5); }
interface N33_2 { D33 f(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6); }
interface N33_3 { D33 f(String a0); }
interface N33_4 { D33 f(); }
abstract class D33 {
  long base;
  public short m0(int[] a0, byte a1, long a2, char a3) throws RuntimeException { long r = 5; long acc; return (short) r; }
  public abstract boolean m1(int[] a0, Object a1, int a2, short a3, Object a4, double a5);
  public Object m2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) throws RuntimeException { long r = 5; long acc; return (r & 7) == 0 ? null : (Object) Long.valueOf(r); }
  public boolean m3(String a0) throws RuntimeException { long r = 5; long acc; return (r & 4) == 0; }
  public float m4() throws RuntimeException { long r = 5; long acc; return (float) (r & 0xfffff) / 8; }
}
class S33_0 extends D33 implements J33 {
  volatile String f0 = null;
  volatile long f1 = 3 * 4300000000L;
  volatile int f2 = 3 * 4699577;
  short f3 = (short) (3 * 6596);
  public int[] f4 = new int[] {3, 113};
  static String s0 = null;
  static volatile long s1 = 3 * 500000000L;
  static volatile int s2 = 3 * 7399334;
  static long acc;
  S33_0(int[] a0, byte a1, long a2, char a3) {
    long r = 78;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public short m0(int[] a0, byte a1, long a2, char a3) {
    long r = 88;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (short) r;
  }
  static short t0(int[] a0, byte a1, long a2, char a3) {
    long r = 87;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (short) r;
  }
  synchronized public boolean m1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 55;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  static boolean t1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 6;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  synchronized public Object m2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 5;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 58;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public boolean m3(String a0) {
    long r = 59;
    r = r * 31 + L.v(a0);
    r += base;
    return (r & 4) == 0;
  }
  static private boolean t3(String a0) {
    long r = 12;
    r = r * 31 + L.v(a0);
    return (r & 4) == 0;
  }
  public float m4() {
    long r = 26;
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t4() {
    long r = 92;
    return (float) (r & 0xfffff) / 8;
  }
  static long fields(int p) {
    S33_0 o = new S33_0(new int[] {p, 145}, (byte) (p * 199), p * 17100000000L, (char) (p * 27142 - 5));
    long r = 1;
    r = r * 31 + L.get(o, "f4");
    o.f1 = p * 4900000000L;
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.v(s0) + L.get(S33_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S33_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S33_0.class, "s2");
    return r;
  }
}
class S33_1 extends D33 implements J33 {
  char f0 = (char) (3 * 44354 - 5);
  volatile double f1 = 3 / 54.0;
  short f2 = (short) (3 * 13774);
  long f3 = 3 * 8400000000L;
  public boolean f4 = (3 & 3) == 0;
  static char s0 = (char) (3 * 20853 - 5);
  static double s1 = 3 / 142.0;
  static volatile short s2 = (short) (3 * 13483);
  static long acc;
  S33_1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 66;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public short m0(int[] a0, byte a1, long a2, char a3) {
    long r = 90;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (short) r;
  }
  static synchronized short t0(int[] a0, byte a1, long a2, char a3) {
    long r = 16;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (short) r;
  }
  public boolean m1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 4) == 0;
  }
  public Object m2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 21;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public boolean m3(String a0) {
    long r = 79;
    r = r * 31 + L.v(a0);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t3(String a0) {
    long r = 64;
    r = r * 31 + L.v(a0);
    return (r & 4) == 0;
  }
  public float m4() {
    long r = 94;
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static float t4() {
    long r = 53;
    return (float) (r & 0xfffff) / 8;
  }
  static long fields(int p) {
    S33_1 o = new S33_1(new int[] {p, 62}, "o" + p, p * 12598866, (short) (p * 13871), (Object) Integer.valueOf(p), p / 100.0);
    long r = 1;
    r = r * 31 + L.get(o, "f1");
    o.f1 += p;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f3", new Object[] {p * 5700000000L}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f0", new Object[] {(char) (p * 42037 - 5)}[0]);
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.set(o, "f4", new Object[] {(p & 1) == 0}[0]);
    r = r * 31 + L.v(s0) + L.get(S33_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S33_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S33_1.class, "s2");
    return r;
  }
}
class S33_2 extends D33 implements J33 {
  volatile int[] f0 = new int[] {3, 192};
  short f1 = (short) (3 * 97);
  Object f2 = null;
  String f3 = "lit76";
  boolean f4 = (3 & 3) == 0;
  static int[] s0 = null;
  static short s1 = (short) (3 * 12707);
  static volatile Object s2 = "o" + 3;
  static long acc;
  S33_2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 9;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public short m0(int[] a0, byte a1, long a2, char a3) {
    long r = 28;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (short) r;
  }
  static short t0(int[] a0, byte a1, long a2, char a3) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (short) r;
  }
  public boolean m1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 27;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 4;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 4) == 0;
  }
  public Object m2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 98;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 14;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public boolean m3(String a0) {
    long r = 34;
    r = r * 31 + L.v(a0);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  static synchronized boolean t3(String a0) {
    long r = 47;
    r = r * 31 + L.v(a0);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  public float m4() {
    long r = 7;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t4() {
    long r = 38;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static long fields(int p) {
    S33_2 o = new S33_2((p & 3) == 0, (char) (p * 41044 - 5), new int[] {p, 152}, (byte) (p * 174), p * 500000000L, "o" + p, p * 15900000000L);
    long r = 1;
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.set(o, "f4", new Object[] {(p & 3) == 0}[0]);
    o.f1 = (short) (p * 19206);
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f3", null);
    r = r * 31 + L.v(s0) + L.get(S33_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S33_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S33_2.class, "s2");
    return r;
  }
}
class S33_3 extends D33 implements J33 {
  public char f0 = (char) (3 * 10592 - 5);
  public boolean f1 = (3 & 1) == 0;
  volatile long f2 = 3 * 10300000000L;
  public int f3 = 3 * 13198812;
  public String f4 = null;
  static char s0 = (char) (3 * 8275 - 5);
  static boolean s1 = (3 & 2) == 0;
  static long s2 = 3 * 7000000000L;
  static long acc;
  S33_3(String a0) {
    long r = 66;
    r = r * 31 + L.v(a0);
    base = r;
  }
  public short m0(int[] a0, byte a1, long a2, char a3) {
    long r = 97;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (short) r;
  }
  static synchronized short t0(int[] a0, byte a1, long a2, char a3) {
    long r = 8;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (short) r;
  }
  synchronized public boolean m1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 74;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 4) == 0;
  }
  static private boolean t1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 64;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 4) == 0;
  }
  public Object m2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 62;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  synchronized public boolean m3(String a0) {
    long r = 3;
    r = r * 31 + L.v(a0);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t3(String a0) {
    long r = 34;
    r = r * 31 + L.v(a0);
    return (r & 4) == 0;
  }
  public float m4() {
    long r = 54;
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static private float t4() {
    long r = 52;
    return (float) (r & 0xfffff) / 8;
  }
  static long fields(int p) {
    S33_3 o = new S33_3("a" + p);
    long r = 1;
    o.f3 = p * 7899289;
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    o.f3 = p * 5699487;
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f0");
    o.f0 += p;
    r += L.v(o.f0++);
    r = r * 31 + L.set(o, "f2", new Object[] {p * 12800000000L}[0]);
    o.f2 += p;
    r += L.v(o.f2++);
    r = r * 31 + L.get(o, "f3");
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S33_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S33_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S33_3.class, "s2");
    return r;
  }
}
class S33_4 extends D33 implements J33 {
  public short f0 = (short) (3 * 16587);
  volatile long f1 = 3 * 17900000000L;
  public boolean f2 = (3 & 1) == 0;
  Object f3 = (Object) Integer.valueOf(3);
  char f4 = (char) (3 * 65538 - 5);
  static short s0 = (short) (3 * 18042);
  static volatile long s1 = 3 * 9100000000L;
  static boolean s2 = (3 & 2) == 0;
  static long acc;
  S33_4() {
    long r = 61;
    base = r;
  }
  public short m0(int[] a0, byte a1, long a2, char a3) {
    long r = 21;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return (short) r;
  }
  static short t0(int[] a0, byte a1, long a2, char a3) {
    long r = 99;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return (short) r;
  }
  synchronized public boolean m1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 16;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  static synchronized boolean t1(int[] a0, Object a1, int a2, short a3, Object a4, double a5) {
    long r = 87;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  public Object m2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 51;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t2(boolean a0, char a1, int[] a2, byte a3, long a4, Object a5, long a6) {
    long r = 96;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public boolean m3(String a0) {
    long r = 79;
    r = r * 31 + L.v(a0);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  static boolean t3(String a0) {
    long r = 3;
    r = r * 31 + L.v(a0);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  public float m4() {
    long r = 17;
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static float t4() {
    long r = 13;
    return (float) (r & 0xfffff) / 8;
  }
  static long fields(int p) {
    S33_4 o = new S33_4();
    long r = 1;
    r = r * 31 + L.set(o, "f4", new Object[] {(char) (p * 42368 - 5)}[0]);
    o.f4 += p;
    r += L.v(o.f4++);
    o.f1 = p * 5600000000L;
    r = r * 31 + L.v(o.f1);
    o.f1 += p;
    r += L.v(o.f1++);
    o.f2 = (p & 3) == 0;
    r = r * 31 + L.v(o.f2);
    o.f2 = (p & 3) == 0;
    r = r * 31 + L.v(o.f2);
    r = r * 31 + L.get(o, "f2");
    r = r * 31 + L.get(o, "f2");
    r = r * 31 + L.v(s0) + L.get(S33_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S33_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S33_4.class, "s2");
    return r;
  }
}
public class G33 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + ((J33) new S33_4()).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S33_0(new int[] {p, 200}, (byte) (p * 6), p * 12600000000L, (char) (p * 13902 - 5)), "m0", (Object) (null), (Object) ((byte) (p * 16)), (Object) (p * 4400000000L), (Object) ((char) (p * 13902 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J33) new S33_3("a" + p)).m4());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S33_2((p & 3) == 0, (char) (p * 30121 - 5), new int[] {p, 130}, (byte) (p * 116), p * 12100000000L, null, p * 11100000000L), "m1", (Object) (new int[] {p, 31}), (Object) ((Object) Integer.valueOf(p)), (Object) (p * 8099271), (Object) ((short) (p * 3007)), (Object) ((Object) Integer.valueOf(p)), (Object) (p / 33.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      r = r * 31 + L.v(((J33) new S33_0(null, (byte) (p * 128), p * 2300000000L, (char) (p * 25818 - 5))).m1(null, null, p * 1799838, (short) (p * 6208), null, p / 116.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<Integer, Object> f = L::cube;
      r = r * 31 + L.v(f.f(p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N33_2 f = S33_2::new;
      r = r * 31 + f.f((p & 1) == 0, (char) (p * 32438 - 5), null, (byte) (p * 13), p * 10300000000L, null, p * 12600000000L).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + L.make(S33_1.class, (Object) (new int[] {p, 170}), (Object) ("o" + p), (Object) (p * 10899019), (Object) ((short) (p * 11446)), (Object) ("o" + p), (Object) (p / 118.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      N33_1 f = S33_1::new;
      r = r * 31 + f.f(new int[] {p, 133}, (Object) Integer.valueOf(p), p * 18498335, (short) (p * 13192), "o" + p, p / 109.0).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S33_4(), "m4");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J33) new S33_0(new int[] {p, 46}, (byte) (p * 148), p * 4100000000L, (char) (p * 7613 - 5))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D33) new S33_2((p & 3) == 0, (char) (p * 62559 - 5), null, (byte) (p * 86), p * 16500000000L, "o" + p, p * 6300000000L)).m1(new int[] {p, 129}, null, p * 8399244, (short) (p * 14453), null, p / 42.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F33_1 f = S33_1::t1;
      r = r * 31 + L.v(f.f(new int[] {p, 14}, "o" + p, p * 11898929, (short) (p * 9215), (Object) Integer.valueOf(p), p / 94.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r = r * 31 + L.v(S33_3.t3("lit132"));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.ToD<Character> f = L::dbl;
      r = r * 31 + L.v(f.f((char) (p + 70)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.make(S33_3.class, (Object) ("a" + p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F33_1 f = new S33_3("lit163")::m1;
      r = r * 31 + L.v(f.f(null, "o" + p, p * 15798578, (short) (p * 2328), (Object) Integer.valueOf(p), p / 33.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + ((J33) new S33_0(new int[] {p, 59}, (byte) (p * 111), p * 19300000000L, (char) (p * 39058 - 5))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r = r * 31 + ((J33) new S33_2((p & 1) == 0, (char) (p * 3972 - 5), new int[] {p, 127}, (byte) (p * 102), p * 2700000000L, null, p * 7100000000L)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J33) L.full(J33.class)).m0(null, (byte) (p * 161), p * 7700000000L, (char) (p * 57594 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D33) new S33_0(new int[] {p, 175}, (byte) (p * 200), p * 10400000000L, (char) (p * 37734 - 5))).m0(null, (byte) (p * 99), p * 10700000000L, (char) (p * 37734 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J33) L.full(J33.class)).m3("lit135"));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.v(S33_0.t0(new int[] {p, 61}, (byte) (p * 18), p * 9100000000L, (char) (p * 4303 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.IntL f = L::bump;
      r = r * 31 + f.f(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F33_4 f = new S33_2((p & 1) == 0, (char) (p * 20522 - 5), null, (byte) (p * 76), p * 7700000000L, "o" + p, p * 16800000000L)::m4;
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F33_1 f = S33_1::t1;
      r = r * 31 + L.v(f.f(new int[] {p, 166}, null, p * 17198452, (short) (p * 11834), null, p / 144.0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      java.util.Comparator<String> f = String::compareTo;
      r = r * 31 + f.compare("a" + p, "a45");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final byte c0 = (byte) (p * 120);
      final long c1 = p * 8200000000L;
      F33_4 f = () -> { long r0 = p + L.v(c0) + L.v(c1); long r1 = r0; return (float) (r1 & 0xfffff) / 8; };
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D33) new S33_4()).m4());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S33_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      r = r * 31 + L.v(S33_4.t4());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S33_1.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S33_3("a" + p), "m3", (Object) (null));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D33) new S33_3(null)).m0(new int[] {p, 59}, (byte) (p * 125), p * 14500000000L, (char) (p * 49650 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

package w;
/* generated by tools/genlink.py */
interface J35 {
  float m0(short a0, char a1);
  Object m1();
  long m2(char a0, short a1, byte a2, char a3, long a4);
  Object m3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5);
  int[] m4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8);
  default long d(int p) { return p + 2; }
}
interface F35_0 { float f(short a0, char a1); }
interface F35_1 { Object f(); }
interface F35_2 { long f(char a0, short a1, byte a2, char a3, long a4); }
interface F35_3 { Object f(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5); }
interface F35_4 { int[] f(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8); }
interface N35_0 { D35 f(short a0, char a1); }
interface N35_1 { D35 f(); }
interface N35_2 { D35 f(char a0, short a1, byte a2, char a3, long a4); }
interface N35_3 { D35 f(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5); }
interface N35_4 { D35 f(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8); }
abstract class D35 {
  long base;
  public abstract float m0(short a0, char a1);
  public abstract Object m1();
  public long m2(char a0, short a1, byte a2, char a3, long a4) throws RuntimeException { long r = 5; long acc; return r; }
  public Object m3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) throws RuntimeException { long r = 5; long acc; return (r & 7) == 0 ? null : (Object) Long.valueOf(r); }
  public abstract int[] m4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8);
}
class S35_0 extends D35 implements J35 {
  volatile boolean f0 = (3 & 3) == 0;
  public byte f1 = (byte) (3 * 173);
  Object f2 = (Object) Integer.valueOf(3);
  volatile double f3 = 3 / 112.0;
  public int f4 = 3 * 13898749;
  static volatile boolean s0 = (3 & 2) == 0;
  static byte s1 = (byte) (3 * 141);
  static Object s2 = (Object) Integer.valueOf(3);
  static long acc;
  S35_0(short a0, char a1) {
    long r = 75;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    base = r;
  }
  synchronized public float m0(short a0, char a1) {
    long r = 70;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static float t0(short a0, char a1) {
    long r = 32;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (float) (r & 0xfffff) / 8;
  }
  public Object m1() {
    long r = 10;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t1() {
    long r = 46;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public long m2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return r;
  }
  static private long t2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 36;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return r;
  }
  public Object m3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 93;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 48;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public int[] m4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return new int[] {(int) r, 4};
  }
  static private int[] t4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 90;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return new int[] {(int) r, 4};
  }
  static long fields(int p) {
    S35_0 o = new S35_0((short) (p * 970), (char) (p * 25818 - 5));
    long r = 1;
    o.f2 = (Object) Integer.valueOf(p);
    r = r * 31 + L.v(o.f2);
    r = r * 31 + L.set(o, "f1", new Object[] {(byte) (p * 90)}[0]);
    o.f1 += p;
    r += L.v(o.f1++);
    r = r * 31 + L.get(o, "f4");
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f4", new Object[] {p * 11298983}[0]);
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S35_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S35_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S35_0.class, "s2");
    return r;
  }
}
class S35_1 extends D35 implements J35 {
  long f0 = 3 * 18200000000L;
  byte f1 = (byte) (3 * 61);
  public int[] f2 = new int[] {3, 52};
  volatile int f3 = 3 * 8099271;
  volatile String f4 = null;
  static long s0 = 3 * 12900000000L;
  static byte s1 = (byte) (3 * 133);
  static int[] s2 = new int[] {3, 179};
  static long acc;
  S35_1() {
    long r = 36;
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  synchronized public float m0(short a0, char a1) {
    long r = 14;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  static private float t0(short a0, char a1) {
    long r = 36;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (float) (r & 0xfffff) / 8;
  }
  public Object m1() {
    long r = 19;
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t1() {
    long r = 43;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public long m2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 52;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static synchronized long t2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 7;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public Object m3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static synchronized Object t3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 84;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public int[] m4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 42;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return new int[] {(int) r, 4};
  }
  static int[] t4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 93;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    if ((r & 15) == 5) throw new L.Odd(r);
    return new int[] {(int) r, 4};
  }
  static long fields(int p) {
    S35_1 o = new S35_1();
    long r = 1;
    o.f3 = p * 3099721;
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f1", new Object[] {(byte) (p * 137)}[0]);
    o.f1 += p;
    r += L.v(o.f1++);
    r = r * 31 + L.set(o, "f1", new Object[] {(byte) (p * 133)}[0]);
    o.f1 += p;
    r += L.v(o.f1++);
    o.f4 = null;
    r = r * 31 + L.v(o.f4);
    o.f3 = p * 6799388;
    r = r * 31 + L.v(o.f3);
    o.f3 += p;
    r += L.v(o.f3++);
    o.f3 = p * 7699307;
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S35_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S35_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S35_1.class, "s2");
    return r;
  }
}
class S35_2 extends D35 implements J35 {
  volatile short f0 = (short) (3 * 13095);
  volatile boolean f1 = (3 & 1) == 0;
  double f2 = 3 / 84.0;
  volatile Object f3 = null;
  String f4 = null;
  static short s0 = (short) (3 * 1746);
  static volatile boolean s1 = (3 & 2) == 0;
  static double s2 = 3 / 62.0;
  static long acc;
  S35_2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    base = r;
  }
  synchronized public float m0(short a0, char a1) {
    long r = 53;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static synchronized float t0(short a0, char a1) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public Object m1() {
    long r = 90;
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t1() {
    long r = 38;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public long m2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 25;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 89;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public Object m3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 74;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 11;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public int[] m4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 32;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return new int[] {(int) r, 4};
  }
  static private int[] t4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 45;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return new int[] {(int) r, 4};
  }
  static long fields(int p) {
    S35_2 o = new S35_2((char) (p * 48657 - 5), (short) (p * 14356), (byte) (p * 109), (char) (p * 32107 - 5), p * 2200000000L);
    long r = 1;
    r = r * 31 + L.set(o, "f4", null);
    r = r * 31 + L.get(o, "f0");
    o.f0 += p;
    r += L.v(o.f0++);
    o.f1 = (p & 2) == 0;
    r = r * 31 + L.v(o.f1);
    r = r * 31 + L.set(o, "f4", "a" + p);
    r = r * 31 + L.v(s0) + L.get(S35_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S35_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S35_2.class, "s2");
    return r;
  }
}
class S35_3 extends D35 implements J35 {
  volatile float f0 = 3 * 102.25f;
  public char f1 = (char) (3 * 21846 - 5);
  public int[] f2 = new int[] {3, 69};
  double f3 = 3 / 91.0;
  boolean f4 = (3 & 2) == 0;
  static volatile float s0 = 3 * 68.25f;
  static char s1 = (char) (3 * 28135 - 5);
  static volatile int[] s2 = null;
  static long acc;
  S35_3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 87;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public float m0(short a0, char a1) {
    long r = 80;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static private float t0(short a0, char a1) {
    long r = 26;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (float) (r & 0xfffff) / 8;
  }
  public Object m1() {
    long r = 67;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t1() {
    long r = 25;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public long m2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 97;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static private long t2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 39;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public Object m3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 10;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static Object t3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 13;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public int[] m4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 57;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return new int[] {(int) r, 4};
  }
  static private int[] t4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 61;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return new int[] {(int) r, 4};
  }
  static long fields(int p) {
    S35_3 o = new S35_3((p & 3) == 0, (p & 1) == 0, (p & 2) == 0, p * 9100000000L, null, p * 7699307);
    long r = 1;
    o.f3 = p / 189.0;
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    o.f1 = (char) (p * 18867 - 5);
    r = r * 31 + L.v(o.f1);
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.get(o, "f2");
    r = r * 31 + L.v(s0) + L.get(S35_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S35_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S35_3.class, "s2");
    return r;
  }
}
class S35_4 extends D35 implements J35 {
  public long f0 = 3 * 19600000000L;
  public Object f1 = (Object) Integer.valueOf(3);
  public char f2 = (char) (3 * 41706 - 5);
  volatile short f3 = (short) (3 * 9603);
  volatile boolean f4 = (3 & 1) == 0;
  static long s0 = 3 * 2200000000L;
  static volatile Object s1 = null;
  static volatile char s2 = (char) (3 * 1986 - 5);
  static long acc;
  S35_4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 57;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    base = r;
  }
  public float m0(short a0, char a1) {
    long r = 49;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (float) (r & 0xfffff) / 8;
  }
  static float t0(short a0, char a1) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (float) (r & 0xfffff) / 8;
  }
  synchronized public Object m1() {
    long r = 28;
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t1() {
    long r = 86;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  public long m2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 23;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return r;
  }
  static private long t2(char a0, short a1, byte a2, char a3, long a4) {
    long r = 29;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return r;
  }
  synchronized public Object m3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 71;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r += base;
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  static private Object t3(boolean a0, boolean a1, boolean a2, long a3, Object a4, int a5) {
    long r = 7;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    return (r & 7) == 0 ? null : (Object) Long.valueOf(r);
  }
  synchronized public int[] m4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 19;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    r += base;
    return new int[] {(int) r, 4};
  }
  static int[] t4(short a0, int[] a1, short a2, long a3, int[] a4, String a5, Object a6, float a7, int a8) {
    long r = 50;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r = r * 31 + L.v(a5);
    r = r * 31 + L.v(a6);
    r = r * 31 + L.v(a7);
    r = r * 31 + L.v(a8);
    return new int[] {(int) r, 4};
  }
  static long fields(int p) {
    S35_4 o = new S35_4((short) (p * 5723), new int[] {p, 192}, (short) (p * 12416), p * 13000000000L, null, "a" + p, (Object) Integer.valueOf(p), p * 20.25f, p * 17298443);
    long r = 1;
    o.f3 = (short) (p * 11058);
    r = r * 31 + L.v(o.f3);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f4");
    o.f2 = (char) (p * 46340 - 5);
    r = r * 31 + L.v(o.f2);
    o.f2 += 3;
    r += L.v(o.f2++);
    r = r * 31 + L.set(o, "f3", new Object[] {(short) (p * 7469)}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S35_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S35_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S35_4.class, "s2");
    return r;
  }
}
public class G35 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + L.make(S35_0.class, (Object) ((short) (p * 9894)), (Object) ((char) (p * 1986 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<String, Integer> f = Integer::parseInt;
      r = r * 31 + f.f("" + p * 29);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N35_0 f = S35_0::new;
      r = r * 31 + f.f((short) (p * 17266), (char) (p * 62228 - 5)).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F35_3 f = S35_3::t3;
      r = r * 31 + L.v(f.f((p & 3) == 0, (p & 1) == 0, (p & 3) == 0, p * 900000000L, (Object) Integer.valueOf(p), p * 3699667));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      Runnable f = (Runnable & java.io.Serializable) () -> L.il(p);
      f.run();
      r = r * 31 + (f instanceof java.io.Serializable ? 1 : 2);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(new S35_1(), "m2", (Object) ((char) (p * 56270 - 5)), (Object) ((short) (p * 18818)), (Object) ((byte) (p * 102)), (Object) ((char) (p * 51305 - 5)), (Object) (p * 5600000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.ToL<Short> f = x -> x;
      r = r * 31 + f.f((short) (p * -7));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(S35_3.t3((p & 2) == 0, (p & 1) == 0, (p & 3) == 0, p * 3300000000L, null, p * 11798938));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F35_1 f = new S35_2((char) (p * 28135 - 5), (short) (p * 13677), (byte) (p * 129), (char) (p * 62559 - 5), p * 15300000000L)::m1;
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D35) new S35_3((p & 3) == 0, (p & 3) == 0, (p & 3) == 0, p * 19000000000L, "o" + p, p * 13998740)).m2((char) (p * 52960 - 5), (short) (p * 18527), (byte) (p * 96), (char) (p * 9930 - 5), p * 19900000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      r = r * 31 + ((J35) new S35_2((char) (p * 26149 - 5), (short) (p * 6111), (byte) (p * 16), (char) (p * 22177 - 5), p * 5200000000L)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + S35_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J35) L.full(J35.class)).m0((short) (p * 12416), (char) (p * 53291 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.make(S35_0.class, (Object) ((short) (p * 14259)), (Object) ((char) (p * 27473 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(S35_3.t3((p & 1) == 0, (p & 1) == 0, (p & 3) == 0, p * 17800000000L, null, p * 2399784));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      L.Gn<java.util.List<Integer>, Integer> f = x -> x.get(0);
      r = r * 31 + f.f(java.util.Collections.singletonList(p));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J35) new S35_1()).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D35) new S35_4((short) (p * 2231), null, (short) (p * 6111), p * 4600000000L, null, "a" + p, null, p * 95.25f, p * 17698407)).m1());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F35_2 f = S35_2::t2;
      r = r * 31 + L.v(f.f((char) (p * 4634 - 5), (short) (p * 2716), (byte) (p * 13), (char) (p * 30452 - 5), p * 10200000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      r = r * 31 + L.v(((J35) new S35_3((p & 3) == 0, (p & 3) == 0, (p & 3) == 0, p * 11300000000L, null, p * 4999550)).m4((short) (p * 12028), null, (short) (p * 2231), p * 14700000000L, null, "lit114", (Object) Integer.valueOf(p), p * 30.25f, p * 13998740));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J35) new S35_3((p & 2) == 0, (p & 2) == 0, (p & 1) == 0, p * 18800000000L, (Object) Integer.valueOf(p), p * 15598596)).m2((char) (p * 57925 - 5), (short) (p * 8439), (byte) (p * 143), (char) (p * 50312 - 5), p * 14500000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      N35_2 f = S35_2::new;
      r = r * 31 + f.f((char) (p * 29790 - 5), (short) (p * 16781), (byte) (p * 142), (char) (p * 32769 - 5), p * 13400000000L).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((J35) L.full(J35.class)).m3((p & 3) == 0, (p & 3) == 0, (p & 3) == 0, p * 8700000000L, "o" + p, p * 4099631));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((D35) new S35_3((p & 3) == 0, (p & 1) == 0, (p & 1) == 0, p * 2900000000L, "o" + p, p * 3099721)).m4((short) (p * 194), new int[] {p, 114}, (short) (p * 10379), p * 2800000000L, new int[] {p, 172}, "a" + p, "o" + p, p * 135.25f, p * 14998650));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.call(S35_3.class, "t3", (Object) ((p & 1) == 0), (Object) ((p & 3) == 0), (Object) ((p & 1) == 0), (Object) (p * 6200000000L), (Object) ("o" + p), (Object) (p * 6799388));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J35) new S35_3((p & 3) == 0, (p & 2) == 0, (p & 3) == 0, p * 3300000000L, (Object) Integer.valueOf(p), p * 2599766)).m0((short) (p * 9797), (char) (p * 40051 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F35_4 f = new S35_1()::m4;
      r = r * 31 + L.v(f.f((short) (p * 11834), new int[] {p, 193}, (short) (p * 18818), p * 6800000000L, null, null, (Object) Integer.valueOf(p), p * 145.25f, p * 11198992));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + S35_0.fields(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.ToD<Long> f = Long::longValue;
      r = r * 31 + L.v(f.f(p * 3L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.call(new S35_0((short) (p * 17654), (char) (p * 31776 - 5)), "m3", (Object) ((p & 3) == 0), (Object) ((p & 2) == 0), (Object) ((p & 2) == 0), (Object) (p * 13400000000L), (Object) (null), (Object) (p * 2999730));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + ((J35) new S35_0((short) (p * 7566), (char) (p * 56932 - 5))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D35) new S35_0((short) (p * 14744), (char) (p * 33431 - 5))).m2((char) (p * 65538 - 5), (short) (p * 12319), (byte) (p * 129), (char) (p * 36079 - 5), p * 8700000000L));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final short c0 = (short) (p * 12416);
      final short c1 = (short) (p * 17945);
      final char c2 = (char) (p * 44685 - 5);
      F35_3 f = (x0, x1, x2, x3, x4, x5) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5); long r1 = r0; return (r1 & 7) == 0 ? null : (Object) Long.valueOf(r1); };
      r = r * 31 + L.v(f.f((p & 1) == 0, (p & 2) == 0, (p & 2) == 0, p * 1100000000L, null, p * 17298443));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(new S35_4((short) (p * 1649), null, (short) (p * 7178), p * 12900000000L, null, null, "o" + p, p * 199.25f, p * 499955).m4((short) (p * 9506), new int[] {p, 68}, (short) (p * 194), p * 19900000000L, null, null, (Object) Integer.valueOf(p), p * 46.25f, p * 13798758));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      final short c0 = (short) (p * 3298);
      final short c1 = (short) (p * 9603);
      final char c2 = (char) (p * 993 - 5);
      F35_3 f = (x0, x1, x2, x3, x4, x5) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4) - L.v(x5); long r1 = r0; return (r1 & 7) == 0 ? null : (Object) Long.valueOf(r1); };
      r = r * 31 + L.v(f.f((p & 2) == 0, (p & 3) == 0, (p & 2) == 0, p * 13900000000L, null, p * 15398614));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final boolean c0 = (p & 2) == 0;
      F35_1 f = () -> { long r0 = p + L.v(c0); long r1 = r0; return (r1 & 7) == 0 ? null : (Object) Long.valueOf(r1); };
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      java.util.Comparator<String> f = String::compareTo;
      r = r * 31 + f.compare("a" + p, "a20");
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

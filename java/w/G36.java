package w;
/* generated by tools/genlink.py */
interface J36 {
  boolean m0(byte a0, boolean a1, long a2, byte a3, char a4);
  int m1(long a0, int a1);
  char m2(char a0, boolean a1);
  long m3(int a0, boolean a1, int[] a2, int a3);
  double m4();
  default long d(int p) { return p + 24; }
}
interface F36_0 { boolean f(byte a0, boolean a1, long a2, byte a3, char a4); }
interface F36_1 { int f(long a0, int a1); }
interface F36_2 { char f(char a0, boolean a1); }
interface F36_3 { long f(int a0, boolean a1, int[] a2, int a3); }
interface F36_4 { double f(); }
interface N36_0 { D36 f(byte a0, boolean a1, long a2, byte a3, char a4); }
interface N36_1 { D36 f(long a0, int a1); }
interface N36_2 { D36 f(char a0, boolean a1); }
interface N36_3 { D36 f(int a0, boolean a1, int[] a2, int a3); }
interface N36_4 { D36 f(); }
abstract class D36 {
  long base;
  public abstract boolean m0(byte a0, boolean a1, long a2, byte a3, char a4);
  public abstract int m1(long a0, int a1);
  public abstract char m2(char a0, boolean a1);
  public long m3(int a0, boolean a1, int[] a2, int a3) throws RuntimeException { long r = 5; long acc; return r; }
  public abstract double m4();
}
class S36_0 extends D36 implements J36 {
  volatile short f0 = (short) (3 * 9506);
  volatile Object f1 = null;
  volatile String f2 = null;
  volatile char f3 = (char) (3 * 51967 - 5);
  int f4 = 3 * 17498425;
  static volatile short s0 = (short) (3 * 3104);
  static volatile Object s1 = null;
  static volatile String s2 = null;
  static long acc;
  S36_0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 97;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public boolean m0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 7;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 1;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return (r & 4) == 0;
  }
  public int m1(long a0, int a1) {
    long r = 96;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static private int t1(long a0, int a1) {
    long r = 12;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (int) (r ^ r >>> 32);
  }
  public char m2(char a0, boolean a1) {
    long r = 38;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (char) r;
  }
  static char t2(char a0, boolean a1) {
    long r = 59;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (char) r;
  }
  public long m3(int a0, boolean a1, int[] a2, int a3) {
    long r = 68;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return r;
  }
  static private long t3(int a0, boolean a1, int[] a2, int a3) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return r;
  }
  public double m4() {
    long r = 44;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static private double t4() {
    long r = 5;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S36_0 o = new S36_0((byte) (p * 129), (p & 3) == 0, p * 15400000000L, (byte) (p * 193), (char) (p * 8606 - 5));
    long r = 1;
    o.f0 = (short) (p * 19012);
    r = r * 31 + L.v(o.f0);
    o.f0 += 3;
    r += L.v(o.f0++);
    o.f4 = p * 9699127;
    r = r * 31 + L.v(o.f4);
    o.f4 += 3;
    r += L.v(o.f4++);
    o.f1 = null;
    r = r * 31 + L.v(o.f1);
    r = r * 31 + L.set(o, "f3", new Object[] {(char) (p * 65538 - 5)}[0]);
    o.f3 += p;
    r += L.v(o.f3++);
    r = r * 31 + L.get(o, "f4");
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S36_0.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S36_0.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S36_0.class, "s2");
    return r;
  }
}
class S36_1 extends D36 implements J36 {
  volatile boolean f0 = (3 & 1) == 0;
  String f1 = "a" + 3;
  volatile int[] f2 = new int[] {3, 67};
  volatile byte f3 = (byte) (3 * 61);
  float f4 = 3 * 21.25f;
  static volatile boolean s0 = (3 & 2) == 0;
  static String s1 = "a" + 3;
  static int[] s2 = null;
  static long acc;
  S36_1(long a0, int a1) {
    long r = 18;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    base = r;
  }
  synchronized public boolean m0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 37;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  static private boolean t0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 43;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  public int m1(long a0, int a1) {
    long r = 43;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static int t1(long a0, int a1) {
    long r = 54;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (int) (r ^ r >>> 32);
  }
  synchronized public char m2(char a0, boolean a1) {
    long r = 52;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static char t2(char a0, boolean a1) {
    long r = 39;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  synchronized public long m3(int a0, boolean a1, int[] a2, int a3) {
    long r = 55;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static synchronized long t3(int a0, boolean a1, int[] a2, int a3) {
    long r = 19;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  public double m4() {
    long r = 30;
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static private double t4() {
    long r = 67;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S36_1 o = new S36_1(p * 13100000000L, p * 19198272);
    long r = 1;
    r = r * 31 + L.set(o, "f4", new Object[] {p * 171.25f}[0]);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.get(o, "f2");
    r = r * 31 + L.get(o, "f3");
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.set(o, "f4", new Object[] {p * 165.25f}[0]);
    o.f4 += 3;
    r += L.v(o.f4++);
    r = r * 31 + L.set(o, "f4", new Object[] {p * 46.25f}[0]);
    o.f4 += p;
    r += L.v(o.f4++);
    r = r * 31 + L.v(s0) + L.get(S36_1.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S36_1.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S36_1.class, "s2");
    return r;
  }
}
class S36_2 extends D36 implements J36 {
  long f0 = 3 * 1300000000L;
  int f1 = 3 * 599946;
  char f2 = (char) (3 * 14895 - 5);
  volatile byte f3 = (byte) (3 * 167);
  public float f4 = 3 * 73.25f;
  static volatile long s0 = 3 * 6500000000L;
  static volatile int s1 = 3 * 8799208;
  static char s2 = (char) (3 * 19529 - 5);
  static long acc;
  S36_2(char a0, boolean a1) {
    long r = 27;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    base = r;
  }
  public boolean m0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 52;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  static synchronized boolean t0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 47;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  synchronized public int m1(long a0, int a1) {
    long r = 58;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static synchronized int t1(long a0, int a1) {
    long r = 79;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (int) (r ^ r >>> 32);
  }
  public char m2(char a0, boolean a1) {
    long r = 99;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  static char t2(char a0, boolean a1) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (char) r;
  }
  synchronized public long m3(int a0, boolean a1, int[] a2, int a3) {
    long r = 95;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return r;
  }
  static synchronized long t3(int a0, boolean a1, int[] a2, int a3) {
    long r = 31;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return r;
  }
  public double m4() {
    long r = 90;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static synchronized double t4() {
    long r = 82;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S36_2 o = new S36_2((char) (p * 49319 - 5), (p & 3) == 0);
    long r = 1;
    o.f3 = (byte) (p * 110);
    r = r * 31 + L.v(o.f3);
    o.f3 += 3;
    r += L.v(o.f3++);
    r = r * 31 + L.v(s0) + L.get(S36_2.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S36_2.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S36_2.class, "s2");
    return r;
  }
}
class S36_3 extends D36 implements J36 {
  public String f0 = "a" + 3;
  short f1 = (short) (3 * 12707);
  volatile long f2 = 3 * 15000000000L;
  boolean f3 = (3 & 3) == 0;
  volatile char f4 = (char) (3 * 56601 - 5);
  static String s0 = null;
  static short s1 = (short) (3 * 12028);
  static long s2 = 3 * 200000000L;
  static long acc;
  S36_3(int a0, boolean a1, int[] a2, int a3) {
    long r = 95;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    base = r;
    if ((r & 31) == 3) throw new L.Odd(r);
  }
  public boolean m0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 25;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  static private boolean t0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 15;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (r & 4) == 0;
  }
  public int m1(long a0, int a1) {
    long r = 96;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (int) (r ^ r >>> 32);
  }
  static int t1(long a0, int a1) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (int) (r ^ r >>> 32);
  }
  public char m2(char a0, boolean a1) {
    long r = 31;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (char) r;
  }
  static char t2(char a0, boolean a1) {
    long r = 40;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (char) r;
  }
  public long m3(int a0, boolean a1, int[] a2, int a3) {
    long r = 2;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  static long t3(int a0, boolean a1, int[] a2, int a3) {
    long r = 79;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    if ((r & 15) == 5) throw new L.Odd(r);
    return r;
  }
  synchronized public double m4() {
    long r = 19;
    r += base;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t4() {
    long r = 47;
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S36_3 o = new S36_3(p * 13198812, (p & 3) == 0, new int[] {p, 126}, p * 3799658);
    long r = 1;
    r = r * 31 + L.get(o, "f1");
    o.f1 += 3;
    r += L.v(o.f1++);
    o.f0 = "a" + p;
    r = r * 31 + L.v(o.f0);
    r = r * 31 + L.get(o, "f0");
    o.f0 = "lit187";
    r = r * 31 + L.v(o.f0);
    r = r * 31 + L.v(s0) + L.get(S36_3.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S36_3.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S36_3.class, "s2");
    return r;
  }
}
class S36_4 extends D36 implements J36 {
  short f0 = (short) (3 * 10282);
  volatile char f1 = (char) (3 * 15888 - 5);
  public Object f2 = (Object) Integer.valueOf(3);
  public boolean f3 = (3 & 2) == 0;
  public int[] f4 = null;
  static short s0 = (short) (3 * 5917);
  static char s1 = (char) (3 * 18205 - 5);
  static volatile Object s2 = (Object) Integer.valueOf(3);
  static long acc;
  S36_4() {
    long r = 80;
    base = r;
  }
  public boolean m0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 83;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    r += base;
    return (r & 4) == 0;
  }
  static boolean t0(byte a0, boolean a1, long a2, byte a3, char a4) {
    long r = 40;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r = r * 31 + L.v(a4);
    return (r & 4) == 0;
  }
  synchronized public int m1(long a0, int a1) {
    long r = 11;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (int) (r ^ r >>> 32);
  }
  static int t1(long a0, int a1) {
    long r = 68;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    if ((r & 15) == 5) throw new L.Odd(r);
    return (int) (r ^ r >>> 32);
  }
  synchronized public char m2(char a0, boolean a1) {
    long r = 54;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r += base;
    return (char) r;
  }
  static private char t2(char a0, boolean a1) {
    long r = 69;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    return (char) r;
  }
  public long m3(int a0, boolean a1, int[] a2, int a3) {
    long r = 60;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    r += base;
    return r;
  }
  static long t3(int a0, boolean a1, int[] a2, int a3) {
    long r = 46;
    r = r * 31 + L.v(a0);
    r = r * 31 + L.v(a1);
    r = r * 31 + L.v(a2);
    r = r * 31 + L.v(a3);
    return r;
  }
  public double m4() {
    long r = 43;
    r += base;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static double t4() {
    long r = 82;
    if ((r & 15) == 5) throw new L.Odd(r);
    return (double) (r & 0xfffffffffL) / 16;
  }
  static long fields(int p) {
    S36_4 o = new S36_4();
    long r = 1;
    r = r * 31 + L.get(o, "f0");
    o.f0 += 3;
    r += L.v(o.f0++);
    r = r * 31 + L.set(o, "f1", new Object[] {(char) (p * 22177 - 5)}[0]);
    o.f1 += 3;
    r += L.v(o.f1++);
    r = r * 31 + L.get(o, "f1");
    o.f1 += p;
    r += L.v(o.f1++);
    r = r * 31 + L.get(o, "f4");
    r = r * 31 + L.v(s0) + L.get(S36_4.class, "s0");
    r = r * 31 + L.v(s1) + L.get(S36_4.class, "s1");
    r = r * 31 + L.v(s2) + L.get(S36_4.class, "s2");
    return r;
  }
}
public class G36 {
  static final ThreadLocal<long[]> box = null;
  static volatile long acc;
  static long e0(int p) {
    long r = 0;
    try {
      r = r * 31 + L.v(S36_2.t2((char) (p * 3641 - 5), (p & 2) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(new S36_1(p * 16700000000L, p * 3999640).m1(p * 400000000L, p * 9699127));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.make(S36_0.class, (Object) ((byte) (p * 70)), (Object) ((p & 3) == 0), (Object) (p * 14400000000L), (Object) ((byte) (p * 4)), (Object) ((char) (p * 26811 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final double c0 = p / 38.0;
      final double c1 = p / 144.0;
      final Object c2 = "o" + p;
      F36_1 f = (x0, x1) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) - L.v(x0) - L.v(x1); long r1 = r0; return (int) (r1 ^ r1 >>> 32); };
      r = r * 31 + L.v(f.f(p * 16600000000L, p * 199982));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn2<String, String, Integer> f = String::indexOf;
      r = r * 31 + f.f("xy" + p, "" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D36) new S36_1(p * 7900000000L, p * 3399694)).m0((byte) (p * 30), (p & 1) == 0, p * 17400000000L, (byte) (p * 4), (char) (p * 15557 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e1(int p) {
    long r = 1;
    try {
      L.Gn<Long, Number> f = x -> x * 4;
      r = r * 31 + f.f((long) p).longValue();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D36) new S36_1(p * 7900000000L, p * 9499145)).m4());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J36) L.full(J36.class)).m3(p * 17898389, (p & 2) == 0, new int[] {p, 66}, p * 11198992));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F36_3 f = S36_3::t3;
      r = r * 31 + L.v(f.f(p * 14598686, (p & 1) == 0, new int[] {p, 20}, p * 11698947));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e2(int p) {
    long r = 2;
    try {
      F36_0 f = S36_0::t0;
      r = r * 31 + L.v(f.f((byte) (p * 103), (p & 1) == 0, p * 8400000000L, (byte) (p * 150), (char) (p * 37403 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F36_2 f = new S36_4()::m2;
      r = r * 31 + L.v(f.f((char) (p * 52298 - 5), (p & 1) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Boolean, Boolean> f = L::not;
      r = r * 31 + L.v(f.f(p > 10));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e3(int p) {
    long r = 3;
    try {
      r = r * 31 + L.call(new S36_0((byte) (p * 142), (p & 2) == 0, p * 2200000000L, (byte) (p * 73), (char) (p * 1986 - 5)), "m0", (Object) ((byte) (p * 159)), (Object) ((p & 2) == 0), (Object) (p * 4100000000L), (Object) ((byte) (p * 70)), (Object) ((char) (p * 7944 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F36_0 f = S36_0::t0;
      r = r * 31 + L.v(f.f((byte) (p * 180), (p & 1) == 0, p * 16400000000L, (byte) (p * 58), (char) (p * 3310 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      F36_2 f = S36_2::t2;
      r = r * 31 + L.v(f.f((char) (p * 47995 - 5), (p & 3) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn2<String, String, Integer> f = String::indexOf;
      r = r * 31 + f.f("xy" + p, "" + p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e4(int p) {
    long r = 4;
    try {
      N36_1 f = S36_1::new;
      r = r * 31 + f.f(p * 19300000000L, p * 4099631).base;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<String, Integer> f = Integer::parseInt;
      r = r * 31 + f.f("" + p * 44);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D36) new S36_1(p * 3100000000L, p * 399964)).m3(p * 16298533, (p & 3) == 0, null, p * 15798578));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.v(((D36) new S36_3(p * 12498875, (p & 3) == 0, null, p * 6599406)).m2((char) (p * 27804 - 5), (p & 1) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      r = r * 31 + L.call(S36_1.class, "t1", (Object) (p * 10900000000L), (Object) (p * 9199172));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.IntL f = L::bump;
      r = r * 31 + f.f(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    return r;
  }
  static long e5(int p) {
    long r = 5;
    try {
      r = r * 31 + L.v(S36_1.t1(p * 7000000000L, p * 16898479));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F36_4 f = new S36_2((char) (p * 11585 - 5), (p & 2) == 0)::m4;
      r = r * 31 + L.v(f.f());
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + ((J36) new S36_2((char) (p * 2979 - 5), (p & 1) == 0)).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      F36_1 f = S36_1::t1;
      r = r * 31 + L.v(f.f(p * 2800000000L, p * 5599496));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      L.Gn<Integer, int[]> f = int[]::new;
      r = r * 31 + f.f(p & 7).length;
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e6(int p) {
    long r = 6;
    try {
      r = r * 31 + ((J36) new S36_0((byte) (p * 168), (p & 3) == 0, p * 19400000000L, (byte) (p * 52), (char) (p * 13902 - 5))).d(p);
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J36) L.full(J36.class)).m1(p * 200000000L, p * 3299703));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.make(S36_1.class, (Object) (p * 9700000000L), (Object) (p * 15298623));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long e7(int p) {
    long r = 7;
    try {
      r = r * 31 + L.v(((D36) new S36_4()).m1(p * 2700000000L, p * 16198542));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final long c0 = p * 5200000000L;
      F36_2 f = (x0, x1) -> { long r0 = p + L.v(c0) - L.v(x0) - L.v(x1); long r1 = r0; return (char) r1; };
      r = r * 31 + L.v(f.f((char) (p * 28797 - 5), (p & 1) == 0));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      final double c0 = p / 173.0;
      final int[] c1 = new int[] {p, 7};
      final float c2 = p * 55.25f;
      F36_0 f = (x0, x1, x2, x3, x4) -> { long r0 = p + L.v(c0) + L.v(c1) + L.v(c2) - L.v(x0) - L.v(x1) - L.v(x2) - L.v(x3) - L.v(x4); long r1 = r0; return (r1 & 4) == 0; };
      r = r * 31 + L.v(f.f((byte) (p * 66), (p & 1) == 0, p * 16000000000L, (byte) (p * 127), (char) (p * 63552 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    }
    try {
      r = r * 31 + L.v(((J36) new S36_2((char) (p * 42368 - 5), (p & 1) == 0)).m0((byte) (p * 141), (p & 1) == 0, p * 1400000000L, (byte) (p * 30), (char) (p * 62890 - 5)));
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    try {
      L.Gn<Object, String> f = Object::toString;
      r = r * 31 + f.f(p + 4).hashCode();
    } catch (L.Odd x) {
      r = r * 7 + x.v;
    } finally {
      r += 3;
    }
    return r;
  }
  static long run(int e, int p) {
    switch (e) {
    case 0: return e0(p);
    case 1: return e1(p);
    case 2: return e2(p);
    case 3: return e3(p);
    case 4: return e4(p);
    case 5: return e5(p);
    case 6: return e6(p);
    case 7: return e7(p);
    default: throw new IllegalArgumentException();
    }
  }
}

package w;

/** Generated by tools/genjni.py. */
public class JniSigs extends JnBase {
  int id;
  JniSigs(int id) { this.id = id; }
  static long x(int q, int k) { return ((long) q * 1103515245L + (long) k * 12345L * (q | 1)) >> 3; }
  static long id(JnO o) { return o == null ? -5 : o.id; }
  static void expect(int k, int w, Object got, Object want) {
    if (!got.equals(want)) W.fail("signature " + k + " (" + w + ") gave " + got + " instead of " + want);
  }
  /* not boxed: a value that was not brought to its type shows only as it is */
  static void expect(int k, int w, long got, long want) {
    if (got != want) W.fail("signature " + k + " (" + w + ") gave " + got + " instead of " + want);
  }
  static void expect(int k, int w, double got, double want) {
    if (got != want && (got == got || want == want)) W.fail("signature " + k + " (" + w + ") gave " + got + " instead of " + want);
  }
  static void expect(int k, int w, boolean got, boolean want) {
    if (got != want) W.fail("signature " + k + " (" + w + ") gave " + got + " instead of " + want);
  }
  static final int COUNT = 48;
  /** native code that calls j_k and s_k of this in all ways, checking the results */
  static native void back(int k, int q, JniSigs r, JnO[] o);
  static native boolean n0();
  native boolean v0();
  static long hs0() {
    long h = 7L;
    return h;
  }
  static boolean s0() {
    long h = hs0();
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (h & 1) != 0;
  }
  boolean j0() {
    long h = hs0() + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (h & 1) != 0;
  }
  static native byte n1(float a0, float a1, float a2, float a3, double a4, double a5);
  native byte v1(float a0, float a1, float a2, float a3, double a4, double a5);
  static long hs1(float a0, float a1, float a2, float a3, double a4, double a5) {
    long h = 38L;
    h = h * 31 + (long) (a0 * 8);
    h = h * 31 + (long) (a1 * 8);
    h = h * 31 + (long) (a2 * 8);
    h = h * 31 + (long) (a3 * 8);
    h = h * 31 + (long) (a4 * 64);
    h = h * 31 + (long) (a5 * 64);
    return h;
  }
  static byte s1(float a0, float a1, float a2, float a3, double a4, double a5) {
    long h = hs1(a0, a1, a2, a3, a4, a5);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (byte) h;
  }
  byte j1(float a0, float a1, float a2, float a3, double a4, double a5) {
    long h = hs1(a0, a1, a2, a3, a4, a5) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (byte) h;
  }
  static native char n2(float a0, float a1, double a2, int a3, double a4, long a5, float a6);
  native char v2(float a0, float a1, double a2, int a3, double a4, long a5, float a6);
  static long hs2(float a0, float a1, double a2, int a3, double a4, long a5, float a6) {
    long h = 69L;
    h = h * 31 + (long) (a0 * 8);
    h = h * 31 + (long) (a1 * 8);
    h = h * 31 + (long) (a2 * 64);
    h = h * 31 + a3;
    h = h * 31 + (long) (a4 * 64);
    h = h * 31 + a5;
    h = h * 31 + (long) (a6 * 8);
    return h;
  }
  static char s2(float a0, float a1, double a2, int a3, double a4, long a5, float a6) {
    long h = hs2(a0, a1, a2, a3, a4, a5, a6);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (char) h;
  }
  char j2(float a0, float a1, double a2, int a3, double a4, long a5, float a6) {
    long h = hs2(a0, a1, a2, a3, a4, a5, a6) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (char) h;
  }
  static native short n3(JnO a0, float a1, char a2, long a3, long a4, byte a5, byte a6, JnO a7, int a8, JnO a9, double a10, short a11, short a12, short a13, byte a14, byte a15, short a16, JnO a17, double a18, JnO a19, JnO a20, byte a21);
  native short v3(JnO a0, float a1, char a2, long a3, long a4, byte a5, byte a6, JnO a7, int a8, JnO a9, double a10, short a11, short a12, short a13, byte a14, byte a15, short a16, JnO a17, double a18, JnO a19, JnO a20, byte a21);
  static long hs3(JnO a0, float a1, char a2, long a3, long a4, byte a5, byte a6, JnO a7, int a8, JnO a9, double a10, short a11, short a12, short a13, byte a14, byte a15, short a16, JnO a17, double a18, JnO a19, JnO a20, byte a21) {
    long h = 100L;
    h = h * 31 + id(a0);
    h = h * 31 + (long) (a1 * 8);
    h = h * 31 + a2;
    h = h * 31 + a3;
    h = h * 31 + a4;
    h = h * 31 + a5;
    h = h * 31 + a6;
    h = h * 31 + id(a7);
    h = h * 31 + a8;
    h = h * 31 + id(a9);
    h = h * 31 + (long) (a10 * 64);
    h = h * 31 + a11;
    h = h * 31 + a12;
    h = h * 31 + a13;
    h = h * 31 + a14;
    h = h * 31 + a15;
    h = h * 31 + a16;
    h = h * 31 + id(a17);
    h = h * 31 + (long) (a18 * 64);
    h = h * 31 + id(a19);
    h = h * 31 + id(a20);
    h = h * 31 + a21;
    return h;
  }
  static short s3(JnO a0, float a1, char a2, long a3, long a4, byte a5, byte a6, JnO a7, int a8, JnO a9, double a10, short a11, short a12, short a13, byte a14, byte a15, short a16, JnO a17, double a18, JnO a19, JnO a20, byte a21) {
    long h = hs3(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (short) h;
  }
  short j3(JnO a0, float a1, char a2, long a3, long a4, byte a5, byte a6, JnO a7, int a8, JnO a9, double a10, short a11, short a12, short a13, byte a14, byte a15, short a16, JnO a17, double a18, JnO a19, JnO a20, byte a21) {
    long h = hs3(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (short) h;
  }
  static native int n4(long a0);
  native int v4(long a0);
  static long hs4(long a0) {
    long h = 131L;
    h = h * 31 + a0;
    return h;
  }
  static int s4(long a0) {
    long h = hs4(a0);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (int) h;
  }
  int j4(long a0) {
    long h = hs4(a0) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (int) h;
  }
  static native long n5(byte a0, JnO a1, double a2, byte a3, JnO a4, byte a5, int a6, double a7, JnO a8, JnO a9, byte a10, long a11, JnO a12, boolean a13, float a14, JnO a15, JnO a16, JnO a17, short a18, short a19);
  native long v5(byte a0, JnO a1, double a2, byte a3, JnO a4, byte a5, int a6, double a7, JnO a8, JnO a9, byte a10, long a11, JnO a12, boolean a13, float a14, JnO a15, JnO a16, JnO a17, short a18, short a19);
  static long hs5(byte a0, JnO a1, double a2, byte a3, JnO a4, byte a5, int a6, double a7, JnO a8, JnO a9, byte a10, long a11, JnO a12, boolean a13, float a14, JnO a15, JnO a16, JnO a17, short a18, short a19) {
    long h = 162L;
    h = h * 31 + a0;
    h = h * 31 + id(a1);
    h = h * 31 + (long) (a2 * 64);
    h = h * 31 + a3;
    h = h * 31 + id(a4);
    h = h * 31 + a5;
    h = h * 31 + a6;
    h = h * 31 + (long) (a7 * 64);
    h = h * 31 + id(a8);
    h = h * 31 + id(a9);
    h = h * 31 + a10;
    h = h * 31 + a11;
    h = h * 31 + id(a12);
    h = h * 31 + (a13 ? 1 : 2);
    h = h * 31 + (long) (a14 * 8);
    h = h * 31 + id(a15);
    h = h * 31 + id(a16);
    h = h * 31 + id(a17);
    h = h * 31 + a18;
    h = h * 31 + a19;
    return h;
  }
  static long s5(byte a0, JnO a1, double a2, byte a3, JnO a4, byte a5, int a6, double a7, JnO a8, JnO a9, byte a10, long a11, JnO a12, boolean a13, float a14, JnO a15, JnO a16, JnO a17, short a18, short a19) {
    long h = hs5(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return h;
  }
  long j5(byte a0, JnO a1, double a2, byte a3, JnO a4, byte a5, int a6, double a7, JnO a8, JnO a9, byte a10, long a11, JnO a12, boolean a13, float a14, JnO a15, JnO a16, JnO a17, short a18, short a19) {
    long h = hs5(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return h;
  }
  static native float n6(long a0, JnO a1, int a2, long a3, int a4, int a5, int a6, long a7, JnO a8);
  native float v6(long a0, JnO a1, int a2, long a3, int a4, int a5, int a6, long a7, JnO a8);
  static long hs6(long a0, JnO a1, int a2, long a3, int a4, int a5, int a6, long a7, JnO a8) {
    long h = 193L;
    h = h * 31 + a0;
    h = h * 31 + id(a1);
    h = h * 31 + a2;
    h = h * 31 + a3;
    h = h * 31 + a4;
    h = h * 31 + a5;
    h = h * 31 + a6;
    h = h * 31 + a7;
    h = h * 31 + id(a8);
    return h;
  }
  static float s6(long a0, JnO a1, int a2, long a3, int a4, int a5, int a6, long a7, JnO a8) {
    long h = hs6(a0, a1, a2, a3, a4, a5, a6, a7, a8);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (float) (short) h / 4;
  }
  float j6(long a0, JnO a1, int a2, long a3, int a4, int a5, int a6, long a7, JnO a8) {
    long h = hs6(a0, a1, a2, a3, a4, a5, a6, a7, a8) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (float) (short) h / 4;
  }
  static native double n7();
  native double v7();
  static long hs7() {
    long h = 224L;
    return h;
  }
  static double s7() {
    long h = hs7();
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (double) (int) h / 32;
  }
  double j7() {
    long h = hs7() + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (double) (int) h / 32;
  }
  static native JnO n8(int a0, long a1, JnO a2, JnO a3, JnO a4, long a5, int a6, JnO a7, long a8, JnO a9, JnO a10, int a11, int a12, long a13, JnO a14);
  native JnO v8(int a0, long a1, JnO a2, JnO a3, JnO a4, long a5, int a6, JnO a7, long a8, JnO a9, JnO a10, int a11, int a12, long a13, JnO a14);
  static long hs8(int a0, long a1, JnO a2, JnO a3, JnO a4, long a5, int a6, JnO a7, long a8, JnO a9, JnO a10, int a11, int a12, long a13, JnO a14) {
    long h = 255L;
    h = h * 31 + a0;
    h = h * 31 + a1;
    h = h * 31 + id(a2);
    h = h * 31 + id(a3);
    h = h * 31 + id(a4);
    h = h * 31 + a5;
    h = h * 31 + a6;
    h = h * 31 + id(a7);
    h = h * 31 + a8;
    h = h * 31 + id(a9);
    h = h * 31 + id(a10);
    h = h * 31 + a11;
    h = h * 31 + a12;
    h = h * 31 + a13;
    h = h * 31 + id(a14);
    return h;
  }
  static JnO s8(int a0, long a1, JnO a2, JnO a3, JnO a4, long a5, int a6, JnO a7, long a8, JnO a9, JnO a10, int a11, int a12, long a13, JnO a14) {
    long h = hs8(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return a2;
  }
  JnO j8(int a0, long a1, JnO a2, JnO a3, JnO a4, long a5, int a6, JnO a7, long a8, JnO a9, JnO a10, int a11, int a12, long a13, JnO a14) {
    long h = hs8(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return a2;
  }
  static native void n9(double a0);
  native void v9(double a0);
  static long hs9(double a0) {
    long h = 286L;
    h = h * 31 + (long) (a0 * 64);
    return h;
  }
  static void s9(double a0) {
    long h = hs9(a0);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    setLast(h);
  }
  void j9(double a0) {
    long h = hs9(a0) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    setLast(h);
  }
  static native boolean n10(JnO a0, int a1, int a2, long a3, int a4);
  native boolean v10(JnO a0, int a1, int a2, long a3, int a4);
  static long hs10(JnO a0, int a1, int a2, long a3, int a4) {
    long h = 317L;
    h = h * 31 + id(a0);
    h = h * 31 + a1;
    h = h * 31 + a2;
    h = h * 31 + a3;
    h = h * 31 + a4;
    return h;
  }
  static boolean s10(JnO a0, int a1, int a2, long a3, int a4) {
    long h = hs10(a0, a1, a2, a3, a4);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (h & 1) != 0;
  }
  boolean j10(JnO a0, int a1, int a2, long a3, int a4) {
    long h = hs10(a0, a1, a2, a3, a4) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (h & 1) != 0;
  }
  static native byte n11(boolean a0, short a1, byte a2, JnO a3, double a4, byte a5, float a6, double a7, byte a8, char a9, short a10, int a11, short a12, byte a13, char a14);
  native byte v11(boolean a0, short a1, byte a2, JnO a3, double a4, byte a5, float a6, double a7, byte a8, char a9, short a10, int a11, short a12, byte a13, char a14);
  static long hs11(boolean a0, short a1, byte a2, JnO a3, double a4, byte a5, float a6, double a7, byte a8, char a9, short a10, int a11, short a12, byte a13, char a14) {
    long h = 348L;
    h = h * 31 + (a0 ? 1 : 2);
    h = h * 31 + a1;
    h = h * 31 + a2;
    h = h * 31 + id(a3);
    h = h * 31 + (long) (a4 * 64);
    h = h * 31 + a5;
    h = h * 31 + (long) (a6 * 8);
    h = h * 31 + (long) (a7 * 64);
    h = h * 31 + a8;
    h = h * 31 + a9;
    h = h * 31 + a10;
    h = h * 31 + a11;
    h = h * 31 + a12;
    h = h * 31 + a13;
    h = h * 31 + a14;
    return h;
  }
  static byte s11(boolean a0, short a1, byte a2, JnO a3, double a4, byte a5, float a6, double a7, byte a8, char a9, short a10, int a11, short a12, byte a13, char a14) {
    long h = hs11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (byte) h;
  }
  byte j11(boolean a0, short a1, byte a2, JnO a3, double a4, byte a5, float a6, double a7, byte a8, char a9, short a10, int a11, short a12, byte a13, char a14) {
    long h = hs11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (byte) h;
  }
  static native char n12(boolean a0, boolean a1);
  native char v12(boolean a0, boolean a1);
  static long hs12(boolean a0, boolean a1) {
    long h = 379L;
    h = h * 31 + (a0 ? 1 : 2);
    h = h * 31 + (a1 ? 1 : 2);
    return h;
  }
  static char s12(boolean a0, boolean a1) {
    long h = hs12(a0, a1);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (char) h;
  }
  char j12(boolean a0, boolean a1) {
    long h = hs12(a0, a1) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (char) h;
  }
  static native short n13(JnO a0, JnO a1, float a2, JnO a3, JnO a4, float a5, double a6, JnO a7, int a8, JnO a9, byte a10, double a11, JnO a12, float a13, int a14, JnO a15, int a16, int a17, double a18, short a19);
  native short v13(JnO a0, JnO a1, float a2, JnO a3, JnO a4, float a5, double a6, JnO a7, int a8, JnO a9, byte a10, double a11, JnO a12, float a13, int a14, JnO a15, int a16, int a17, double a18, short a19);
  static long hs13(JnO a0, JnO a1, float a2, JnO a3, JnO a4, float a5, double a6, JnO a7, int a8, JnO a9, byte a10, double a11, JnO a12, float a13, int a14, JnO a15, int a16, int a17, double a18, short a19) {
    long h = 410L;
    h = h * 31 + id(a0);
    h = h * 31 + id(a1);
    h = h * 31 + (long) (a2 * 8);
    h = h * 31 + id(a3);
    h = h * 31 + id(a4);
    h = h * 31 + (long) (a5 * 8);
    h = h * 31 + (long) (a6 * 64);
    h = h * 31 + id(a7);
    h = h * 31 + a8;
    h = h * 31 + id(a9);
    h = h * 31 + a10;
    h = h * 31 + (long) (a11 * 64);
    h = h * 31 + id(a12);
    h = h * 31 + (long) (a13 * 8);
    h = h * 31 + a14;
    h = h * 31 + id(a15);
    h = h * 31 + a16;
    h = h * 31 + a17;
    h = h * 31 + (long) (a18 * 64);
    h = h * 31 + a19;
    return h;
  }
  static short s13(JnO a0, JnO a1, float a2, JnO a3, JnO a4, float a5, double a6, JnO a7, int a8, JnO a9, byte a10, double a11, JnO a12, float a13, int a14, JnO a15, int a16, int a17, double a18, short a19) {
    long h = hs13(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (short) h;
  }
  short j13(JnO a0, JnO a1, float a2, JnO a3, JnO a4, float a5, double a6, JnO a7, int a8, JnO a9, byte a10, double a11, JnO a12, float a13, int a14, JnO a15, int a16, int a17, double a18, short a19) {
    long h = hs13(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (short) h;
  }
  static native int n14();
  native int v14();
  static long hs14() {
    long h = 441L;
    return h;
  }
  static int s14() {
    long h = hs14();
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (int) h;
  }
  int j14() {
    long h = hs14() + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (int) h;
  }
  static native long n15(boolean a0, boolean a1, char a2, boolean a3, byte a4, JnO a5, byte a6);
  native long v15(boolean a0, boolean a1, char a2, boolean a3, byte a4, JnO a5, byte a6);
  static long hs15(boolean a0, boolean a1, char a2, boolean a3, byte a4, JnO a5, byte a6) {
    long h = 472L;
    h = h * 31 + (a0 ? 1 : 2);
    h = h * 31 + (a1 ? 1 : 2);
    h = h * 31 + a2;
    h = h * 31 + (a3 ? 1 : 2);
    h = h * 31 + a4;
    h = h * 31 + id(a5);
    h = h * 31 + a6;
    return h;
  }
  static long s15(boolean a0, boolean a1, char a2, boolean a3, byte a4, JnO a5, byte a6) {
    long h = hs15(a0, a1, a2, a3, a4, a5, a6);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return h;
  }
  long j15(boolean a0, boolean a1, char a2, boolean a3, byte a4, JnO a5, byte a6) {
    long h = hs15(a0, a1, a2, a3, a4, a5, a6) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return h;
  }
  static native float n16(JnO a0, byte a1, float a2, char a3, byte a4, JnO a5, float a6, int a7);
  native float v16(JnO a0, byte a1, float a2, char a3, byte a4, JnO a5, float a6, int a7);
  static long hs16(JnO a0, byte a1, float a2, char a3, byte a4, JnO a5, float a6, int a7) {
    long h = 503L;
    h = h * 31 + id(a0);
    h = h * 31 + a1;
    h = h * 31 + (long) (a2 * 8);
    h = h * 31 + a3;
    h = h * 31 + a4;
    h = h * 31 + id(a5);
    h = h * 31 + (long) (a6 * 8);
    h = h * 31 + a7;
    return h;
  }
  static float s16(JnO a0, byte a1, float a2, char a3, byte a4, JnO a5, float a6, int a7) {
    long h = hs16(a0, a1, a2, a3, a4, a5, a6, a7);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (float) (short) h / 4;
  }
  float j16(JnO a0, byte a1, float a2, char a3, byte a4, JnO a5, float a6, int a7) {
    long h = hs16(a0, a1, a2, a3, a4, a5, a6, a7) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (float) (short) h / 4;
  }
  static native double n17(JnO a0, JnO a1, long a2, int a3, JnO a4, long a5, long a6);
  native double v17(JnO a0, JnO a1, long a2, int a3, JnO a4, long a5, long a6);
  static long hs17(JnO a0, JnO a1, long a2, int a3, JnO a4, long a5, long a6) {
    long h = 534L;
    h = h * 31 + id(a0);
    h = h * 31 + id(a1);
    h = h * 31 + a2;
    h = h * 31 + a3;
    h = h * 31 + id(a4);
    h = h * 31 + a5;
    h = h * 31 + a6;
    return h;
  }
  static double s17(JnO a0, JnO a1, long a2, int a3, JnO a4, long a5, long a6) {
    long h = hs17(a0, a1, a2, a3, a4, a5, a6);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (double) (int) h / 32;
  }
  double j17(JnO a0, JnO a1, long a2, int a3, JnO a4, long a5, long a6) {
    long h = hs17(a0, a1, a2, a3, a4, a5, a6) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (double) (int) h / 32;
  }
  static native JnO n18(JnO a0, long a1, long a2, short a3);
  native JnO v18(JnO a0, long a1, long a2, short a3);
  static long hs18(JnO a0, long a1, long a2, short a3) {
    long h = 565L;
    h = h * 31 + id(a0);
    h = h * 31 + a1;
    h = h * 31 + a2;
    h = h * 31 + a3;
    return h;
  }
  static JnO s18(JnO a0, long a1, long a2, short a3) {
    long h = hs18(a0, a1, a2, a3);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return a0;
  }
  JnO j18(JnO a0, long a1, long a2, short a3) {
    long h = hs18(a0, a1, a2, a3) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return a0;
  }
  static native void n19(double a0, JnO a1, JnO a2, double a3, JnO a4, JnO a5, JnO a6, double a7, JnO a8, JnO a9, double a10, double a11, double a12, JnO a13, JnO a14);
  native void v19(double a0, JnO a1, JnO a2, double a3, JnO a4, JnO a5, JnO a6, double a7, JnO a8, JnO a9, double a10, double a11, double a12, JnO a13, JnO a14);
  static long hs19(double a0, JnO a1, JnO a2, double a3, JnO a4, JnO a5, JnO a6, double a7, JnO a8, JnO a9, double a10, double a11, double a12, JnO a13, JnO a14) {
    long h = 596L;
    h = h * 31 + (long) (a0 * 64);
    h = h * 31 + id(a1);
    h = h * 31 + id(a2);
    h = h * 31 + (long) (a3 * 64);
    h = h * 31 + id(a4);
    h = h * 31 + id(a5);
    h = h * 31 + id(a6);
    h = h * 31 + (long) (a7 * 64);
    h = h * 31 + id(a8);
    h = h * 31 + id(a9);
    h = h * 31 + (long) (a10 * 64);
    h = h * 31 + (long) (a11 * 64);
    h = h * 31 + (long) (a12 * 64);
    h = h * 31 + id(a13);
    h = h * 31 + id(a14);
    return h;
  }
  static void s19(double a0, JnO a1, JnO a2, double a3, JnO a4, JnO a5, JnO a6, double a7, JnO a8, JnO a9, double a10, double a11, double a12, JnO a13, JnO a14) {
    long h = hs19(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    setLast(h);
  }
  void j19(double a0, JnO a1, JnO a2, double a3, JnO a4, JnO a5, JnO a6, double a7, JnO a8, JnO a9, double a10, double a11, double a12, JnO a13, JnO a14) {
    long h = hs19(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    setLast(h);
  }
  static native boolean n20(float a0, double a1, JnO a2, float a3, float a4, float a5, double a6, JnO a7, float a8, float a9, JnO a10, JnO a11, JnO a12, JnO a13, JnO a14, JnO a15, float a16, JnO a17, float a18, JnO a19);
  native boolean v20(float a0, double a1, JnO a2, float a3, float a4, float a5, double a6, JnO a7, float a8, float a9, JnO a10, JnO a11, JnO a12, JnO a13, JnO a14, JnO a15, float a16, JnO a17, float a18, JnO a19);
  static long hs20(float a0, double a1, JnO a2, float a3, float a4, float a5, double a6, JnO a7, float a8, float a9, JnO a10, JnO a11, JnO a12, JnO a13, JnO a14, JnO a15, float a16, JnO a17, float a18, JnO a19) {
    long h = 627L;
    h = h * 31 + (long) (a0 * 8);
    h = h * 31 + (long) (a1 * 64);
    h = h * 31 + id(a2);
    h = h * 31 + (long) (a3 * 8);
    h = h * 31 + (long) (a4 * 8);
    h = h * 31 + (long) (a5 * 8);
    h = h * 31 + (long) (a6 * 64);
    h = h * 31 + id(a7);
    h = h * 31 + (long) (a8 * 8);
    h = h * 31 + (long) (a9 * 8);
    h = h * 31 + id(a10);
    h = h * 31 + id(a11);
    h = h * 31 + id(a12);
    h = h * 31 + id(a13);
    h = h * 31 + id(a14);
    h = h * 31 + id(a15);
    h = h * 31 + (long) (a16 * 8);
    h = h * 31 + id(a17);
    h = h * 31 + (long) (a18 * 8);
    h = h * 31 + id(a19);
    return h;
  }
  static boolean s20(float a0, double a1, JnO a2, float a3, float a4, float a5, double a6, JnO a7, float a8, float a9, JnO a10, JnO a11, JnO a12, JnO a13, JnO a14, JnO a15, float a16, JnO a17, float a18, JnO a19) {
    long h = hs20(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (h & 1) != 0;
  }
  boolean j20(float a0, double a1, JnO a2, float a3, float a4, float a5, double a6, JnO a7, float a8, float a9, JnO a10, JnO a11, JnO a12, JnO a13, JnO a14, JnO a15, float a16, JnO a17, float a18, JnO a19) {
    long h = hs20(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (h & 1) != 0;
  }
  static native byte n21(JnO a0, char a1, int a2, char a3, JnO a4, long a5, boolean a6, JnO a7, JnO a8);
  native byte v21(JnO a0, char a1, int a2, char a3, JnO a4, long a5, boolean a6, JnO a7, JnO a8);
  static long hs21(JnO a0, char a1, int a2, char a3, JnO a4, long a5, boolean a6, JnO a7, JnO a8) {
    long h = 658L;
    h = h * 31 + id(a0);
    h = h * 31 + a1;
    h = h * 31 + a2;
    h = h * 31 + a3;
    h = h * 31 + id(a4);
    h = h * 31 + a5;
    h = h * 31 + (a6 ? 1 : 2);
    h = h * 31 + id(a7);
    h = h * 31 + id(a8);
    return h;
  }
  static byte s21(JnO a0, char a1, int a2, char a3, JnO a4, long a5, boolean a6, JnO a7, JnO a8) {
    long h = hs21(a0, a1, a2, a3, a4, a5, a6, a7, a8);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (byte) h;
  }
  byte j21(JnO a0, char a1, int a2, char a3, JnO a4, long a5, boolean a6, JnO a7, JnO a8) {
    long h = hs21(a0, a1, a2, a3, a4, a5, a6, a7, a8) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (byte) h;
  }
  static native char n22(long a0, double a1, int a2, double a3, int a4, long a5, double a6, double a7, long a8, float a9, long a10, long a11);
  native char v22(long a0, double a1, int a2, double a3, int a4, long a5, double a6, double a7, long a8, float a9, long a10, long a11);
  static long hs22(long a0, double a1, int a2, double a3, int a4, long a5, double a6, double a7, long a8, float a9, long a10, long a11) {
    long h = 689L;
    h = h * 31 + a0;
    h = h * 31 + (long) (a1 * 64);
    h = h * 31 + a2;
    h = h * 31 + (long) (a3 * 64);
    h = h * 31 + a4;
    h = h * 31 + a5;
    h = h * 31 + (long) (a6 * 64);
    h = h * 31 + (long) (a7 * 64);
    h = h * 31 + a8;
    h = h * 31 + (long) (a9 * 8);
    h = h * 31 + a10;
    h = h * 31 + a11;
    return h;
  }
  static char s22(long a0, double a1, int a2, double a3, int a4, long a5, double a6, double a7, long a8, float a9, long a10, long a11) {
    long h = hs22(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (char) h;
  }
  char j22(long a0, double a1, int a2, double a3, int a4, long a5, double a6, double a7, long a8, float a9, long a10, long a11) {
    long h = hs22(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (char) h;
  }
  static native short n23(double a0, long a1, double a2, double a3, double a4, long a5, float a6, double a7, int a8, int a9, float a10, double a11, double a12, double a13, long a14);
  native short v23(double a0, long a1, double a2, double a3, double a4, long a5, float a6, double a7, int a8, int a9, float a10, double a11, double a12, double a13, long a14);
  static long hs23(double a0, long a1, double a2, double a3, double a4, long a5, float a6, double a7, int a8, int a9, float a10, double a11, double a12, double a13, long a14) {
    long h = 720L;
    h = h * 31 + (long) (a0 * 64);
    h = h * 31 + a1;
    h = h * 31 + (long) (a2 * 64);
    h = h * 31 + (long) (a3 * 64);
    h = h * 31 + (long) (a4 * 64);
    h = h * 31 + a5;
    h = h * 31 + (long) (a6 * 8);
    h = h * 31 + (long) (a7 * 64);
    h = h * 31 + a8;
    h = h * 31 + a9;
    h = h * 31 + (long) (a10 * 8);
    h = h * 31 + (long) (a11 * 64);
    h = h * 31 + (long) (a12 * 64);
    h = h * 31 + (long) (a13 * 64);
    h = h * 31 + a14;
    return h;
  }
  static short s23(double a0, long a1, double a2, double a3, double a4, long a5, float a6, double a7, int a8, int a9, float a10, double a11, double a12, double a13, long a14) {
    long h = hs23(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (short) h;
  }
  short j23(double a0, long a1, double a2, double a3, double a4, long a5, float a6, double a7, int a8, int a9, float a10, double a11, double a12, double a13, long a14) {
    long h = hs23(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (short) h;
  }
  static native int n24(char a0, double a1, short a2, JnO a3, JnO a4, long a5, long a6, double a7);
  native int v24(char a0, double a1, short a2, JnO a3, JnO a4, long a5, long a6, double a7);
  static long hs24(char a0, double a1, short a2, JnO a3, JnO a4, long a5, long a6, double a7) {
    long h = 751L;
    h = h * 31 + a0;
    h = h * 31 + (long) (a1 * 64);
    h = h * 31 + a2;
    h = h * 31 + id(a3);
    h = h * 31 + id(a4);
    h = h * 31 + a5;
    h = h * 31 + a6;
    h = h * 31 + (long) (a7 * 64);
    return h;
  }
  static int s24(char a0, double a1, short a2, JnO a3, JnO a4, long a5, long a6, double a7) {
    long h = hs24(a0, a1, a2, a3, a4, a5, a6, a7);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (int) h;
  }
  int j24(char a0, double a1, short a2, JnO a3, JnO a4, long a5, long a6, double a7) {
    long h = hs24(a0, a1, a2, a3, a4, a5, a6, a7) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (int) h;
  }
  static native long n25(double a0, JnO a1, float a2);
  native long v25(double a0, JnO a1, float a2);
  static long hs25(double a0, JnO a1, float a2) {
    long h = 782L;
    h = h * 31 + (long) (a0 * 64);
    h = h * 31 + id(a1);
    h = h * 31 + (long) (a2 * 8);
    return h;
  }
  static long s25(double a0, JnO a1, float a2) {
    long h = hs25(a0, a1, a2);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return h;
  }
  long j25(double a0, JnO a1, float a2) {
    long h = hs25(a0, a1, a2) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return h;
  }
  static native float n26(JnO a0, JnO a1, JnO a2, int a3, long a4, JnO a5, int a6, int a7, JnO a8);
  native float v26(JnO a0, JnO a1, JnO a2, int a3, long a4, JnO a5, int a6, int a7, JnO a8);
  static long hs26(JnO a0, JnO a1, JnO a2, int a3, long a4, JnO a5, int a6, int a7, JnO a8) {
    long h = 813L;
    h = h * 31 + id(a0);
    h = h * 31 + id(a1);
    h = h * 31 + id(a2);
    h = h * 31 + a3;
    h = h * 31 + a4;
    h = h * 31 + id(a5);
    h = h * 31 + a6;
    h = h * 31 + a7;
    h = h * 31 + id(a8);
    return h;
  }
  static float s26(JnO a0, JnO a1, JnO a2, int a3, long a4, JnO a5, int a6, int a7, JnO a8) {
    long h = hs26(a0, a1, a2, a3, a4, a5, a6, a7, a8);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (float) (short) h / 4;
  }
  float j26(JnO a0, JnO a1, JnO a2, int a3, long a4, JnO a5, int a6, int a7, JnO a8) {
    long h = hs26(a0, a1, a2, a3, a4, a5, a6, a7, a8) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (float) (short) h / 4;
  }
  static native double n27(JnO a0, JnO a1, double a2, double a3, JnO a4, double a5, float a6, JnO a7, JnO a8, double a9);
  native double v27(JnO a0, JnO a1, double a2, double a3, JnO a4, double a5, float a6, JnO a7, JnO a8, double a9);
  static long hs27(JnO a0, JnO a1, double a2, double a3, JnO a4, double a5, float a6, JnO a7, JnO a8, double a9) {
    long h = 844L;
    h = h * 31 + id(a0);
    h = h * 31 + id(a1);
    h = h * 31 + (long) (a2 * 64);
    h = h * 31 + (long) (a3 * 64);
    h = h * 31 + id(a4);
    h = h * 31 + (long) (a5 * 64);
    h = h * 31 + (long) (a6 * 8);
    h = h * 31 + id(a7);
    h = h * 31 + id(a8);
    h = h * 31 + (long) (a9 * 64);
    return h;
  }
  static double s27(JnO a0, JnO a1, double a2, double a3, JnO a4, double a5, float a6, JnO a7, JnO a8, double a9) {
    long h = hs27(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (double) (int) h / 32;
  }
  double j27(JnO a0, JnO a1, double a2, double a3, JnO a4, double a5, float a6, JnO a7, JnO a8, double a9) {
    long h = hs27(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (double) (int) h / 32;
  }
  static native JnO n28(int a0, long a1, short a2, char a3, long a4, JnO a5, char a6, int a7, JnO a8, double a9, int a10, int a11, double a12, short a13, byte a14);
  native JnO v28(int a0, long a1, short a2, char a3, long a4, JnO a5, char a6, int a7, JnO a8, double a9, int a10, int a11, double a12, short a13, byte a14);
  static long hs28(int a0, long a1, short a2, char a3, long a4, JnO a5, char a6, int a7, JnO a8, double a9, int a10, int a11, double a12, short a13, byte a14) {
    long h = 875L;
    h = h * 31 + a0;
    h = h * 31 + a1;
    h = h * 31 + a2;
    h = h * 31 + a3;
    h = h * 31 + a4;
    h = h * 31 + id(a5);
    h = h * 31 + a6;
    h = h * 31 + a7;
    h = h * 31 + id(a8);
    h = h * 31 + (long) (a9 * 64);
    h = h * 31 + a10;
    h = h * 31 + a11;
    h = h * 31 + (long) (a12 * 64);
    h = h * 31 + a13;
    h = h * 31 + a14;
    return h;
  }
  static JnO s28(int a0, long a1, short a2, char a3, long a4, JnO a5, char a6, int a7, JnO a8, double a9, int a10, int a11, double a12, short a13, byte a14) {
    long h = hs28(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return a5;
  }
  JnO j28(int a0, long a1, short a2, char a3, long a4, JnO a5, char a6, int a7, JnO a8, double a9, int a10, int a11, double a12, short a13, byte a14) {
    long h = hs28(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return a5;
  }
  static native void n29(double a0, int a1, int a2, float a3, double a4, int a5, long a6);
  native void v29(double a0, int a1, int a2, float a3, double a4, int a5, long a6);
  static long hs29(double a0, int a1, int a2, float a3, double a4, int a5, long a6) {
    long h = 906L;
    h = h * 31 + (long) (a0 * 64);
    h = h * 31 + a1;
    h = h * 31 + a2;
    h = h * 31 + (long) (a3 * 8);
    h = h * 31 + (long) (a4 * 64);
    h = h * 31 + a5;
    h = h * 31 + a6;
    return h;
  }
  static void s29(double a0, int a1, int a2, float a3, double a4, int a5, long a6) {
    long h = hs29(a0, a1, a2, a3, a4, a5, a6);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    setLast(h);
  }
  void j29(double a0, int a1, int a2, float a3, double a4, int a5, long a6) {
    long h = hs29(a0, a1, a2, a3, a4, a5, a6) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    setLast(h);
  }
  static native boolean n30(long a0, long a1, double a2, long a3, int a4, long a5);
  native boolean v30(long a0, long a1, double a2, long a3, int a4, long a5);
  static long hs30(long a0, long a1, double a2, long a3, int a4, long a5) {
    long h = 937L;
    h = h * 31 + a0;
    h = h * 31 + a1;
    h = h * 31 + (long) (a2 * 64);
    h = h * 31 + a3;
    h = h * 31 + a4;
    h = h * 31 + a5;
    return h;
  }
  static boolean s30(long a0, long a1, double a2, long a3, int a4, long a5) {
    long h = hs30(a0, a1, a2, a3, a4, a5);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (h & 1) != 0;
  }
  boolean j30(long a0, long a1, double a2, long a3, int a4, long a5) {
    long h = hs30(a0, a1, a2, a3, a4, a5) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (h & 1) != 0;
  }
  static native byte n31(int a0, long a1, long a2, JnO a3, long a4, JnO a5, long a6);
  native byte v31(int a0, long a1, long a2, JnO a3, long a4, JnO a5, long a6);
  static long hs31(int a0, long a1, long a2, JnO a3, long a4, JnO a5, long a6) {
    long h = 968L;
    h = h * 31 + a0;
    h = h * 31 + a1;
    h = h * 31 + a2;
    h = h * 31 + id(a3);
    h = h * 31 + a4;
    h = h * 31 + id(a5);
    h = h * 31 + a6;
    return h;
  }
  static byte s31(int a0, long a1, long a2, JnO a3, long a4, JnO a5, long a6) {
    long h = hs31(a0, a1, a2, a3, a4, a5, a6);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (byte) h;
  }
  byte j31(int a0, long a1, long a2, JnO a3, long a4, JnO a5, long a6) {
    long h = hs31(a0, a1, a2, a3, a4, a5, a6) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (byte) h;
  }
  static native char n32();
  native char v32();
  static long hs32() {
    long h = 999L;
    return h;
  }
  static char s32() {
    long h = hs32();
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (char) h;
  }
  char j32() {
    long h = hs32() + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (char) h;
  }
  static native short n33(double a0, JnO a1, double a2, JnO a3);
  native short v33(double a0, JnO a1, double a2, JnO a3);
  static long hs33(double a0, JnO a1, double a2, JnO a3) {
    long h = 1030L;
    h = h * 31 + (long) (a0 * 64);
    h = h * 31 + id(a1);
    h = h * 31 + (long) (a2 * 64);
    h = h * 31 + id(a3);
    return h;
  }
  static short s33(double a0, JnO a1, double a2, JnO a3) {
    long h = hs33(a0, a1, a2, a3);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (short) h;
  }
  short j33(double a0, JnO a1, double a2, JnO a3) {
    long h = hs33(a0, a1, a2, a3) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (short) h;
  }
  static native int n34(JnO a0, byte a1, float a2, long a3, long a4, JnO a5, int a6, JnO a7, byte a8);
  native int v34(JnO a0, byte a1, float a2, long a3, long a4, JnO a5, int a6, JnO a7, byte a8);
  static long hs34(JnO a0, byte a1, float a2, long a3, long a4, JnO a5, int a6, JnO a7, byte a8) {
    long h = 1061L;
    h = h * 31 + id(a0);
    h = h * 31 + a1;
    h = h * 31 + (long) (a2 * 8);
    h = h * 31 + a3;
    h = h * 31 + a4;
    h = h * 31 + id(a5);
    h = h * 31 + a6;
    h = h * 31 + id(a7);
    h = h * 31 + a8;
    return h;
  }
  static int s34(JnO a0, byte a1, float a2, long a3, long a4, JnO a5, int a6, JnO a7, byte a8) {
    long h = hs34(a0, a1, a2, a3, a4, a5, a6, a7, a8);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (int) h;
  }
  int j34(JnO a0, byte a1, float a2, long a3, long a4, JnO a5, int a6, JnO a7, byte a8) {
    long h = hs34(a0, a1, a2, a3, a4, a5, a6, a7, a8) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (int) h;
  }
  static native long n35(float a0, float a1, double a2, JnO a3, float a4);
  native long v35(float a0, float a1, double a2, JnO a3, float a4);
  static long hs35(float a0, float a1, double a2, JnO a3, float a4) {
    long h = 1092L;
    h = h * 31 + (long) (a0 * 8);
    h = h * 31 + (long) (a1 * 8);
    h = h * 31 + (long) (a2 * 64);
    h = h * 31 + id(a3);
    h = h * 31 + (long) (a4 * 8);
    return h;
  }
  static long s35(float a0, float a1, double a2, JnO a3, float a4) {
    long h = hs35(a0, a1, a2, a3, a4);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return h;
  }
  long j35(float a0, float a1, double a2, JnO a3, float a4) {
    long h = hs35(a0, a1, a2, a3, a4) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return h;
  }
  static native float n36(double a0, JnO a1);
  native float v36(double a0, JnO a1);
  static long hs36(double a0, JnO a1) {
    long h = 1123L;
    h = h * 31 + (long) (a0 * 64);
    h = h * 31 + id(a1);
    return h;
  }
  static float s36(double a0, JnO a1) {
    long h = hs36(a0, a1);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (float) (short) h / 4;
  }
  float j36(double a0, JnO a1) {
    long h = hs36(a0, a1) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (float) (short) h / 4;
  }
  static native double n37(double a0, float a1, JnO a2, double a3);
  native double v37(double a0, float a1, JnO a2, double a3);
  static long hs37(double a0, float a1, JnO a2, double a3) {
    long h = 1154L;
    h = h * 31 + (long) (a0 * 64);
    h = h * 31 + (long) (a1 * 8);
    h = h * 31 + id(a2);
    h = h * 31 + (long) (a3 * 64);
    return h;
  }
  static double s37(double a0, float a1, JnO a2, double a3) {
    long h = hs37(a0, a1, a2, a3);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (double) (int) h / 32;
  }
  double j37(double a0, float a1, JnO a2, double a3) {
    long h = hs37(a0, a1, a2, a3) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (double) (int) h / 32;
  }
  static native JnO n38(char a0, long a1, float a2, boolean a3, double a4, JnO a5, byte a6, JnO a7, JnO a8, float a9, short a10, short a11, JnO a12, JnO a13, boolean a14);
  native JnO v38(char a0, long a1, float a2, boolean a3, double a4, JnO a5, byte a6, JnO a7, JnO a8, float a9, short a10, short a11, JnO a12, JnO a13, boolean a14);
  static long hs38(char a0, long a1, float a2, boolean a3, double a4, JnO a5, byte a6, JnO a7, JnO a8, float a9, short a10, short a11, JnO a12, JnO a13, boolean a14) {
    long h = 1185L;
    h = h * 31 + a0;
    h = h * 31 + a1;
    h = h * 31 + (long) (a2 * 8);
    h = h * 31 + (a3 ? 1 : 2);
    h = h * 31 + (long) (a4 * 64);
    h = h * 31 + id(a5);
    h = h * 31 + a6;
    h = h * 31 + id(a7);
    h = h * 31 + id(a8);
    h = h * 31 + (long) (a9 * 8);
    h = h * 31 + a10;
    h = h * 31 + a11;
    h = h * 31 + id(a12);
    h = h * 31 + id(a13);
    h = h * 31 + (a14 ? 1 : 2);
    return h;
  }
  static JnO s38(char a0, long a1, float a2, boolean a3, double a4, JnO a5, byte a6, JnO a7, JnO a8, float a9, short a10, short a11, JnO a12, JnO a13, boolean a14) {
    long h = hs38(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return a5;
  }
  JnO j38(char a0, long a1, float a2, boolean a3, double a4, JnO a5, byte a6, JnO a7, JnO a8, float a9, short a10, short a11, JnO a12, JnO a13, boolean a14) {
    long h = hs38(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return a5;
  }
  static native void n39(JnO a0, float a1, boolean a2, byte a3, boolean a4, boolean a5, long a6);
  native void v39(JnO a0, float a1, boolean a2, byte a3, boolean a4, boolean a5, long a6);
  static long hs39(JnO a0, float a1, boolean a2, byte a3, boolean a4, boolean a5, long a6) {
    long h = 1216L;
    h = h * 31 + id(a0);
    h = h * 31 + (long) (a1 * 8);
    h = h * 31 + (a2 ? 1 : 2);
    h = h * 31 + a3;
    h = h * 31 + (a4 ? 1 : 2);
    h = h * 31 + (a5 ? 1 : 2);
    h = h * 31 + a6;
    return h;
  }
  static void s39(JnO a0, float a1, boolean a2, byte a3, boolean a4, boolean a5, long a6) {
    long h = hs39(a0, a1, a2, a3, a4, a5, a6);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    setLast(h);
  }
  void j39(JnO a0, float a1, boolean a2, byte a3, boolean a4, boolean a5, long a6) {
    long h = hs39(a0, a1, a2, a3, a4, a5, a6) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    setLast(h);
  }
  static native boolean n40(long a0, long a1, JnO a2, int a3, int a4, JnO a5, long a6);
  native boolean v40(long a0, long a1, JnO a2, int a3, int a4, JnO a5, long a6);
  static long hs40(long a0, long a1, JnO a2, int a3, int a4, JnO a5, long a6) {
    long h = 1247L;
    h = h * 31 + a0;
    h = h * 31 + a1;
    h = h * 31 + id(a2);
    h = h * 31 + a3;
    h = h * 31 + a4;
    h = h * 31 + id(a5);
    h = h * 31 + a6;
    return h;
  }
  static boolean s40(long a0, long a1, JnO a2, int a3, int a4, JnO a5, long a6) {
    long h = hs40(a0, a1, a2, a3, a4, a5, a6);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (h & 1) != 0;
  }
  boolean j40(long a0, long a1, JnO a2, int a3, int a4, JnO a5, long a6) {
    long h = hs40(a0, a1, a2, a3, a4, a5, a6) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (h & 1) != 0;
  }
  static native byte n41(JnO a0, boolean a1, JnO a2, JnO a3, JnO a4, char a5, char a6, JnO a7);
  native byte v41(JnO a0, boolean a1, JnO a2, JnO a3, JnO a4, char a5, char a6, JnO a7);
  static long hs41(JnO a0, boolean a1, JnO a2, JnO a3, JnO a4, char a5, char a6, JnO a7) {
    long h = 1278L;
    h = h * 31 + id(a0);
    h = h * 31 + (a1 ? 1 : 2);
    h = h * 31 + id(a2);
    h = h * 31 + id(a3);
    h = h * 31 + id(a4);
    h = h * 31 + a5;
    h = h * 31 + a6;
    h = h * 31 + id(a7);
    return h;
  }
  static byte s41(JnO a0, boolean a1, JnO a2, JnO a3, JnO a4, char a5, char a6, JnO a7) {
    long h = hs41(a0, a1, a2, a3, a4, a5, a6, a7);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (byte) h;
  }
  byte j41(JnO a0, boolean a1, JnO a2, JnO a3, JnO a4, char a5, char a6, JnO a7) {
    long h = hs41(a0, a1, a2, a3, a4, a5, a6, a7) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (byte) h;
  }
  static native char n42(int a0, long a1, int a2, boolean a3, JnO a4, JnO a5, byte a6, JnO a7, short a8, long a9, JnO a10, double a11, JnO a12, double a13, short a14);
  native char v42(int a0, long a1, int a2, boolean a3, JnO a4, JnO a5, byte a6, JnO a7, short a8, long a9, JnO a10, double a11, JnO a12, double a13, short a14);
  static long hs42(int a0, long a1, int a2, boolean a3, JnO a4, JnO a5, byte a6, JnO a7, short a8, long a9, JnO a10, double a11, JnO a12, double a13, short a14) {
    long h = 1309L;
    h = h * 31 + a0;
    h = h * 31 + a1;
    h = h * 31 + a2;
    h = h * 31 + (a3 ? 1 : 2);
    h = h * 31 + id(a4);
    h = h * 31 + id(a5);
    h = h * 31 + a6;
    h = h * 31 + id(a7);
    h = h * 31 + a8;
    h = h * 31 + a9;
    h = h * 31 + id(a10);
    h = h * 31 + (long) (a11 * 64);
    h = h * 31 + id(a12);
    h = h * 31 + (long) (a13 * 64);
    h = h * 31 + a14;
    return h;
  }
  static char s42(int a0, long a1, int a2, boolean a3, JnO a4, JnO a5, byte a6, JnO a7, short a8, long a9, JnO a10, double a11, JnO a12, double a13, short a14) {
    long h = hs42(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (char) h;
  }
  char j42(int a0, long a1, int a2, boolean a3, JnO a4, JnO a5, byte a6, JnO a7, short a8, long a9, JnO a10, double a11, JnO a12, double a13, short a14) {
    long h = hs42(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (char) h;
  }
  static native short n43(long a0);
  native short v43(long a0);
  static long hs43(long a0) {
    long h = 1340L;
    h = h * 31 + a0;
    return h;
  }
  static short s43(long a0) {
    long h = hs43(a0);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (short) h;
  }
  short j43(long a0) {
    long h = hs43(a0) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (short) h;
  }
  static native int n44(JnO a0, long a1, JnO a2, long a3, int a4, long a5, int a6);
  native int v44(JnO a0, long a1, JnO a2, long a3, int a4, long a5, int a6);
  static long hs44(JnO a0, long a1, JnO a2, long a3, int a4, long a5, int a6) {
    long h = 1371L;
    h = h * 31 + id(a0);
    h = h * 31 + a1;
    h = h * 31 + id(a2);
    h = h * 31 + a3;
    h = h * 31 + a4;
    h = h * 31 + a5;
    h = h * 31 + a6;
    return h;
  }
  static int s44(JnO a0, long a1, JnO a2, long a3, int a4, long a5, int a6) {
    long h = hs44(a0, a1, a2, a3, a4, a5, a6);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (int) h;
  }
  int j44(JnO a0, long a1, JnO a2, long a3, int a4, long a5, int a6) {
    long h = hs44(a0, a1, a2, a3, a4, a5, a6) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (int) h;
  }
  static native long n45(int a0);
  native long v45(int a0);
  static long hs45(int a0) {
    long h = 1402L;
    h = h * 31 + a0;
    return h;
  }
  static long s45(int a0) {
    long h = hs45(a0);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return h;
  }
  long j45(int a0) {
    long h = hs45(a0) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return h;
  }
  static native float n46(int a0, int a1, int a2, long a3);
  native float v46(int a0, int a1, int a2, long a3);
  static long hs46(int a0, int a1, int a2, long a3) {
    long h = 1433L;
    h = h * 31 + a0;
    h = h * 31 + a1;
    h = h * 31 + a2;
    h = h * 31 + a3;
    return h;
  }
  static float s46(int a0, int a1, int a2, long a3) {
    long h = hs46(a0, a1, a2, a3);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (float) (short) h / 4;
  }
  float j46(int a0, int a1, int a2, long a3) {
    long h = hs46(a0, a1, a2, a3) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (float) (short) h / 4;
  }
  static native double n47(float a0, float a1, float a2, float a3, JnO a4);
  native double v47(float a0, float a1, float a2, float a3, JnO a4);
  static long hs47(float a0, float a1, float a2, float a3, JnO a4) {
    long h = 1464L;
    h = h * 31 + (long) (a0 * 8);
    h = h * 31 + (long) (a1 * 8);
    h = h * 31 + (long) (a2 * 8);
    h = h * 31 + (long) (a3 * 8);
    h = h * 31 + id(a4);
    return h;
  }
  static double s47(float a0, float a1, float a2, float a3, JnO a4) {
    long h = hs47(a0, a1, a2, a3, a4);
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (double) (int) h / 32;
  }
  double j47(float a0, float a1, float a2, float a3, JnO a4) {
    long h = hs47(a0, a1, a2, a3, a4) + id * 7;
    junk(h);
    if ((h & 63) == 5) throw new JnEx(h);
    return (double) (int) h / 32;
  }
  static void call(int k, int q, JniSigs r, JnO[] o) {
    switch (k) {
    case 0: {
      {
        long h = hs0();
        boolean boom = (h & 63) == 5;
        try {
          boolean g = n0();
          if (!boom) expect(0, 1, g, (h & 1) != 0);
          if (boom) W.fail("signature 0 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 0 (1) threw for " + e.h);
        }
      }
      {
        long h = hs0() + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          boolean g = r.v0();
          if (!boom) expect(0, 2, g, (h & 1) != 0);
          if (boom) W.fail("signature 0 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 0 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 1: {
      float a0 = (float) (short) x(q, 0) / 8;
      float a1 = (float) (short) x(q, 1) / 8;
      float a2 = (float) (short) x(q, 2) / 8;
      float a3 = (float) (short) x(q, 3) / 8;
      double a4 = (double) (int) x(q, 4) / 64;
      double a5 = (double) (int) x(q, 5) / 64;
      {
        long h = hs1(a0, a1, a2, a3, a4, a5);
        boolean boom = (h & 63) == 5;
        try {
          byte g = n1(a0, a1, a2, a3, a4, a5);
          if (!boom) expect(1, 1, g, (byte) h);
          if (boom) W.fail("signature 1 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 1 (1) threw for " + e.h);
        }
      }
      {
        long h = hs1(a0, a1, a2, a3, a4, a5) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          byte g = r.v1(a0, a1, a2, a3, a4, a5);
          if (!boom) expect(1, 2, g, (byte) h);
          if (boom) W.fail("signature 1 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 1 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 2: {
      float a0 = (float) (short) x(q, 0) / 8;
      float a1 = (float) (short) x(q, 1) / 8;
      double a2 = (double) (int) x(q, 2) / 64;
      int a3 = (int) x(q, 3);
      double a4 = (double) (int) x(q, 4) / 64;
      long a5 = x(q, 5) * 2654435761L;
      float a6 = (float) (short) x(q, 6) / 8;
      {
        long h = hs2(a0, a1, a2, a3, a4, a5, a6);
        boolean boom = (h & 63) == 5;
        try {
          char g = n2(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(2, 1, g, (char) h);
          if (boom) W.fail("signature 2 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 2 (1) threw for " + e.h);
        }
      }
      {
        long h = hs2(a0, a1, a2, a3, a4, a5, a6) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          char g = r.v2(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(2, 2, g, (char) h);
          if (boom) W.fail("signature 2 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 2 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 3: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      float a1 = (float) (short) x(q, 1) / 8;
      char a2 = (char) x(q, 2);
      long a3 = x(q, 3) * 2654435761L;
      long a4 = x(q, 4) * 2654435761L;
      byte a5 = (byte) x(q, 5);
      byte a6 = (byte) x(q, 6);
      JnO a7 = o[(int) (x(q, 7) & 3)];
      int a8 = (int) x(q, 8);
      JnO a9 = o[(int) (x(q, 9) & 3)];
      double a10 = (double) (int) x(q, 10) / 64;
      short a11 = (short) x(q, 11);
      short a12 = (short) x(q, 12);
      short a13 = (short) x(q, 13);
      byte a14 = (byte) x(q, 14);
      byte a15 = (byte) x(q, 15);
      short a16 = (short) x(q, 16);
      JnO a17 = o[(int) (x(q, 17) & 3)];
      double a18 = (double) (int) x(q, 18) / 64;
      JnO a19 = o[(int) (x(q, 19) & 3)];
      JnO a20 = o[(int) (x(q, 20) & 3)];
      byte a21 = (byte) x(q, 21);
      {
        long h = hs3(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21);
        boolean boom = (h & 63) == 5;
        try {
          short g = n3(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21);
          if (!boom) expect(3, 1, g, (short) h);
          if (boom) W.fail("signature 3 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 3 (1) threw for " + e.h);
        }
      }
      {
        long h = hs3(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          short g = r.v3(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21);
          if (!boom) expect(3, 2, g, (short) h);
          if (boom) W.fail("signature 3 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 3 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 4: {
      long a0 = x(q, 0) * 2654435761L;
      {
        long h = hs4(a0);
        boolean boom = (h & 63) == 5;
        try {
          int g = n4(a0);
          if (!boom) expect(4, 1, g, (int) h);
          if (boom) W.fail("signature 4 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 4 (1) threw for " + e.h);
        }
      }
      {
        long h = hs4(a0) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          int g = r.v4(a0);
          if (!boom) expect(4, 2, g, (int) h);
          if (boom) W.fail("signature 4 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 4 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 5: {
      byte a0 = (byte) x(q, 0);
      JnO a1 = o[(int) (x(q, 1) & 3)];
      double a2 = (double) (int) x(q, 2) / 64;
      byte a3 = (byte) x(q, 3);
      JnO a4 = o[(int) (x(q, 4) & 3)];
      byte a5 = (byte) x(q, 5);
      int a6 = (int) x(q, 6);
      double a7 = (double) (int) x(q, 7) / 64;
      JnO a8 = o[(int) (x(q, 8) & 3)];
      JnO a9 = o[(int) (x(q, 9) & 3)];
      byte a10 = (byte) x(q, 10);
      long a11 = x(q, 11) * 2654435761L;
      JnO a12 = o[(int) (x(q, 12) & 3)];
      boolean a13 = (x(q, 13) & 1) != 0;
      float a14 = (float) (short) x(q, 14) / 8;
      JnO a15 = o[(int) (x(q, 15) & 3)];
      JnO a16 = o[(int) (x(q, 16) & 3)];
      JnO a17 = o[(int) (x(q, 17) & 3)];
      short a18 = (short) x(q, 18);
      short a19 = (short) x(q, 19);
      {
        long h = hs5(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
        boolean boom = (h & 63) == 5;
        try {
          long g = n5(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
          if (!boom) expect(5, 1, g, h);
          if (boom) W.fail("signature 5 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 5 (1) threw for " + e.h);
        }
      }
      {
        long h = hs5(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          long g = r.v5(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
          if (!boom) expect(5, 2, g, h);
          if (boom) W.fail("signature 5 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 5 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 6: {
      long a0 = x(q, 0) * 2654435761L;
      JnO a1 = o[(int) (x(q, 1) & 3)];
      int a2 = (int) x(q, 2);
      long a3 = x(q, 3) * 2654435761L;
      int a4 = (int) x(q, 4);
      int a5 = (int) x(q, 5);
      int a6 = (int) x(q, 6);
      long a7 = x(q, 7) * 2654435761L;
      JnO a8 = o[(int) (x(q, 8) & 3)];
      {
        long h = hs6(a0, a1, a2, a3, a4, a5, a6, a7, a8);
        boolean boom = (h & 63) == 5;
        try {
          float g = n6(a0, a1, a2, a3, a4, a5, a6, a7, a8);
          if (!boom) expect(6, 1, g, (float) (short) h / 4);
          if (boom) W.fail("signature 6 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 6 (1) threw for " + e.h);
        }
      }
      {
        long h = hs6(a0, a1, a2, a3, a4, a5, a6, a7, a8) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          float g = r.v6(a0, a1, a2, a3, a4, a5, a6, a7, a8);
          if (!boom) expect(6, 2, g, (float) (short) h / 4);
          if (boom) W.fail("signature 6 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 6 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 7: {
      {
        long h = hs7();
        boolean boom = (h & 63) == 5;
        try {
          double g = n7();
          if (!boom) expect(7, 1, g, (double) (int) h / 32);
          if (boom) W.fail("signature 7 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 7 (1) threw for " + e.h);
        }
      }
      {
        long h = hs7() + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          double g = r.v7();
          if (!boom) expect(7, 2, g, (double) (int) h / 32);
          if (boom) W.fail("signature 7 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 7 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 8: {
      int a0 = (int) x(q, 0);
      long a1 = x(q, 1) * 2654435761L;
      JnO a2 = o[(int) (x(q, 2) & 3)];
      JnO a3 = o[(int) (x(q, 3) & 3)];
      JnO a4 = o[(int) (x(q, 4) & 3)];
      long a5 = x(q, 5) * 2654435761L;
      int a6 = (int) x(q, 6);
      JnO a7 = o[(int) (x(q, 7) & 3)];
      long a8 = x(q, 8) * 2654435761L;
      JnO a9 = o[(int) (x(q, 9) & 3)];
      JnO a10 = o[(int) (x(q, 10) & 3)];
      int a11 = (int) x(q, 11);
      int a12 = (int) x(q, 12);
      long a13 = x(q, 13) * 2654435761L;
      JnO a14 = o[(int) (x(q, 14) & 3)];
      {
        long h = hs8(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
        boolean boom = (h & 63) == 5;
        try {
          JnO g = n8(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom && g != a2) W.fail("signature 8 (1) returned another object");
          if (boom) W.fail("signature 8 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 8 (1) threw for " + e.h);
        }
      }
      {
        long h = hs8(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          JnO g = r.v8(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom && g != a2) W.fail("signature 8 (2) returned another object");
          if (boom) W.fail("signature 8 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 8 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 9: {
      double a0 = (double) (int) x(q, 0) / 64;
      {
        long h = hs9(a0);
        boolean boom = (h & 63) == 5;
        try {
          n9(a0);
          if (!boom && last() != h) W.fail("signature 9 (1) got other arguments");
          if (boom) W.fail("signature 9 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 9 (1) threw for " + e.h);
        }
      }
      {
        long h = hs9(a0) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          r.v9(a0);
          if (!boom && last() != h) W.fail("signature 9 (2) got other arguments");
          if (boom) W.fail("signature 9 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 9 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 10: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      int a1 = (int) x(q, 1);
      int a2 = (int) x(q, 2);
      long a3 = x(q, 3) * 2654435761L;
      int a4 = (int) x(q, 4);
      {
        long h = hs10(a0, a1, a2, a3, a4);
        boolean boom = (h & 63) == 5;
        try {
          boolean g = n10(a0, a1, a2, a3, a4);
          if (!boom) expect(10, 1, g, (h & 1) != 0);
          if (boom) W.fail("signature 10 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 10 (1) threw for " + e.h);
        }
      }
      {
        long h = hs10(a0, a1, a2, a3, a4) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          boolean g = r.v10(a0, a1, a2, a3, a4);
          if (!boom) expect(10, 2, g, (h & 1) != 0);
          if (boom) W.fail("signature 10 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 10 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 11: {
      boolean a0 = (x(q, 0) & 1) != 0;
      short a1 = (short) x(q, 1);
      byte a2 = (byte) x(q, 2);
      JnO a3 = o[(int) (x(q, 3) & 3)];
      double a4 = (double) (int) x(q, 4) / 64;
      byte a5 = (byte) x(q, 5);
      float a6 = (float) (short) x(q, 6) / 8;
      double a7 = (double) (int) x(q, 7) / 64;
      byte a8 = (byte) x(q, 8);
      char a9 = (char) x(q, 9);
      short a10 = (short) x(q, 10);
      int a11 = (int) x(q, 11);
      short a12 = (short) x(q, 12);
      byte a13 = (byte) x(q, 13);
      char a14 = (char) x(q, 14);
      {
        long h = hs11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
        boolean boom = (h & 63) == 5;
        try {
          byte g = n11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom) expect(11, 1, g, (byte) h);
          if (boom) W.fail("signature 11 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 11 (1) threw for " + e.h);
        }
      }
      {
        long h = hs11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          byte g = r.v11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom) expect(11, 2, g, (byte) h);
          if (boom) W.fail("signature 11 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 11 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 12: {
      boolean a0 = (x(q, 0) & 1) != 0;
      boolean a1 = (x(q, 1) & 1) != 0;
      {
        long h = hs12(a0, a1);
        boolean boom = (h & 63) == 5;
        try {
          char g = n12(a0, a1);
          if (!boom) expect(12, 1, g, (char) h);
          if (boom) W.fail("signature 12 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 12 (1) threw for " + e.h);
        }
      }
      {
        long h = hs12(a0, a1) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          char g = r.v12(a0, a1);
          if (!boom) expect(12, 2, g, (char) h);
          if (boom) W.fail("signature 12 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 12 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 13: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      JnO a1 = o[(int) (x(q, 1) & 3)];
      float a2 = (float) (short) x(q, 2) / 8;
      JnO a3 = o[(int) (x(q, 3) & 3)];
      JnO a4 = o[(int) (x(q, 4) & 3)];
      float a5 = (float) (short) x(q, 5) / 8;
      double a6 = (double) (int) x(q, 6) / 64;
      JnO a7 = o[(int) (x(q, 7) & 3)];
      int a8 = (int) x(q, 8);
      JnO a9 = o[(int) (x(q, 9) & 3)];
      byte a10 = (byte) x(q, 10);
      double a11 = (double) (int) x(q, 11) / 64;
      JnO a12 = o[(int) (x(q, 12) & 3)];
      float a13 = (float) (short) x(q, 13) / 8;
      int a14 = (int) x(q, 14);
      JnO a15 = o[(int) (x(q, 15) & 3)];
      int a16 = (int) x(q, 16);
      int a17 = (int) x(q, 17);
      double a18 = (double) (int) x(q, 18) / 64;
      short a19 = (short) x(q, 19);
      {
        long h = hs13(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
        boolean boom = (h & 63) == 5;
        try {
          short g = n13(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
          if (!boom) expect(13, 1, g, (short) h);
          if (boom) W.fail("signature 13 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 13 (1) threw for " + e.h);
        }
      }
      {
        long h = hs13(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          short g = r.v13(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
          if (!boom) expect(13, 2, g, (short) h);
          if (boom) W.fail("signature 13 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 13 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 14: {
      {
        long h = hs14();
        boolean boom = (h & 63) == 5;
        try {
          int g = n14();
          if (!boom) expect(14, 1, g, (int) h);
          if (boom) W.fail("signature 14 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 14 (1) threw for " + e.h);
        }
      }
      {
        long h = hs14() + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          int g = r.v14();
          if (!boom) expect(14, 2, g, (int) h);
          if (boom) W.fail("signature 14 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 14 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 15: {
      boolean a0 = (x(q, 0) & 1) != 0;
      boolean a1 = (x(q, 1) & 1) != 0;
      char a2 = (char) x(q, 2);
      boolean a3 = (x(q, 3) & 1) != 0;
      byte a4 = (byte) x(q, 4);
      JnO a5 = o[(int) (x(q, 5) & 3)];
      byte a6 = (byte) x(q, 6);
      {
        long h = hs15(a0, a1, a2, a3, a4, a5, a6);
        boolean boom = (h & 63) == 5;
        try {
          long g = n15(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(15, 1, g, h);
          if (boom) W.fail("signature 15 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 15 (1) threw for " + e.h);
        }
      }
      {
        long h = hs15(a0, a1, a2, a3, a4, a5, a6) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          long g = r.v15(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(15, 2, g, h);
          if (boom) W.fail("signature 15 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 15 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 16: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      byte a1 = (byte) x(q, 1);
      float a2 = (float) (short) x(q, 2) / 8;
      char a3 = (char) x(q, 3);
      byte a4 = (byte) x(q, 4);
      JnO a5 = o[(int) (x(q, 5) & 3)];
      float a6 = (float) (short) x(q, 6) / 8;
      int a7 = (int) x(q, 7);
      {
        long h = hs16(a0, a1, a2, a3, a4, a5, a6, a7);
        boolean boom = (h & 63) == 5;
        try {
          float g = n16(a0, a1, a2, a3, a4, a5, a6, a7);
          if (!boom) expect(16, 1, g, (float) (short) h / 4);
          if (boom) W.fail("signature 16 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 16 (1) threw for " + e.h);
        }
      }
      {
        long h = hs16(a0, a1, a2, a3, a4, a5, a6, a7) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          float g = r.v16(a0, a1, a2, a3, a4, a5, a6, a7);
          if (!boom) expect(16, 2, g, (float) (short) h / 4);
          if (boom) W.fail("signature 16 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 16 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 17: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      JnO a1 = o[(int) (x(q, 1) & 3)];
      long a2 = x(q, 2) * 2654435761L;
      int a3 = (int) x(q, 3);
      JnO a4 = o[(int) (x(q, 4) & 3)];
      long a5 = x(q, 5) * 2654435761L;
      long a6 = x(q, 6) * 2654435761L;
      {
        long h = hs17(a0, a1, a2, a3, a4, a5, a6);
        boolean boom = (h & 63) == 5;
        try {
          double g = n17(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(17, 1, g, (double) (int) h / 32);
          if (boom) W.fail("signature 17 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 17 (1) threw for " + e.h);
        }
      }
      {
        long h = hs17(a0, a1, a2, a3, a4, a5, a6) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          double g = r.v17(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(17, 2, g, (double) (int) h / 32);
          if (boom) W.fail("signature 17 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 17 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 18: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      long a1 = x(q, 1) * 2654435761L;
      long a2 = x(q, 2) * 2654435761L;
      short a3 = (short) x(q, 3);
      {
        long h = hs18(a0, a1, a2, a3);
        boolean boom = (h & 63) == 5;
        try {
          JnO g = n18(a0, a1, a2, a3);
          if (!boom && g != a0) W.fail("signature 18 (1) returned another object");
          if (boom) W.fail("signature 18 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 18 (1) threw for " + e.h);
        }
      }
      {
        long h = hs18(a0, a1, a2, a3) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          JnO g = r.v18(a0, a1, a2, a3);
          if (!boom && g != a0) W.fail("signature 18 (2) returned another object");
          if (boom) W.fail("signature 18 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 18 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 19: {
      double a0 = (double) (int) x(q, 0) / 64;
      JnO a1 = o[(int) (x(q, 1) & 3)];
      JnO a2 = o[(int) (x(q, 2) & 3)];
      double a3 = (double) (int) x(q, 3) / 64;
      JnO a4 = o[(int) (x(q, 4) & 3)];
      JnO a5 = o[(int) (x(q, 5) & 3)];
      JnO a6 = o[(int) (x(q, 6) & 3)];
      double a7 = (double) (int) x(q, 7) / 64;
      JnO a8 = o[(int) (x(q, 8) & 3)];
      JnO a9 = o[(int) (x(q, 9) & 3)];
      double a10 = (double) (int) x(q, 10) / 64;
      double a11 = (double) (int) x(q, 11) / 64;
      double a12 = (double) (int) x(q, 12) / 64;
      JnO a13 = o[(int) (x(q, 13) & 3)];
      JnO a14 = o[(int) (x(q, 14) & 3)];
      {
        long h = hs19(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
        boolean boom = (h & 63) == 5;
        try {
          n19(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom && last() != h) W.fail("signature 19 (1) got other arguments");
          if (boom) W.fail("signature 19 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 19 (1) threw for " + e.h);
        }
      }
      {
        long h = hs19(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          r.v19(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom && last() != h) W.fail("signature 19 (2) got other arguments");
          if (boom) W.fail("signature 19 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 19 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 20: {
      float a0 = (float) (short) x(q, 0) / 8;
      double a1 = (double) (int) x(q, 1) / 64;
      JnO a2 = o[(int) (x(q, 2) & 3)];
      float a3 = (float) (short) x(q, 3) / 8;
      float a4 = (float) (short) x(q, 4) / 8;
      float a5 = (float) (short) x(q, 5) / 8;
      double a6 = (double) (int) x(q, 6) / 64;
      JnO a7 = o[(int) (x(q, 7) & 3)];
      float a8 = (float) (short) x(q, 8) / 8;
      float a9 = (float) (short) x(q, 9) / 8;
      JnO a10 = o[(int) (x(q, 10) & 3)];
      JnO a11 = o[(int) (x(q, 11) & 3)];
      JnO a12 = o[(int) (x(q, 12) & 3)];
      JnO a13 = o[(int) (x(q, 13) & 3)];
      JnO a14 = o[(int) (x(q, 14) & 3)];
      JnO a15 = o[(int) (x(q, 15) & 3)];
      float a16 = (float) (short) x(q, 16) / 8;
      JnO a17 = o[(int) (x(q, 17) & 3)];
      float a18 = (float) (short) x(q, 18) / 8;
      JnO a19 = o[(int) (x(q, 19) & 3)];
      {
        long h = hs20(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
        boolean boom = (h & 63) == 5;
        try {
          boolean g = n20(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
          if (!boom) expect(20, 1, g, (h & 1) != 0);
          if (boom) W.fail("signature 20 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 20 (1) threw for " + e.h);
        }
      }
      {
        long h = hs20(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          boolean g = r.v20(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
          if (!boom) expect(20, 2, g, (h & 1) != 0);
          if (boom) W.fail("signature 20 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 20 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 21: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      char a1 = (char) x(q, 1);
      int a2 = (int) x(q, 2);
      char a3 = (char) x(q, 3);
      JnO a4 = o[(int) (x(q, 4) & 3)];
      long a5 = x(q, 5) * 2654435761L;
      boolean a6 = (x(q, 6) & 1) != 0;
      JnO a7 = o[(int) (x(q, 7) & 3)];
      JnO a8 = o[(int) (x(q, 8) & 3)];
      {
        long h = hs21(a0, a1, a2, a3, a4, a5, a6, a7, a8);
        boolean boom = (h & 63) == 5;
        try {
          byte g = n21(a0, a1, a2, a3, a4, a5, a6, a7, a8);
          if (!boom) expect(21, 1, g, (byte) h);
          if (boom) W.fail("signature 21 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 21 (1) threw for " + e.h);
        }
      }
      {
        long h = hs21(a0, a1, a2, a3, a4, a5, a6, a7, a8) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          byte g = r.v21(a0, a1, a2, a3, a4, a5, a6, a7, a8);
          if (!boom) expect(21, 2, g, (byte) h);
          if (boom) W.fail("signature 21 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 21 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 22: {
      long a0 = x(q, 0) * 2654435761L;
      double a1 = (double) (int) x(q, 1) / 64;
      int a2 = (int) x(q, 2);
      double a3 = (double) (int) x(q, 3) / 64;
      int a4 = (int) x(q, 4);
      long a5 = x(q, 5) * 2654435761L;
      double a6 = (double) (int) x(q, 6) / 64;
      double a7 = (double) (int) x(q, 7) / 64;
      long a8 = x(q, 8) * 2654435761L;
      float a9 = (float) (short) x(q, 9) / 8;
      long a10 = x(q, 10) * 2654435761L;
      long a11 = x(q, 11) * 2654435761L;
      {
        long h = hs22(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
        boolean boom = (h & 63) == 5;
        try {
          char g = n22(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
          if (!boom) expect(22, 1, g, (char) h);
          if (boom) W.fail("signature 22 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 22 (1) threw for " + e.h);
        }
      }
      {
        long h = hs22(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          char g = r.v22(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
          if (!boom) expect(22, 2, g, (char) h);
          if (boom) W.fail("signature 22 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 22 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 23: {
      double a0 = (double) (int) x(q, 0) / 64;
      long a1 = x(q, 1) * 2654435761L;
      double a2 = (double) (int) x(q, 2) / 64;
      double a3 = (double) (int) x(q, 3) / 64;
      double a4 = (double) (int) x(q, 4) / 64;
      long a5 = x(q, 5) * 2654435761L;
      float a6 = (float) (short) x(q, 6) / 8;
      double a7 = (double) (int) x(q, 7) / 64;
      int a8 = (int) x(q, 8);
      int a9 = (int) x(q, 9);
      float a10 = (float) (short) x(q, 10) / 8;
      double a11 = (double) (int) x(q, 11) / 64;
      double a12 = (double) (int) x(q, 12) / 64;
      double a13 = (double) (int) x(q, 13) / 64;
      long a14 = x(q, 14) * 2654435761L;
      {
        long h = hs23(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
        boolean boom = (h & 63) == 5;
        try {
          short g = n23(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom) expect(23, 1, g, (short) h);
          if (boom) W.fail("signature 23 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 23 (1) threw for " + e.h);
        }
      }
      {
        long h = hs23(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          short g = r.v23(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom) expect(23, 2, g, (short) h);
          if (boom) W.fail("signature 23 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 23 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 24: {
      char a0 = (char) x(q, 0);
      double a1 = (double) (int) x(q, 1) / 64;
      short a2 = (short) x(q, 2);
      JnO a3 = o[(int) (x(q, 3) & 3)];
      JnO a4 = o[(int) (x(q, 4) & 3)];
      long a5 = x(q, 5) * 2654435761L;
      long a6 = x(q, 6) * 2654435761L;
      double a7 = (double) (int) x(q, 7) / 64;
      {
        long h = hs24(a0, a1, a2, a3, a4, a5, a6, a7);
        boolean boom = (h & 63) == 5;
        try {
          int g = n24(a0, a1, a2, a3, a4, a5, a6, a7);
          if (!boom) expect(24, 1, g, (int) h);
          if (boom) W.fail("signature 24 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 24 (1) threw for " + e.h);
        }
      }
      {
        long h = hs24(a0, a1, a2, a3, a4, a5, a6, a7) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          int g = r.v24(a0, a1, a2, a3, a4, a5, a6, a7);
          if (!boom) expect(24, 2, g, (int) h);
          if (boom) W.fail("signature 24 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 24 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 25: {
      double a0 = (double) (int) x(q, 0) / 64;
      JnO a1 = o[(int) (x(q, 1) & 3)];
      float a2 = (float) (short) x(q, 2) / 8;
      {
        long h = hs25(a0, a1, a2);
        boolean boom = (h & 63) == 5;
        try {
          long g = n25(a0, a1, a2);
          if (!boom) expect(25, 1, g, h);
          if (boom) W.fail("signature 25 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 25 (1) threw for " + e.h);
        }
      }
      {
        long h = hs25(a0, a1, a2) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          long g = r.v25(a0, a1, a2);
          if (!boom) expect(25, 2, g, h);
          if (boom) W.fail("signature 25 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 25 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 26: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      JnO a1 = o[(int) (x(q, 1) & 3)];
      JnO a2 = o[(int) (x(q, 2) & 3)];
      int a3 = (int) x(q, 3);
      long a4 = x(q, 4) * 2654435761L;
      JnO a5 = o[(int) (x(q, 5) & 3)];
      int a6 = (int) x(q, 6);
      int a7 = (int) x(q, 7);
      JnO a8 = o[(int) (x(q, 8) & 3)];
      {
        long h = hs26(a0, a1, a2, a3, a4, a5, a6, a7, a8);
        boolean boom = (h & 63) == 5;
        try {
          float g = n26(a0, a1, a2, a3, a4, a5, a6, a7, a8);
          if (!boom) expect(26, 1, g, (float) (short) h / 4);
          if (boom) W.fail("signature 26 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 26 (1) threw for " + e.h);
        }
      }
      {
        long h = hs26(a0, a1, a2, a3, a4, a5, a6, a7, a8) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          float g = r.v26(a0, a1, a2, a3, a4, a5, a6, a7, a8);
          if (!boom) expect(26, 2, g, (float) (short) h / 4);
          if (boom) W.fail("signature 26 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 26 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 27: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      JnO a1 = o[(int) (x(q, 1) & 3)];
      double a2 = (double) (int) x(q, 2) / 64;
      double a3 = (double) (int) x(q, 3) / 64;
      JnO a4 = o[(int) (x(q, 4) & 3)];
      double a5 = (double) (int) x(q, 5) / 64;
      float a6 = (float) (short) x(q, 6) / 8;
      JnO a7 = o[(int) (x(q, 7) & 3)];
      JnO a8 = o[(int) (x(q, 8) & 3)];
      double a9 = (double) (int) x(q, 9) / 64;
      {
        long h = hs27(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
        boolean boom = (h & 63) == 5;
        try {
          double g = n27(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
          if (!boom) expect(27, 1, g, (double) (int) h / 32);
          if (boom) W.fail("signature 27 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 27 (1) threw for " + e.h);
        }
      }
      {
        long h = hs27(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          double g = r.v27(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
          if (!boom) expect(27, 2, g, (double) (int) h / 32);
          if (boom) W.fail("signature 27 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 27 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 28: {
      int a0 = (int) x(q, 0);
      long a1 = x(q, 1) * 2654435761L;
      short a2 = (short) x(q, 2);
      char a3 = (char) x(q, 3);
      long a4 = x(q, 4) * 2654435761L;
      JnO a5 = o[(int) (x(q, 5) & 3)];
      char a6 = (char) x(q, 6);
      int a7 = (int) x(q, 7);
      JnO a8 = o[(int) (x(q, 8) & 3)];
      double a9 = (double) (int) x(q, 9) / 64;
      int a10 = (int) x(q, 10);
      int a11 = (int) x(q, 11);
      double a12 = (double) (int) x(q, 12) / 64;
      short a13 = (short) x(q, 13);
      byte a14 = (byte) x(q, 14);
      {
        long h = hs28(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
        boolean boom = (h & 63) == 5;
        try {
          JnO g = n28(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom && g != a5) W.fail("signature 28 (1) returned another object");
          if (boom) W.fail("signature 28 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 28 (1) threw for " + e.h);
        }
      }
      {
        long h = hs28(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          JnO g = r.v28(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom && g != a5) W.fail("signature 28 (2) returned another object");
          if (boom) W.fail("signature 28 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 28 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 29: {
      double a0 = (double) (int) x(q, 0) / 64;
      int a1 = (int) x(q, 1);
      int a2 = (int) x(q, 2);
      float a3 = (float) (short) x(q, 3) / 8;
      double a4 = (double) (int) x(q, 4) / 64;
      int a5 = (int) x(q, 5);
      long a6 = x(q, 6) * 2654435761L;
      {
        long h = hs29(a0, a1, a2, a3, a4, a5, a6);
        boolean boom = (h & 63) == 5;
        try {
          n29(a0, a1, a2, a3, a4, a5, a6);
          if (!boom && last() != h) W.fail("signature 29 (1) got other arguments");
          if (boom) W.fail("signature 29 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 29 (1) threw for " + e.h);
        }
      }
      {
        long h = hs29(a0, a1, a2, a3, a4, a5, a6) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          r.v29(a0, a1, a2, a3, a4, a5, a6);
          if (!boom && last() != h) W.fail("signature 29 (2) got other arguments");
          if (boom) W.fail("signature 29 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 29 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 30: {
      long a0 = x(q, 0) * 2654435761L;
      long a1 = x(q, 1) * 2654435761L;
      double a2 = (double) (int) x(q, 2) / 64;
      long a3 = x(q, 3) * 2654435761L;
      int a4 = (int) x(q, 4);
      long a5 = x(q, 5) * 2654435761L;
      {
        long h = hs30(a0, a1, a2, a3, a4, a5);
        boolean boom = (h & 63) == 5;
        try {
          boolean g = n30(a0, a1, a2, a3, a4, a5);
          if (!boom) expect(30, 1, g, (h & 1) != 0);
          if (boom) W.fail("signature 30 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 30 (1) threw for " + e.h);
        }
      }
      {
        long h = hs30(a0, a1, a2, a3, a4, a5) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          boolean g = r.v30(a0, a1, a2, a3, a4, a5);
          if (!boom) expect(30, 2, g, (h & 1) != 0);
          if (boom) W.fail("signature 30 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 30 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 31: {
      int a0 = (int) x(q, 0);
      long a1 = x(q, 1) * 2654435761L;
      long a2 = x(q, 2) * 2654435761L;
      JnO a3 = o[(int) (x(q, 3) & 3)];
      long a4 = x(q, 4) * 2654435761L;
      JnO a5 = o[(int) (x(q, 5) & 3)];
      long a6 = x(q, 6) * 2654435761L;
      {
        long h = hs31(a0, a1, a2, a3, a4, a5, a6);
        boolean boom = (h & 63) == 5;
        try {
          byte g = n31(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(31, 1, g, (byte) h);
          if (boom) W.fail("signature 31 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 31 (1) threw for " + e.h);
        }
      }
      {
        long h = hs31(a0, a1, a2, a3, a4, a5, a6) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          byte g = r.v31(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(31, 2, g, (byte) h);
          if (boom) W.fail("signature 31 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 31 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 32: {
      {
        long h = hs32();
        boolean boom = (h & 63) == 5;
        try {
          char g = n32();
          if (!boom) expect(32, 1, g, (char) h);
          if (boom) W.fail("signature 32 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 32 (1) threw for " + e.h);
        }
      }
      {
        long h = hs32() + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          char g = r.v32();
          if (!boom) expect(32, 2, g, (char) h);
          if (boom) W.fail("signature 32 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 32 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 33: {
      double a0 = (double) (int) x(q, 0) / 64;
      JnO a1 = o[(int) (x(q, 1) & 3)];
      double a2 = (double) (int) x(q, 2) / 64;
      JnO a3 = o[(int) (x(q, 3) & 3)];
      {
        long h = hs33(a0, a1, a2, a3);
        boolean boom = (h & 63) == 5;
        try {
          short g = n33(a0, a1, a2, a3);
          if (!boom) expect(33, 1, g, (short) h);
          if (boom) W.fail("signature 33 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 33 (1) threw for " + e.h);
        }
      }
      {
        long h = hs33(a0, a1, a2, a3) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          short g = r.v33(a0, a1, a2, a3);
          if (!boom) expect(33, 2, g, (short) h);
          if (boom) W.fail("signature 33 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 33 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 34: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      byte a1 = (byte) x(q, 1);
      float a2 = (float) (short) x(q, 2) / 8;
      long a3 = x(q, 3) * 2654435761L;
      long a4 = x(q, 4) * 2654435761L;
      JnO a5 = o[(int) (x(q, 5) & 3)];
      int a6 = (int) x(q, 6);
      JnO a7 = o[(int) (x(q, 7) & 3)];
      byte a8 = (byte) x(q, 8);
      {
        long h = hs34(a0, a1, a2, a3, a4, a5, a6, a7, a8);
        boolean boom = (h & 63) == 5;
        try {
          int g = n34(a0, a1, a2, a3, a4, a5, a6, a7, a8);
          if (!boom) expect(34, 1, g, (int) h);
          if (boom) W.fail("signature 34 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 34 (1) threw for " + e.h);
        }
      }
      {
        long h = hs34(a0, a1, a2, a3, a4, a5, a6, a7, a8) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          int g = r.v34(a0, a1, a2, a3, a4, a5, a6, a7, a8);
          if (!boom) expect(34, 2, g, (int) h);
          if (boom) W.fail("signature 34 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 34 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 35: {
      float a0 = (float) (short) x(q, 0) / 8;
      float a1 = (float) (short) x(q, 1) / 8;
      double a2 = (double) (int) x(q, 2) / 64;
      JnO a3 = o[(int) (x(q, 3) & 3)];
      float a4 = (float) (short) x(q, 4) / 8;
      {
        long h = hs35(a0, a1, a2, a3, a4);
        boolean boom = (h & 63) == 5;
        try {
          long g = n35(a0, a1, a2, a3, a4);
          if (!boom) expect(35, 1, g, h);
          if (boom) W.fail("signature 35 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 35 (1) threw for " + e.h);
        }
      }
      {
        long h = hs35(a0, a1, a2, a3, a4) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          long g = r.v35(a0, a1, a2, a3, a4);
          if (!boom) expect(35, 2, g, h);
          if (boom) W.fail("signature 35 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 35 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 36: {
      double a0 = (double) (int) x(q, 0) / 64;
      JnO a1 = o[(int) (x(q, 1) & 3)];
      {
        long h = hs36(a0, a1);
        boolean boom = (h & 63) == 5;
        try {
          float g = n36(a0, a1);
          if (!boom) expect(36, 1, g, (float) (short) h / 4);
          if (boom) W.fail("signature 36 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 36 (1) threw for " + e.h);
        }
      }
      {
        long h = hs36(a0, a1) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          float g = r.v36(a0, a1);
          if (!boom) expect(36, 2, g, (float) (short) h / 4);
          if (boom) W.fail("signature 36 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 36 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 37: {
      double a0 = (double) (int) x(q, 0) / 64;
      float a1 = (float) (short) x(q, 1) / 8;
      JnO a2 = o[(int) (x(q, 2) & 3)];
      double a3 = (double) (int) x(q, 3) / 64;
      {
        long h = hs37(a0, a1, a2, a3);
        boolean boom = (h & 63) == 5;
        try {
          double g = n37(a0, a1, a2, a3);
          if (!boom) expect(37, 1, g, (double) (int) h / 32);
          if (boom) W.fail("signature 37 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 37 (1) threw for " + e.h);
        }
      }
      {
        long h = hs37(a0, a1, a2, a3) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          double g = r.v37(a0, a1, a2, a3);
          if (!boom) expect(37, 2, g, (double) (int) h / 32);
          if (boom) W.fail("signature 37 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 37 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 38: {
      char a0 = (char) x(q, 0);
      long a1 = x(q, 1) * 2654435761L;
      float a2 = (float) (short) x(q, 2) / 8;
      boolean a3 = (x(q, 3) & 1) != 0;
      double a4 = (double) (int) x(q, 4) / 64;
      JnO a5 = o[(int) (x(q, 5) & 3)];
      byte a6 = (byte) x(q, 6);
      JnO a7 = o[(int) (x(q, 7) & 3)];
      JnO a8 = o[(int) (x(q, 8) & 3)];
      float a9 = (float) (short) x(q, 9) / 8;
      short a10 = (short) x(q, 10);
      short a11 = (short) x(q, 11);
      JnO a12 = o[(int) (x(q, 12) & 3)];
      JnO a13 = o[(int) (x(q, 13) & 3)];
      boolean a14 = (x(q, 14) & 1) != 0;
      {
        long h = hs38(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
        boolean boom = (h & 63) == 5;
        try {
          JnO g = n38(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom && g != a5) W.fail("signature 38 (1) returned another object");
          if (boom) W.fail("signature 38 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 38 (1) threw for " + e.h);
        }
      }
      {
        long h = hs38(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          JnO g = r.v38(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom && g != a5) W.fail("signature 38 (2) returned another object");
          if (boom) W.fail("signature 38 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 38 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 39: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      float a1 = (float) (short) x(q, 1) / 8;
      boolean a2 = (x(q, 2) & 1) != 0;
      byte a3 = (byte) x(q, 3);
      boolean a4 = (x(q, 4) & 1) != 0;
      boolean a5 = (x(q, 5) & 1) != 0;
      long a6 = x(q, 6) * 2654435761L;
      {
        long h = hs39(a0, a1, a2, a3, a4, a5, a6);
        boolean boom = (h & 63) == 5;
        try {
          n39(a0, a1, a2, a3, a4, a5, a6);
          if (!boom && last() != h) W.fail("signature 39 (1) got other arguments");
          if (boom) W.fail("signature 39 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 39 (1) threw for " + e.h);
        }
      }
      {
        long h = hs39(a0, a1, a2, a3, a4, a5, a6) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          r.v39(a0, a1, a2, a3, a4, a5, a6);
          if (!boom && last() != h) W.fail("signature 39 (2) got other arguments");
          if (boom) W.fail("signature 39 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 39 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 40: {
      long a0 = x(q, 0) * 2654435761L;
      long a1 = x(q, 1) * 2654435761L;
      JnO a2 = o[(int) (x(q, 2) & 3)];
      int a3 = (int) x(q, 3);
      int a4 = (int) x(q, 4);
      JnO a5 = o[(int) (x(q, 5) & 3)];
      long a6 = x(q, 6) * 2654435761L;
      {
        long h = hs40(a0, a1, a2, a3, a4, a5, a6);
        boolean boom = (h & 63) == 5;
        try {
          boolean g = n40(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(40, 1, g, (h & 1) != 0);
          if (boom) W.fail("signature 40 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 40 (1) threw for " + e.h);
        }
      }
      {
        long h = hs40(a0, a1, a2, a3, a4, a5, a6) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          boolean g = r.v40(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(40, 2, g, (h & 1) != 0);
          if (boom) W.fail("signature 40 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 40 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 41: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      boolean a1 = (x(q, 1) & 1) != 0;
      JnO a2 = o[(int) (x(q, 2) & 3)];
      JnO a3 = o[(int) (x(q, 3) & 3)];
      JnO a4 = o[(int) (x(q, 4) & 3)];
      char a5 = (char) x(q, 5);
      char a6 = (char) x(q, 6);
      JnO a7 = o[(int) (x(q, 7) & 3)];
      {
        long h = hs41(a0, a1, a2, a3, a4, a5, a6, a7);
        boolean boom = (h & 63) == 5;
        try {
          byte g = n41(a0, a1, a2, a3, a4, a5, a6, a7);
          if (!boom) expect(41, 1, g, (byte) h);
          if (boom) W.fail("signature 41 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 41 (1) threw for " + e.h);
        }
      }
      {
        long h = hs41(a0, a1, a2, a3, a4, a5, a6, a7) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          byte g = r.v41(a0, a1, a2, a3, a4, a5, a6, a7);
          if (!boom) expect(41, 2, g, (byte) h);
          if (boom) W.fail("signature 41 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 41 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 42: {
      int a0 = (int) x(q, 0);
      long a1 = x(q, 1) * 2654435761L;
      int a2 = (int) x(q, 2);
      boolean a3 = (x(q, 3) & 1) != 0;
      JnO a4 = o[(int) (x(q, 4) & 3)];
      JnO a5 = o[(int) (x(q, 5) & 3)];
      byte a6 = (byte) x(q, 6);
      JnO a7 = o[(int) (x(q, 7) & 3)];
      short a8 = (short) x(q, 8);
      long a9 = x(q, 9) * 2654435761L;
      JnO a10 = o[(int) (x(q, 10) & 3)];
      double a11 = (double) (int) x(q, 11) / 64;
      JnO a12 = o[(int) (x(q, 12) & 3)];
      double a13 = (double) (int) x(q, 13) / 64;
      short a14 = (short) x(q, 14);
      {
        long h = hs42(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
        boolean boom = (h & 63) == 5;
        try {
          char g = n42(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom) expect(42, 1, g, (char) h);
          if (boom) W.fail("signature 42 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 42 (1) threw for " + e.h);
        }
      }
      {
        long h = hs42(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          char g = r.v42(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
          if (!boom) expect(42, 2, g, (char) h);
          if (boom) W.fail("signature 42 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 42 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 43: {
      long a0 = x(q, 0) * 2654435761L;
      {
        long h = hs43(a0);
        boolean boom = (h & 63) == 5;
        try {
          short g = n43(a0);
          if (!boom) expect(43, 1, g, (short) h);
          if (boom) W.fail("signature 43 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 43 (1) threw for " + e.h);
        }
      }
      {
        long h = hs43(a0) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          short g = r.v43(a0);
          if (!boom) expect(43, 2, g, (short) h);
          if (boom) W.fail("signature 43 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 43 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 44: {
      JnO a0 = o[(int) (x(q, 0) & 3)];
      long a1 = x(q, 1) * 2654435761L;
      JnO a2 = o[(int) (x(q, 2) & 3)];
      long a3 = x(q, 3) * 2654435761L;
      int a4 = (int) x(q, 4);
      long a5 = x(q, 5) * 2654435761L;
      int a6 = (int) x(q, 6);
      {
        long h = hs44(a0, a1, a2, a3, a4, a5, a6);
        boolean boom = (h & 63) == 5;
        try {
          int g = n44(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(44, 1, g, (int) h);
          if (boom) W.fail("signature 44 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 44 (1) threw for " + e.h);
        }
      }
      {
        long h = hs44(a0, a1, a2, a3, a4, a5, a6) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          int g = r.v44(a0, a1, a2, a3, a4, a5, a6);
          if (!boom) expect(44, 2, g, (int) h);
          if (boom) W.fail("signature 44 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 44 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 45: {
      int a0 = (int) x(q, 0);
      {
        long h = hs45(a0);
        boolean boom = (h & 63) == 5;
        try {
          long g = n45(a0);
          if (!boom) expect(45, 1, g, h);
          if (boom) W.fail("signature 45 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 45 (1) threw for " + e.h);
        }
      }
      {
        long h = hs45(a0) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          long g = r.v45(a0);
          if (!boom) expect(45, 2, g, h);
          if (boom) W.fail("signature 45 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 45 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 46: {
      int a0 = (int) x(q, 0);
      int a1 = (int) x(q, 1);
      int a2 = (int) x(q, 2);
      long a3 = x(q, 3) * 2654435761L;
      {
        long h = hs46(a0, a1, a2, a3);
        boolean boom = (h & 63) == 5;
        try {
          float g = n46(a0, a1, a2, a3);
          if (!boom) expect(46, 1, g, (float) (short) h / 4);
          if (boom) W.fail("signature 46 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 46 (1) threw for " + e.h);
        }
      }
      {
        long h = hs46(a0, a1, a2, a3) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          float g = r.v46(a0, a1, a2, a3);
          if (!boom) expect(46, 2, g, (float) (short) h / 4);
          if (boom) W.fail("signature 46 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 46 (2) threw for " + e.h);
        }
      }
      break;
    }
    case 47: {
      float a0 = (float) (short) x(q, 0) / 8;
      float a1 = (float) (short) x(q, 1) / 8;
      float a2 = (float) (short) x(q, 2) / 8;
      float a3 = (float) (short) x(q, 3) / 8;
      JnO a4 = o[(int) (x(q, 4) & 3)];
      {
        long h = hs47(a0, a1, a2, a3, a4);
        boolean boom = (h & 63) == 5;
        try {
          double g = n47(a0, a1, a2, a3, a4);
          if (!boom) expect(47, 1, g, (double) (int) h / 32);
          if (boom) W.fail("signature 47 (1) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 47 (1) threw for " + e.h);
        }
      }
      {
        long h = hs47(a0, a1, a2, a3, a4) + r.id * 7;
        boolean boom = (h & 63) == 5;
        try {
          double g = r.v47(a0, a1, a2, a3, a4);
          if (!boom) expect(47, 2, g, (double) (int) h / 32);
          if (boom) W.fail("signature 47 (2) lost its exception");
        } catch (JnEx e) {
          if (!boom || e.h != h) W.fail("signature 47 (2) threw for " + e.h);
        }
      }
      break;
    }
    }
  }
}

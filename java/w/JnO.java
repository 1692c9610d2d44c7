package w;

import sim.Sim;

/** The objects that native code handles; each is used by one thread at a time. */
public class JnO extends JnBase {
  interface Named {
    int name(int k);
  }
  static class Sub extends JnO implements Named {
    Sub(int id, long j, double d) {
      super(id, j + 1, d);
    }
    long mix(int a, long b, JnO o) {
      return super.mix(a, b, o) ^ 0x55;
    }
    public int name(int k) {
      return id * 3 + k;
    }
  }
  int id;
  boolean z;
  byte b;
  char c;
  short s;
  int i;
  long j;
  float f;
  double d;
  JnO o;
  volatile long vj;
  volatile double vd;
  volatile JnO vo;
  volatile int vi;
  JnO(int id, long j, double d) {
    junk(j);
    this.id = id;
    this.j = j;
    this.d = d;
    if (id < 0) throw new JnEx(id);
  }
  long mix(int a, long b, JnO o) {
    junk(a);
    return ((id * 31L + a) * 31 + b) * 31 + (o == null ? -1 : o.id);
  }
  JnO pick(boolean me, JnO other) {
    junk(id);
    return me ? this : other;
  }
  int boom(int k) {
    junk(k);
    if (k % 3 == 0) throw new JnEx(k);
    if (k % 3 == 1) ((int[]) null)[k] = 0;
    return k;
  }
  /** calls native code again */
  int again(JnO[] os, int seed, int steps, int depth) {
    junk(seed);
    return JniW.script(os, seed, steps, depth);
  }
  /** native; excludes other threads */
  synchronized native int locks(int k);
  synchronized int locked() {
    return JniW.inside(this);
  }
  static Class late(int t) {
    return t == 0 ? Late0.class : t == 1 ? Late1.class : t == 2 ? Late2.class : Late3.class;
  }
  static String cut(String a, int x, int y) {
    return a.substring(x, y);
  }
  static String text(String a, int k) {
    return a + k;
  }
  static int hash(String a) {
    int h = 0;
    for (int i = 0; i < a.length(); ++i) h = h * 31 + a.charAt(i);
    return h;
  }
  /** what the fields hold, for a check against the native side's copy */
  static long sum(JnO[] os) {
    long h = 0;
    for (int k = 0; k < os.length; ++k) {
      JnO x = os[k];
      h = h * 31 + x.id;
      h = h * 31 + (x.z ? 1 : 0);
      h = h * 31 + x.b;
      h = h * 31 + x.c;
      h = h * 31 + x.s;
      h = h * 31 + x.i;
      h = h * 31 + x.j;
      h = h * 31 + (long) (x.f * 8);
      h = h * 31 + (long) (x.d * 64);
      h = h * 31 + (x.o == null ? -1 : x.o.id);
      h = h * 31 + x.vj;
      h = h * 31 + (long) (x.vd * 64);
      h = h * 31 + (x.vo == null ? -1 : x.vo.id);
      h = h * 31 + x.vi;
    }
    return h;
  }

  /** static fields, initialized by whoever uses the class first; each is one thread's */
  static class Late0 {
    static boolean z = true;
    static byte b = -3;
    static char c = 'c';
    static short s = -300;
    static int i = make(70000);
    static long j = 1L << 40;
    static float f = 1.5f;
    static double d = -2.25;
    static JnO o = new JnO(77, 1, 2);
    static volatile long vj = make(9);
    static int make(int k) {
      Object x = null;
      for (int i = 0; i < 40; ++i) {
        x = new Object[] {x, new int[i & 7]};
        if ((i & 15) == 7) Sim.point();
      }
      return k;
    }
  }
  static class Late1 extends Late0 {
    static boolean z = true;
    static byte b = -3;
    static char c = 'c';
    static short s = -300;
    static int i = make(70000);
    static long j = 1L << 40;
    static float f = 1.5f;
    static double d = -2.25;
    static JnO o = new JnO(77, 1, 2);
    static volatile long vj = make(9);
  }
  static class Late2 extends Up2 {
    static boolean z = true;
    static byte b = -3;
    static char c = 'c';
    static short s = -300;
    static int i = Late0.make(70000);
    static long j = 1L << 40;
    static float f = 1.5f;
    static double d = -2.25;
    static JnO o = new JnO(77, 1, 2);
    static volatile long vj = Late0.make(9);
  }
  static class Late3 extends Up3 {
    static boolean z = true;
    static byte b = -3;
    static char c = 'c';
    static short s = -300;
    static int i = Late0.make(70000);
    static long j = 1L << 40;
    static float f = 1.5f;
    static double d = -2.25;
    static JnO o = new JnO(77, 1, 2);
    static volatile long vj = Late0.make(9);
  }
  /** static fields that are reached by way of a subclass */
  static class Up2 {
    static long up = Late0.make(5);
    static JnO upo = new JnO(78, 1, 2);
  }
  static class Up3 {
    static long up = Late0.make(5);
    static JnO upo = new JnO(78, 1, 2);
  }
  /** natives registered at run time, one class per thread */
  static class Reg0 {
    static native int which(int k);
  }
  static class Reg1 {
    static native int which(int k);
  }
  static class Reg2 {
    static native int which(int k);
  }
  static class Reg3 {
    static native int which(int k);
  }
  static int callReg(int t, int k) {
    switch (t) {
    case 0: return Reg0.which(k);
    case 1: return Reg1.which(k);
    case 2: return Reg2.which(k);
    default: return Reg3.which(k);
    }
  }
}

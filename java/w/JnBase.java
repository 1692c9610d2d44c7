package w;

import sim.Sim;

/** Shared by the classes that native code of the simulator (sim/jni.cpp) uses. */
public class JnBase {
  static native void setLast(long h);
  static native long last();
  static Object sink;
  /** some garbage, sometimes a scheduling point */
  static void junk(long h) {
    int n = (int) (h >>> 3) & 3;
    for (int i = 0; i < n; ++i) sink = new int[3 + i];
    if ((h & 32) != 0) Sim.point();
  }
  static class JnEx extends RuntimeException {
    final long h;
    JnEx(long h) {
      this.h = h;
    }
  }
}

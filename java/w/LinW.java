package w;

import sim.Sim;

/** Threads that apply recorded operations to a shared object; the history is checked by sim/lin.py. */
public abstract class LinW extends W {
  /** what each thread is doing: op + 1, or 0 */
  static volatile int[] doing;
  static final Object progressLock = new Object();
  static int progress;

  abstract long apply(int me, int op, long a, long b) throws Exception;

  long record(int me, int op, long a, long b) throws Exception {
    Sim.ev(me, 0, op, a, b);
    long r = apply(me, op, a, b);
    Sim.ev(me, 1, op, r, 0);
    return r;
  }

  /** ops[thread][k] = {op, a, b}; op < 0: skip */
  T[] threads(final long[][][] ops) {
    T[] ts = new T[ops.length];
    doing = new int[ops.length + 1];
    for (int i = 0; i < ts.length; ++i)
      ts[i] = new T(i) {
        public void go() throws Exception {
          begin(me);
          long[][] my = ops[me];
          for (int k = 0; k < my.length; ++k) {
            int op = (int) my[k][0];
            if (op < 0) continue;
            Sim.point();
            doing[me] = op + 1;
            record(me, op, my[k][1], my[k][2]);
            doing[me] = 0;
            synchronized (progressLock) {
              ++progress;
            }
          }
          finish(me);
        }
      };
    return ts;
  }
  void begin(int me) throws Exception {}
  void finish(int me) throws Exception {}

  long[][][] plan(int threads, int lo, int hi) {
    long[][][] ops = new long[threads][][];
    for (int i = 0; i < threads; ++i) {
      int n = rng.between(lo, hi);
      ops[i] = new long[n][];
      for (int k = 0; k < n; ++k) {
        boolean s = skipped(step());
        ops[i][k] = op(i, k);
        if (s) ops[i][k][0] = -1;
      }
    }
    return ops;
  }
  abstract long[] op(int thread, int k);

  static long[] o(int op, long a, long b) {
    return new long[] {op, a, b};
  }
}

package w;

import sim.Sim;

/** Runs generated frame shapes in several threads; the results are compared with a reference VM's. */
public class FramesW extends W {
  static class SimCtx extends Frames.Ctx {
    int n;
    public void point() {
      if ((++n & 3) == 0) Thread.yield(); else Sim.point();
    }
  }
  void run() throws Exception {
    final int threads = rng.between(1, 3), per = rng.between(3, 12), params = param("params", 40);
    final boolean same = rng.chance(30);
    final int focus = rng.below(Frames.COUNT);
    T[] ts = new T[threads];
    for (int t = 0; t < threads; ++t) {
      final int[] m = new int[per], p = new int[per];
      for (int i = 0; i < per; ++i) {
        m[i] = same ? (focus + rng.below(5)) % Frames.COUNT : rng.below(Frames.COUNT);
        p[i] = rng.below(params);
        if (skipped(step())) m[i] = -1;
      }
      ts[t] = new T(t) {
        public void go() throws Exception {
          for (int i = 0; i < per; ++i) {
            if (m[i] < 0) continue;
            SimCtx c = new SimCtx();
            long v = Frames.run(c, m[i], p[i]);
            Sim.log("res " + m[i] + " " + p[i] + " " + v);
          }
        }
      };
    }
    runAll(ts);
  }
  void warm() throws Exception {
    Frames.run(new SimCtx(), 0, 0);
    Frames.run(new SimCtx(), 30, 1);
    Sim.log("warm " + Frames.COUNT);
  }
}

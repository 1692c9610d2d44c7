package w;

import sim.Sim;

/** Threads that are the first to use generated classes; the results are compared with a reference VM's. */
public class Link extends W {
  void run() throws Exception {
    final int threads = rng.between(1, 4), per = rng.between(2, 6), params = param("params", 10);
    final int groups = rng.between(1, 2), first = rng.below(L.GROUPS);
    final boolean same = rng.chance(40);
    final int entry = rng.below(L.ENTRIES);
    T[] ts = new T[threads];
    for (int t = 0; t < threads; ++t) {
      final int[] g = new int[per], e = new int[per], p = new int[per];
      for (int i = 0; i < per; ++i) {
        g[i] = (first + rng.below(groups)) % L.GROUPS;
        e[i] = same ? (entry + i) % L.ENTRIES : rng.below(L.ENTRIES);
        p[i] = rng.below(params);
        if (skipped(step())) g[i] = -1;
      }
      ts[t] = new T(t) {
        public void go() throws Exception {
          for (int i = 0; i < per; ++i) {
            if (g[i] < 0) continue;
            long v = L.run(g[i], e[i], p[i]);
            Sim.log("res " + g[i] + " " + e[i] + " " + p[i] + " " + v);
          }
        }
      };
    }
    runAll(ts);
  }
}

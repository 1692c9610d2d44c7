package w;

/** Plan generator: everything a workload does follows from its plan number. */
public class Rng {
  private int s;
  public Rng(long seed) {
    s = (int) (seed * 31 + (seed >> 32)) ^ 0x5bd1e995;
    for (int i = 0; i < 4; ++i) next();
  }
  public int next() {
    s ^= s << 13;
    s ^= s >>> 17;
    s ^= s << 5;
    if (s == 0) s = 0x1234567;
    return (s * 0x2545f491) >>> 1;
  }
  public int below(int n) {
    return next() % n;
  }
  public boolean chance(int percent) {
    return below(100) < percent;
  }
  public int between(int a, int b) {
    return a + below(b - a + 1);
  }
}

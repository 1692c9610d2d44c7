package w;

import sim.Sim;

/** Base of the workloads: parameters, plan steps, thread bookkeeping. */
public abstract class W {
  static String[] args;
  static Rng rng;
  static boolean[] skip = new boolean[4096];

  static String param(String name, String def) {
    String p = name + "=";
    for (int i = 0; i < args.length; ++i)
      if (args[i].startsWith(p)) return args[i].substring(p.length());
    return def;
  }
  static int param(String name, int def) {
    String v = param(name, null);
    return v == null ? def : Integer.parseInt(v);
  }
  /** plan steps that the minimiser removed */
  static boolean skipped(int step) {
    return step < skip.length && skip[step];
  }
  private static int nextStep;
  static int step() {
    return nextStep++;
  }
  /** number of plan steps drawn so far: tells the minimiser what it may remove */
  static int steps() {
    return nextStep;
  }

  static void fail(String m) {
    Sim.fail(m);
  }
  static void check(boolean ok, String m) {
    if (!ok) Sim.fail(m);
  }
  static String describe(Throwable e) {
    return e.getClass().getName() + (e.getMessage() == null ? "" : ": " + e.getMessage());
  }

  /** a thread whose unexpected exceptions are violations */
  public static abstract class T extends Thread {
    public volatile boolean finished;
    public final int me;
    public T(int me) {
      super("t" + me);
      this.me = me;
    }
    public abstract void go() throws Exception;
    public void run() {
      try {
        go();
      } catch (Throwable e) {
        StringBuilder sb = new StringBuilder("unexpected ");
        sb.append(describe(e));
        StackTraceElement[] st = e.getStackTrace();
        for (int i = 0; st != null && i < st.length && i < 6; ++i)
          sb.append(" at ").append(st[i].getClassName()).append(".").append(st[i].getMethodName());
        Sim.fail(sb.toString());
      }
      finished = true;
    }
  }

  static void startAll(Thread[] ts) {
    for (int i = 0; i < ts.length; ++i) if (ts[i] != null) ts[i].start();
  }
  static void joinAll(Thread[] ts) throws Exception {
    for (int i = 0; i < ts.length; ++i)
      if (ts[i] != null) {
        ts[i].join();
        if (ts[i] instanceof T && !((T) ts[i]).finished) fail("join returned before thread " + i + " finished");
      }
  }
  static void runAll(Thread[] ts) throws Exception {
    startAll(ts);
    joinAll(ts);
  }

  abstract void run() throws Exception;
  /** ends main by an exception that main's caller sees */
  static class Leave extends RuntimeException {
    Leave(String m) {
      super(m);
    }
  }
  /** set by a workload whose runs end by main returning */
  static boolean plainReturn;

  /** loads classes so that the search is not spent in class loading */
  void warm() throws Exception {}

  private static void arguments(String[] fixed, String given) {
    String[] more = given.split(" ");
    args = new String[fixed.length + more.length];
    System.arraycopy(fixed, 0, args, 0, fixed.length);
    System.arraycopy(more, 0, args, fixed.length, more.length);
    skip = new boolean[4096];
    String s = param("skip", "");
    int v = -1;
    for (int i = 0; i < s.length(); ++i) {
      char c = s.charAt(i);
      if (c >= '0' && c <= '9')
        v = (v < 0 ? 0 : v) * 10 + (c - '0');
      else {
        if (v >= 0) skip[v] = true;
        v = -1;
      }
    }
    if (v >= 0) skip[v] = true;
    rng = new Rng(param("plan", 1));
    nextStep = 0;
  }
  public static void main(String[] a) throws Exception {
    try {
      arguments(a, "plan=1 skip=1");
      W w = (W) Class.forName("w." + a[0]).newInstance();
      Sim.seq();
      Sim.tid();
      Sim.micros();
      Sim.point();
      Sim.log("boot");
      Sim.ev(0, 1, 0, 0, 0);
      w.warm();
      // runs of the workload itself: later ones find everything loaded and compiled
      for (int i = param("pre", 0); i > 0; --i) {
        arguments(a, "plan=" + (99000 + i));
        w.run();
      }
      // the runs of a workload differ from here on only
      arguments(a, Sim.args());
      Sim.begin();
      w.run();
      if (plainReturn) return;
      Sim.end();
    } catch (Leave e) {
      throw e;
    } catch (Throwable e) {
      StringBuilder sb = new StringBuilder("main thread: unexpected ");
      sb.append(describe(e));
      StackTraceElement[] st = e.getStackTrace();
      for (int i = 0; st != null && i < st.length && i < 8; ++i)
        sb.append(" at ").append(st[i].getClassName()).append(".").append(st[i].getMethodName());
      Sim.fail(sb.toString());
    }
    Sim.log("steps " + nextStep);
    Sim.done();
  }
}

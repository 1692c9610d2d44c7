package w;

import sim.Sim;

/** Mutual exclusion, reentrancy, release on every exit, ownership errors. */
public class Mon extends W {
  static class Res {
    int owner = -1;
    int depth;
    int count;
    int expected;
    int inside;

    synchronized void sync(Body b, int me, int n) throws Exception {
      enterCheck(me);
      try {
        b.inner(this, me, n);
      } finally {
        exitCheck(me);
      }
    }
    void enterCheck(int me) {
      if (depth == 0) {
        if (owner != -1) fail("thread " + me + " entered a monitor held by " + owner);
        owner = me;
      } else if (owner != me)
        fail("thread " + me + " is inside a monitor with depth " + depth + " of " + owner);
      ++depth;
    }
    void exitCheck(int me) {
      if (owner != me) fail("thread " + me + " leaves a monitor owned by " + owner);
      if (--depth == 0) owner = -1;
    }
    void work(int me) {
      int c = count;
      Sim.point();
      if (owner != me) fail("exclusion lost: " + me + " inside with owner " + owner);
      count = c + 1;
    }
  }
  static class Boom extends RuntimeException {}
  static int sOwner = -1, sDepth, sCount;
  static synchronized void staticSync(int me, int n) {
    if (sDepth == 0) {
      if (sOwner != -1) fail("thread " + me + " entered a static monitor held by " + sOwner);
      sOwner = me;
    } else if (sOwner != me)
      fail("thread " + me + " is inside a static monitor of " + sOwner);
    ++sDepth;
    try {
      int c = sCount;
      Sim.point();
      sCount = c + 1;
      if (n > 0) staticSync(me, n - 1);
    } finally {
      if (--sDepth == 0) sOwner = -1;
    }
  }

  static class Body {
    final Res[] rs;
    final int[] op, arg;
    int pc;
    Body(Res[] rs, int[] op, int[] arg) {
      this.rs = rs;
      this.op = op;
      this.arg = arg;
    }
    void inner(Res r, int me, int n) throws Exception {
      r.work(me);
      switch (n % 11) {
      case 1: // reenter
        synchronized (r) {
          r.enterCheck(me);
          r.work(me);
          r.exitCheck(me);
        }
        break;
      case 2: // reenter through a method, twice
        r.sync(this, me, n / 11 % 3 == 0 ? 1 : 0);
        break;
      case 3: { // leave by an exception, the outer frame still holds it
        try {
          synchronized (r) {
            r.enterCheck(me);
            try {
              r.work(me);
              throw new Boom();
            } finally {
              r.exitCheck(me);
            }
          }
        } catch (Boom e) {
        }
        r.work(me);
        break;
      }
      case 4: // leave the outermost frame by an exception
        throw new Boom();
      case 5:
        Thread.yield();
        r.work(me);
        break;
      case 6:
        Thread.sleep(1);
        r.work(me);
        break;
      case 7: { // a null dereference inside
        try {
          synchronized (r) {
            r.enterCheck(me);
            try {
              Object o = n > 1000000 ? "" : null;
              o.hashCode();
              fail("no NullPointerException");
            } finally {
              r.exitCheck(me);
            }
          }
        } catch (NullPointerException e) {
        }
        r.work(me);
        break;
      }
      case 8: { // garbage
        byte[][] b = new byte[8][];
        for (int i = 0; i < 8; ++i) b[i] = new byte[200];
        r.work(me);
        break;
      }
      case 9: // release and reacquire completely in a timed wait
        int d = r.depth, o = r.owner;
        r.depth = 0;
        r.owner = -1;
        r.wait(1 + n % 3);
        if (r.owner != -1) fail("wait returned in thread " + me + " while the monitor belongs to " + r.owner);
        r.owner = o;
        r.depth = d;
        r.work(me);
        break;
      case 10: // depth beyond a byte
        deep(r, me, 300);
        break;
      }
    }
    void deep(Res r, int me, int n) {
      synchronized (r) {
        if (r.owner != me) fail("deep reentry lost exclusion");
        if (n > 0) deep(r, me, n - 1);
      }
      if (r.owner != me) fail("a nested exit released the monitor: owner " + r.owner + " at level " + n);
    }
  }

  static void illegal(Object o, int which) {
    try {
      if (which == 0)
        o.notify();
      else if (which == 1)
        o.notifyAll();
      else
        o.wait(1);
      fail("no IllegalMonitorStateException for operation " + which);
    } catch (IllegalMonitorStateException e) {
    } catch (InterruptedException e) {
      fail("InterruptedException instead of IllegalMonitorStateException");
    }
  }

  static int work(int n) {
    n %= 11;
    return n == 1 || n == 3 || n == 5 || n == 6 || n == 7 || n == 8 || n == 9 ? (n == 3 || n == 7 || n == 1 ? 2 : 2) : 1;
  }

  void run() throws Exception {
    final int threads = rng.between(2, 4);
    final int rounds = rng.between(1, 3);
    int statics = 0;
    sCount = 0;
    for (int round = 0; round < rounds; ++round) {
      final int nres = rng.between(1, 3);
      final Res[] rs = new Res[nres];
      for (int i = 0; i < nres; ++i) rs[i] = new Res();
      final int[][] kind = new int[threads][], res = new int[threads][], arg = new int[threads][], res2 = new int[threads][];
      for (int t = 0; t < threads; ++t) {
        int n = rng.between(1, 5);
        kind[t] = new int[n];
        res[t] = new int[n];
        arg[t] = new int[n];
        res2[t] = new int[n];
        for (int i = 0; i < n; ++i) {
          int k = rng.below(8);
          int a = rng.below(1000), r = rng.below(nres), r2 = rng.below(nres);
          if (skipped(step())) k = -1;
          kind[t][i] = k;
          arg[t][i] = a;
          res[t][i] = Math.min(r, r2);
          res2[t][i] = Math.max(r, r2);
        }
      }
      T[] ts = new T[threads];
      final int[] stat = new int[threads];
      final int[][] done = new int[threads][nres];
      for (int t = 0; t < threads; ++t)
        ts[t] = new T(t) {
          public void go() throws Exception {
            Body b = new Body(rs, null, null);
            for (int i = 0; i < kind[me].length; ++i) {
              Res r = rs[res[me][i]], r2 = rs[res2[me][i]];
              int a = arg[me][i];
              switch (kind[me][i]) {
              case 0: case 1: // synchronized block
                try {
                  synchronized (r) {
                    r.enterCheck(me);
                    try {
                      b.inner(r, me, a);
                    } finally {
                      r.exitCheck(me);
                    }
                  }
                } catch (Boom e) {
                }
                break;
              case 2: case 3: // synchronized method
                try {
                  r.sync(b, me, a);
                } catch (Boom e) {
                }
                break;
              case 4: // two monitors in order
                synchronized (r) {
                  r.enterCheck(me);
                  synchronized (r2) {
                    r2.enterCheck(me);
                    r.work(me);
                    r2.work(me);
                    r2.exitCheck(me);
                  }
                  r.work(me);
                  r.exitCheck(me);
                }
                break;
              case 5:
                staticSync(me, a % 3);
                break;
              case 6: // not the owner
                illegal(r, a % 3);
                break;
              case 7: { // holdsLock
                synchronized (r) {
                  r.enterCheck(me);
                  if (!Thread.holdsLock(r)) fail("holdsLock is false for the owner");
                  r.work(me);
                  r.exitCheck(me);
                }
                if (Thread.holdsLock(r)) fail("holdsLock is true after the exit");
                break;
              }
              }
            }
          }
        };
      runAll(ts);
      for (int i = 0; i < nres; ++i) {
        int want = 0;
        for (int t = 0; t < threads; ++t)
          for (int j = 0; j < kind[t].length; ++j) {
            int k = kind[t][j], a = arg[t][j];
            if (k >= 0 && k <= 3 && res[t][j] == i) {
              int n = a % 11;
              want += n == 0 || n == 4 || n == 10 ? 1 : n == 2 ? (a / 11 % 3 == 0 ? 3 : 2) : n == 3 ? 3 : 2;
            }
            if (k == 7 && res[t][j] == i) ++want;
            if (k == 4) {
              if (res[t][j] == i) want += 2;
              if (res2[t][j] == i) ++want;
            }
          }
        check(rs[i].count == want, "updates under the monitor were lost: " + rs[i].count + " of " + want);
        check(rs[i].owner == -1 && rs[i].depth == 0, "a monitor is still owned at the end");
      }
      for (int t = 0; t < threads; ++t)
        for (int j = 0; j < kind[t].length; ++j)
          if (kind[t][j] == 5) statics += arg[t][j] % 3 + 1;
      check(sCount == statics, "updates under the class monitor were lost: " + sCount + " of " + statics);
    }
  }

  void warm() throws Exception {
    Res r = new Res();
    Body b = new Body(null, null, null);
    for (int i = 0; i < 11; ++i)
      try {
        r.sync(b, 0, i);
      } catch (Boom e) {
      }
    staticSync(0, 1);
    sCount = 0;
    illegal(r, 0);
    illegal(r, 1);
    illegal(r, 2);
    Thread.holdsLock(r);
    T t = new T(9) { public void go() {} };
    t.start();
    t.join();
  }
}

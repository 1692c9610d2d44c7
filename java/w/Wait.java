package w;

import sim.Sim;

/** wait, notify, notifyAll, timed waits, interrupts. */
public class Wait extends W {
  // ---- tokens: every notify that finds a waiter hands over one token
  static class Pool {
    int tokens, taken, waiting;
    boolean over;
  }

  void tokens() throws Exception {
    final int consumers = rng.between(1, 3), producers = rng.between(1, 2);
    final int per = rng.between(1, 4);
    final boolean timed = rng.chance(30), all = rng.chance(30), nest = rng.chance(30);
    final boolean noise = rng.chance(40);
    final int total = per * producers;
    final Pool p = new Pool();
    T[] ts = new T[consumers + producers];
    for (int i = 0; i < consumers; ++i)
      ts[i] = new T(i) {
        public void go() throws Exception {
          while (true) {
            synchronized (p) {
              if (nest) {
                synchronized (p) {
                  while (p.tokens == 0 && !p.over) await(p, timed);
                }
              } else
                while (p.tokens == 0 && !p.over) await(p, timed);
              if (p.tokens == 0) return;
              int n = p.tokens;
              Sim.point();
              if (n != p.tokens) fail("exclusion lost after wait");
              --p.tokens;
              if (++p.taken == total) {
                p.over = true;
                p.notifyAll();
              }
            }
          }
        }
      };
    for (int i = 0; i < producers; ++i)
      ts[consumers + i] = new T(consumers + i) {
        public void go() throws Exception {
          for (int k = 0; k < per; ++k) {
            if (noise) Thread.yield();
            synchronized (p) {
              ++p.tokens;
              if (all)
                p.notifyAll();
              else
                p.notify();
            }
          }
        }
      };
    runAll(ts);
    check(p.taken == total, "tokens taken " + p.taken + " of " + total);
    check(p.waiting == 0, "a waiter was counted twice");
  }
  static void await(Pool p, boolean timed) throws Exception {
    ++p.waiting;
    if (timed)
      p.wait(50);
    else
      p.wait();
    --p.waiting;
  }

  // ---- a notify wakes one waiter, notifyAll all of them
  void exact() throws Exception {
    final int n = rng.between(2, 5);
    final int k = rng.between(1, n);
    final boolean all = rng.chance(40);
    final Object o = new Object();
    final int[] in = new int[1], woken = new int[1], in2 = new int[1];
    final boolean[] go = new boolean[1];
    final int[] got = new int[n];
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i)
      ts[i] = new T(i) {
        public void go() throws Exception {
          synchronized (o) {
            ++in[0];
            o.notifyAll();
            while (!go[0]) {
              o.wait();
            }
            // from here every return from wait is counted
            ++in2[0];
            o.wait();
            ++woken[0];
            ++got[me];
          }
        }
      };
    startAll(ts);
    synchronized (o) {
      while (in[0] < n) o.wait();
      go[0] = true;
      o.notifyAll();
    }
    // all of them in the second wait
    while (true) {
      synchronized (o) {
        if (in2[0] == n) break;
      }
      Thread.yield();
    }
    int before;
    synchronized (o) {
      before = woken[0];
      if (all)
        o.notifyAll();
      else
        for (int i = 0; i < k; ++i) o.notify();
    }
    int want = all ? n : Math.min(n, before + k);
    // every notified thread gets out without further help
    for (int i = 0; ; ++i) {
      int w;
      synchronized (o) {
        w = woken[0];
      }
      if (w >= want) break;
      if (i > 2000) {
        fail("only " + w + " waiters woke up, " + want + " were notified");
        break;
      }
      Thread.sleep(1);
    }
    for (int i = 0; i < 40; ++i) {
      synchronized (o) {
        o.notifyAll();
      }
      Thread.sleep(1);
      boolean live = false;
      for (int j = 0; j < n; ++j) live |= !ts[j].finished;
      if (!live) break;
    }
    joinAll(ts);
  }

  // ---- deadlines
  void timed() throws Exception {
    final int n = rng.between(1, 3);
    final boolean shared = rng.chance(40);
    final Object common = new Object();
    final boolean exact = param("exact", 0) != 0;
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i) {
      final int ms = rng.chance(20) ? rng.between(1000, 90000) : rng.between(1, 60), how = rng.below(4);
      final int slack = rng.between(0, 999999), contend = rng.chance(50) ? rng.between(1, 3) : 0;
      ts[i] = new T(i) {
        public void go() throws Exception {
          Object o = shared ? common : new Object();
          for (int k = 0; k < contend; ++k)
            synchronized (common) {
              Sim.point();
            }
          long t0, t1;
          if (how == 0) {
            t0 = Sim.micros();
            Thread.sleep(ms);
            t1 = Sim.micros();
            if (exact && t1 - t0 < ms * 1000L - 1000) fail("sleep of " + ms + " ms ended after " + (t1 - t0) + " us");
          } else if (how == 1) {
            t0 = Sim.micros();
            Thread.sleep(ms, slack);
            t1 = Sim.micros();
            if (exact && t1 - t0 < ms * 1000L - 1000) fail("sleep of " + ms + " ms and " + slack + " ns ended after " + (t1 - t0) + " us");
          } else
            synchronized (o) {
              t0 = Sim.micros();
              if (how == 2)
                o.wait(ms);
              else
                o.wait(ms, slack);
              t1 = Sim.micros();
              // a thread that had to wait for a monitor before may be woken late, which counts as a spurious wakeup
              if (exact && !shared && contend == 0 && t1 - t0 < ms * 1000L - 1000)
                fail("wait of " + ms + " ms ended after " + (t1 - t0) + " us without a notification");
            }
          if (t1 - t0 > ms * 1000L + 500000 && exact) fail("wait of " + ms + " ms ended after " + (t1 - t0) + " us");
        }
      };
    }
    runAll(ts);
  }

  // ---- interrupts
  static class Box {
    int tokens, taken, interrupted, waiting;
  }
  /** one waiter is interrupted while another one is notified: the notification is not lost */
  void handover() throws Exception {
    final int n = rng.between(2, 3);
    final Box b = new Box();
    final int kills = rng.between(1, n - 1);
    final boolean[] cancelled = new boolean[n];
    final int notifies = n - kills;
    final T[] ts = new T[n];
    for (int i = 0; i < n; ++i)
      ts[i] = new T(i) {
        public void go() throws Exception {
          synchronized (b) {
            try {
              ++b.waiting;
              while (b.tokens == 0) b.wait();
              --b.tokens;
              ++b.taken;
            } catch (InterruptedException e) {
              ++b.interrupted;
              if (Thread.currentThread().isInterrupted()) fail("interrupt status set after an InterruptedException");
              if (!cancelled[me]) fail("InterruptedException without an interrupt");
            }
          }
        }
      };
    startAll(ts);
    while (true) {
      synchronized (b) {
        if (b.waiting == n) break;
      }
      Thread.yield();
    }
    final boolean order = rng.chance(50);
    final int gap = rng.below(3);
    T killer = new T(n) {
      public void go() throws Exception {
        for (int i = 0; i < kills; ++i) {
          cancelled[i] = true;
          ts[i].interrupt();
          if (gap == 1) Thread.yield();
        }
      }
    };
    T notifier = new T(n + 1) {
      public void go() throws Exception {
        for (int i = 0; i < notifies; ++i) {
          synchronized (b) {
            ++b.tokens;
            b.notify();
          }
          if (gap == 2) Thread.yield();
        }
      }
    };
    (order ? killer : notifier).start();
    (order ? notifier : killer).start();
    killer.join();
    notifier.join();
    // a token that is there is taken without any further notification
    for (int i = 0; ; ++i) {
      boolean live = false;
      for (int j = 0; j < n; ++j) live |= !ts[j].finished;
      if (!live) break;
      synchronized (b) {
        if (b.tokens == 0) {
          ++b.tokens;
          b.notify();
          i = 0;
        }
      }
      Thread.sleep(1);
      if (i > 500) {
        fail("a notification was lost: a token is left and a thread still waits");
        break;
      }
    }
    joinAll(ts);
    check(b.taken + b.interrupted == n, "a waiter got lost");
  }

  /** interrupt status and InterruptedException */
  void interrupts() throws Exception {
    final int n = rng.between(1, 3);
    final int rounds = rng.between(1, 3);
    final T[] ts = new T[n];
    final int[] sent = new int[n], seen = new int[n];
    final Object[] lock = new Object[n];
    final int[][] how = new int[n][rounds];
    final boolean[] ready = new boolean[n];
    for (int i = 0; i < n; ++i) {
      lock[i] = new Object();
      for (int j = 0; j < rounds; ++j) how[i][j] = rng.below(6);
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int j = 0; j < rounds; ++j) {
            boolean hit = false;
            int h = how[me][j];
            synchronized (lock[me]) {
              ready[me] = true;
              lock[me].notifyAll();
            }
            while (!hit) {
              try {
                switch (h) {
                case 0:
                  synchronized (this) {
                    this.wait();
                  }
                  break;
                case 1:
                  Thread.sleep(100000);
                  break;
                case 2:
                  if (Thread.interrupted()) hit = true;
                  Thread.yield();
                  break;
                case 3:
                  if (Thread.currentThread().isInterrupted()) {
                    if (!Thread.currentThread().isInterrupted()) fail("isInterrupted cleared the status");
                    if (!Thread.interrupted()) fail("interrupted() misses the status");
                    hit = true;
                  }
                  Thread.yield();
                  break;
                case 4:
                  synchronized (this) {
                    this.wait(100000);
                  }
                  break;
                case 5: { // the status stays while the thread blocks for a monitor
                  synchronized (lock[me]) {
                    Sim.point();
                  }
                  if (Thread.currentThread().isInterrupted()) {
                    try {
                      synchronized (this) {
                        this.wait(100000);
                      }
                      fail("wait with the interrupt status set returned");
                    } catch (InterruptedException e) {
                      hit = true;
                    }
                  }
                  Thread.yield();
                  break;
                }
                }
              } catch (InterruptedException e) {
                hit = true;
                if (h == 2 || h == 3) fail("InterruptedException out of nowhere");
              }
            }
            if (Thread.interrupted()) fail("interrupt status survives its delivery (" + h + ")");
            synchronized (lock[me]) {
              ++seen[me];
              if (seen[me] > sent[me]) fail("interrupted without an interrupt");
            }
          }
        }
      };
    }
    startAll(ts);
    for (int j = 0; j < rounds; ++j)
      for (int i = 0; i < n; ++i) {
        synchronized (lock[i]) {
          while (!ready[i]) lock[i].wait();
          ready[i] = false;
          ++sent[i];
        }
        if (rng.chance(30)) Thread.yield();
        ts[i].interrupt();
      }
    joinAll(ts);
    for (int i = 0; i < n; ++i) check(seen[i] == rounds, "interrupt lost");
  }

  /** interrupt, timeout and notify at once: the monitor is held again with its depth */
  void race() throws Exception {
    final Object o = new Object();
    final int n = rng.between(1, 2);
    final boolean intr = rng.chance(70), noti = rng.chance(70);
    final int[] owner = new int[1];
    owner[0] = -1;
    final T[] ts = new T[n];
    final int[] delay = new int[8];
    for (int i = 0; i < 8; ++i) delay[i] = rng.below(5);
    for (int i = 0; i < n; ++i) {
      final int ms = rng.between(1, 6), depth = rng.between(1, 4);
      ts[i] = new T(i) {
        public void go() throws Exception {
          nest(depth);
          if (Thread.holdsLock(o)) fail("monitor held after the last exit");
        }
        void nest(int k) throws Exception {
          synchronized (o) {
            if (k > 1)
              nest(k - 1);
            else {
              try {
                o.wait(ms);
              } catch (InterruptedException e) {
                if (!intr) fail("InterruptedException without an interrupt");
              }
              if (owner[0] != -1) fail("wait returned while " + owner[0] + " owns the monitor");
              owner[0] = me;
            }
            Sim.point();
            if (owner[0] != me || !Thread.holdsLock(o)) fail("monitor not held after wait");
            if (k == depth) owner[0] = -1;
          }
        }
      };
    }
    startAll(ts);
    T other = new T(n) {
      public void go() throws Exception {
        for (int k = 0; k < 4; ++k) {
          Thread.sleep(delay[k]);
          synchronized (o) {
            if (owner[0] != -1) fail("exclusion lost: " + owner[0]);
            owner[0] = me;
            if (noti) {
              if (k % 2 == 0)
                o.notify();
              else
                o.notifyAll();
            }
            Sim.point();
            if (owner[0] != me) fail("a notified thread runs before the monitor is released");
            owner[0] = -1;
          }
        }
      }
    };
    other.start();
    if (intr)
      for (int k = 4; k < 8; ++k) {
        Thread.sleep(delay[k]);
        ts[k % n].interrupt();
      }
    other.join();
    joinAll(ts);
  }

  void run() throws Exception {
    int m = param("m", -1);
    switch (m) {
    case 0: tokens(); break;
    case 1: exact(); break;
    case 2: timed(); break;
    case 3: handover(); break;
    case 4: interrupts(); break;
    case 5: race(); break;
    default: fail("no such scenario");
    }
  }
}

package w;

import sim.Sim;
import java.util.ArrayList;

/** Thread lifecycle: start, run once, isAlive, join, uncaught exceptions, thread locals, sleep, enumeration. */
public class Life extends W {
  static void pause(int n) {
    for (int i = 0; i < n; ++i) if ((i & 3) == 3) Thread.yield(); else Sim.point();
  }

  // ---- start and join
  static class Child extends Thread {
    int runs;         // plain fields: join makes them visible
    int result;
    volatile boolean entered, leaving;
    volatile int starts;
    final int work, sleep;
    final Child[] kids;
    Child(int work, int sleep, Child[] kids) {
      this.work = work;
      this.sleep = sleep;
      this.kids = kids;
    }
    public void run() {
      entered = true;
      if (starts == 0) fail("running before start was called");
      if (Thread.currentThread() != this) fail("currentThread is not the running thread");
      if (!isAlive()) fail("a running thread is not alive");
      ++runs;
      try {
        if (sleep > 0) Thread.sleep(sleep);
        for (int i = 0; i < kids.length; ++i) {
          ++kids[i].starts;
          kids[i].start();
        }
        pause(work);
        for (int i = 0; i < kids.length; ++i) {
          kids[i].join();
          ended(kids[i], "child");
        }
      } catch (InterruptedException e) {
        fail("interrupted: nobody did");
      }
      result = 77;
      leaving = true;
    }
  }
  static void ended(Child c, String who) {
    if (c.isAlive()) fail(who + ": alive after join");
    if (!c.leaving) fail(who + ": join returned before the end of run");
    if (c.runs != 1) fail(who + ": ran " + c.runs + " times");
    if (c.result != 77) fail(who + ": result not visible after join");
    if (c.getState() != Thread.State.TERMINATED) fail(who + ": state " + c.getState());
  }
  static final Child[] none = new Child[0];
  void join() throws Exception {
    final int n = rng.between(1, 4);
    final Child[] cs = new Child[n];
    for (int i = 0; i < n; ++i) {
      int k = rng.chance(30) ? rng.between(1, 2) : 0;
      Child[] kids = k == 0 ? none : new Child[k];
      for (int j = 0; j < k; ++j) kids[j] = new Child(rng.below(6), rng.chance(20) ? 1 : 0, none);
      cs[i] = new Child(rng.below(8), rng.chance(30) ? rng.between(1, 5) : 0, kids);
    }
    final int joiners = rng.between(1, 3);
    T[] ts = new T[joiners];
    for (int j = 0; j < joiners; ++j) {
      final int[] order = new int[n];
      final int[] how = new int[n];
      for (int i = 0; i < n; ++i) {
        order[i] = rng.below(n);
        how[i] = skipped(step()) ? -1 : rng.below(8);
      }
      ts[j] = new T(j) {
        public void go() throws Exception {
          for (int i = 0; i < n; ++i) {
            Child c = cs[order[i]];
            switch (how[i]) {
            case 0:
            case 1:
              while (!c.entered) Thread.sleep(1);
              c.join();
              ended(c, "join");
              break;
            case 2:
              while (!c.entered) Thread.sleep(1);
              do {
                c.join(2);
              } while (c.isAlive());
              ended(c, "timed join");
              break;
            case 3:
              while (!c.entered) Thread.sleep(1);
              while (c.isAlive()) Thread.yield();
              ended(c, "isAlive");
              break;
            case 4:
              while (!c.entered) Thread.sleep(1);
              c.join(0);
              ended(c, "join(0)");
              break;
            case 5: {
              // a long time-out: the thread ends first, whatever else happens to its monitor
              while (!c.entered) Thread.sleep(1);
              long t0 = Sim.micros();
              c.join(100000);
              if (Sim.micros() - t0 < 90000000L) ended(c, "join with a long time-out");
              break;
            }
            case 6:
              synchronized (c) {
                c.notifyAll();
              }
              break;
            case 7:
              synchronized (c) {
                c.notify();
                pause(2);
              }
              break;
            }
          }
        }
      };
    }
    startAll(ts);
    final int nudges = rng.below(4);
    for (int i = 0; i < n; ++i) {
      Child c = cs[i];
      if (c.isAlive() || c.getState() != Thread.State.NEW) fail("alive before start");
      ++c.starts;
      c.start();
      if (!c.leaving && !c.isAlive() && !c.leaving) fail("not alive after start");
    }
    for (int k = 0; k < nudges; ++k) {
      // notifications of the thread object do not concern join
      for (int i = 0; i < n; ++i) synchronized (cs[i]) { cs[i].notifyAll(); }
      pause(3);
    }
    if (rng.chance(50)) joinAll(ts);
    for (int i = 0; i < n; ++i) {
      cs[i].join();
      ended(cs[i], "main");
      try {
        cs[i].start();
        fail("a finished thread started again");
      } catch (IllegalStateException e) {
      }
    }
    joinAll(ts);
    for (int i = 0; i < n; ++i) if (cs[i].runs != 1) fail("ran " + cs[i].runs + " times in the end");
  }

  // ---- several threads start the same thread: one succeeds
  void startRace() throws Exception {
    final int n = rng.between(2, 4);
    final Child c = new Child(rng.below(6), rng.chance(30) ? 1 : 0, none);
    c.starts = 1;
    final int[] ok = new int[n];
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i)
      ts[i] = new T(i) {
        public void go() throws Exception {
          try {
            c.start();
            ok[me] = 1;
          } catch (IllegalStateException e) {
          }
          c.join();
          ended(c, "racing starter");
        }
      };
    runAll(ts);
    int s = 0;
    for (int i = 0; i < n; ++i) s += ok[i];
    check(s == 1, s + " calls of start succeeded");
    ended(c, "race");
  }

  // ---- uncaught exceptions
  static class Boom extends RuntimeException {
    final int id;
    Boom(int id) { super("boom " + id); this.id = id; }
  }
  static class Handler implements Thread.UncaughtExceptionHandler {
    final int[] calls;
    final Thread[] who;
    final int work;
    Handler(int n, int work) {
      calls = new int[n];
      who = new Thread[n];
      this.work = work;
    }
    public void uncaughtException(Thread t, Throwable e) {
      if (Thread.currentThread() != t) fail("handler called in another thread");
      if (!t.isAlive()) fail("handler called for a dead thread");
      if (!(e instanceof Boom)) {
        fail("handler got " + describe(e));
        return;
      }
      int id = ((Boom) e).id;
      pause(work);
      ++calls[id];
      who[id] = t;
    }
  }
  void uncaught() throws Exception {
    final int n = rng.between(2, 5);
    Handler own = new Handler(n, rng.below(4)), def = new Handler(n, rng.below(4));
    boolean useDef = rng.chance(70);
    if (useDef) Thread.setDefaultUncaughtExceptionHandler(def);
    final int[] kind = new int[n];
    Thread[] ts = new Thread[n];
    for (int i = 0; i < n; ++i) {
      final int id = i, work = rng.below(6);
      kind[i] = rng.below(3);  // 0 no exception, 1 own handler, 2 default handler
      final boolean deep = rng.chance(50);
      if (kind[i] == 2 && !useDef) kind[i] = 1;
      ts[i] = new Thread(new Runnable() {
        public void run() {
          pause(work);
          if (kind[id] != 0) {
            if (deep) nested(id, 3); else throw new Boom(id);
          }
        }
      }, "u" + i);
      if (kind[i] == 1) ts[i].setUncaughtExceptionHandler(own);
    }
    startAll(ts);
    for (int i = n - 1; i >= 0; --i) {
      ts[i].join();
      int a = own.calls[i], b = def.calls[i];
      check(a == (kind[i] == 1 ? 1 : 0), "own handler called " + a + " times for kind " + kind[i]);
      check(b == (kind[i] == 2 ? 1 : 0), "default handler called " + b + " times for kind " + kind[i]);
      check(!ts[i].isAlive(), "alive after an uncaught exception");
      Thread w = kind[i] == 1 ? own.who[i] : def.who[i];
      check(kind[i] == 0 || w == ts[i], "handler saw another thread");
    }
    Thread.setDefaultUncaughtExceptionHandler(null);
  }
  static Object theLock = new Object();
  static void nested(int id, int d) {
    synchronized (theLock) {
      try {
        if (d == 0) throw new Boom(id);
        nested(id, d - 1);
      } finally {
        Sim.point();
      }
    }
  }

  // ---- thread locals
  static int inits;
  void locals() throws Exception {
    final int n = rng.between(2, 4), rounds = rng.between(1, 6);
    final int[] initial = new int[n + 2];
    final ThreadLocal<Integer> a = new ThreadLocal<Integer>() {
      protected Integer initialValue() {
        Thread t = Thread.currentThread();
        if (t instanceof T) {
          synchronized (initial) { ++initial[((T) t).me]; }
          return new Integer(1000 + ((T) t).me);
        }
        return new Integer(-1);
      }
    };
    final ThreadLocal<String> b = new ThreadLocal<String>();
    final InheritableThreadLocal<Integer> inh = new InheritableThreadLocal<Integer>() {
      protected Integer childValue(Integer p) {
        return new Integer(p.intValue() + 1);
      }
    };
    final InheritableThreadLocal<Integer> nul = new InheritableThreadLocal<Integer>() {
      protected Integer initialValue() { return new Integer(7); }
      protected Integer childValue(Integer p) {
        return p == null ? new Integer(8) : null;
      }
    };
    if (nul.get() != 7) fail("initial value " + nul.get());
    nul.set(null);
    if (nul.get() != null) fail("thread local set to null gave " + nul.get());
    inh.set(new Integer(50));
    b.set("main");
    final int[] ops = new int[n * rounds];
    for (int i = 0; i < ops.length; ++i) ops[i] = skipped(step()) ? -1 : rng.below(6);
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i)
      ts[i] = new T(i) {
        public void go() throws Exception {
          int mine = 1000 + me;
          int inits = 1;
          String s = null;
          if (inh.get().intValue() != 51) fail("inherited value " + inh.get());
          if (nul.get() == null || nul.get().intValue() != 8) fail("inherited value for null is " + nul.get());
          for (int r = 0; r < rounds; ++r) {
            switch (ops[me * rounds + r]) {
            case 0:
              mine = me * 100 + r;
              if (r == 0) inits = 0;
              a.set(new Integer(mine));
              break;
            case 1:
              s = "s" + me + r;
              b.set(s);
              break;
            case 2:
              b.set(null);
              s = null;
              break;
            case 3:
              inh.set(new Integer(me));
              T kid = new T(me) {
                public void go() {
                  if (nul.get() != null) fail("inherited null is " + nul.get());
                  if (inh.get().intValue() != me + 1) fail("child inherited " + inh.get() + " from " + me);
                  inh.set(new Integer(-7));
                }
              };
              kid.start();
              kid.join();
              if (inh.get().intValue() != me) fail("child changed the parent's value");
              inh.set(new Integer(51));
              break;
            case 4: {
              ThreadLocal<Object> tmp = new ThreadLocal<Object>();
              tmp.set(this);
              if (tmp.get() != this) fail("fresh thread local");
              break;
            }
            case 5: {
              byte[][] g = new byte[10][];
              for (int k = 0; k < 10; ++k) g[k] = new byte[200];
              break;
            }
            }
            Sim.point();
            if (a.get().intValue() != mine) fail("thread local " + a.get() + ", expected " + mine);
            if (r == 0 && initial[me] > 1) fail("initialValue called " + initial[me] + " times");
            String g = b.get();
            if (s == null ? g != null : !s.equals(g)) fail("thread local " + g + ", expected " + s);
          }
          if (initial[me] > 1) fail("initialValue called " + initial[me] + " times");
        }
      };
    runAll(ts);
    check("main".equals(b.get()) && inh.get().intValue() == 50, "main's thread locals changed");
  }

  // ---- many short threads; enumeration; groups
  static int born;
  void churn() throws Exception {
    final int n = rng.between(1, 3), per = rng.between(2, 12);
    final int[] count = new int[n];
    final Object mon = new Object();
    final boolean[] over = new boolean[1];
    final Object[] seen = new Object[1];
    T[] ts = new T[n + 1];
    for (int i = 0; i < n; ++i) {
      final boolean join = rng.chance(50), garbage = rng.chance(30), daemon = rng.chance(30);
      ts[i] = new T(i) {
        public void go() throws Exception {
          Thread[] kids = new Thread[per];
          for (int k = 0; k < per; ++k) {
            kids[k] = new Thread("kid") {
              public void run() {
                if (garbage) { byte[] b = new byte[5000]; b[77] = 1; }
                synchronized (mon) { ++count[me]; }
              }
            };
            if (daemon) kids[k].setDaemon(true);
            kids[k].start();
            if (join) kids[k].join();
          }
          for (int k = 0; k < per; ++k) {
            kids[k].join();
            if (kids[k].isAlive()) fail("kid alive after join");
            if (kids[k].isDaemon() != daemon) fail("daemon status");
          }
          synchronized (mon) { if (count[me] != per) fail("kids ran " + count[me] + " of " + per); }
        }
      };
    }
    ts[n] = new T(n) {
      public void go() throws Exception {
        while (!over[0]) {
          Thread[] a = new Thread[60];
          int c = Thread.enumerate(a);
          boolean me = false;
          for (int i = 0; i < c; ++i) {
            if (a[i] == null) fail("enumerate counted " + c + " threads but left entry " + i + " empty");
            if (a[i] == this) me = true;
            for (int j = 0; j < i; ++j) if (a[i] != null && a[i] == a[j]) fail("enumerate returned a thread twice");
          }
          if (!me) fail("enumerate left out the calling thread");
          int ac = Thread.activeCount();
          if (ac < 2) fail("activeCount " + ac);
          Thread.sleep(1);
        }
      }
    };
    startAll(ts);
    for (int i = 0; i < n; ++i) ts[i].join();
    over[0] = true;
    ts[n].join();
  }

  // ---- sleep
  void sleep() throws Exception {
    final boolean exact = param("exact", 0) != 0;
    final int n = rng.between(1, 3);
    T[] ts = new T[2 * n];
    for (int i = 0; i < n; ++i) {
      final int rounds = rng.between(1, 3);
      final int[] ms = new int[rounds];
      for (int r = 0; r < rounds; ++r) ms[r] = skipped(step()) ? 0 : rng.chance(30) ? rng.between(20, 500) : rng.between(1, 8);
      final boolean victim = rng.chance(50);
      final boolean[] flag = new boolean[1];
      final T sleeper = new T(i) {
        public void go() throws Exception {
          for (int r = 0; r < rounds; ++r) {
            if (ms[r] == 0) continue;
            long t0 = Sim.micros();
            try {
              Thread.sleep(ms[r]);
              long d = Sim.micros() - t0;
              if (d < ms[r] * 1000L - 1000) fail("sleep(" + ms[r] + ") returned after " + d + " us");
            } catch (InterruptedException e) {
              if (!victim) fail("sleep interrupted by nobody");
              if (Thread.currentThread().isInterrupted()) fail("status still set after InterruptedException");
              ++got;
            }
          }
          if (victim) {
            // the interrupt is not lost
            synchronized (this) { while (!flag[0]) wait0(); }
            if (Thread.interrupted()) ++got;
            if (got != 1) fail("one interrupt, seen " + got + " times");
            if (Thread.interrupted()) fail("interrupt status not cleared");
          }
        }
        int got;
        // waiting here without being disturbed by the interrupt
        void wait0() {
          try {
            wait(1);
          } catch (InterruptedException e) {
            ++got;
          }
        }
      };
      ts[i] = sleeper;
      if (victim) {
        final int delay = rng.below(5);
        ts[n + i] = new T(n + i) {
          public void go() throws Exception {
            if (delay > 0) Thread.sleep(delay);
            sleeper.interrupt();
            synchronized (sleeper) {
              flag[0] = true;
              sleeper.notifyAll();
            }
          }
        };
      }
    }
    startAll(ts);
    joinAll(ts);
  }

  // ---- the system cannot start a thread
  static class Finalized { protected void finalize() { } }
  void refused() throws Exception {
    final int n = rng.between(1, 4);
    T[] ts = new T[n];
    for (int t = 0; t < n; ++t) {
      final int k = rng.between(1, 6);
      final int[] how = new int[k], work = new int[k];
      for (int i = 0; i < k; ++i) {
        how[i] = skipped(step()) ? -1 : rng.below(6);
        work[i] = rng.below(6);
      }
      ts[t] = new T(t) {
        public void go() throws Exception {
          Child[] cs = new Child[k];
          for (int i = 0; i < k; ++i) {
            if (how[i] < 0) continue;
            final Child c = cs[i] = new Child(work[i], 0, none);
            if (how[i] == 1) c.setDaemon(true);
            if (how[i] == 5) new Finalized();
            boolean started = false;
            for (int j = 0; !started; ++j) {
              ++c.starts;
              if (j == 3) Sim.stopFaults();
              Sim.hot(true);
              try {
                c.start();
                started = true;
              } catch (RuntimeException e) {
                Sim.hot(false);
                Sim.probe("refused");
                if (e instanceof IllegalStateException || !"unable to start native thread".equals(e.getMessage())) fail("start threw " + describe(e));
                if (c.isAlive()) fail("alive, and not started");
                if (c.getState() != State.NEW) fail("not started, and " + c.getState());
                if (how[i] == 2) c.interrupt();
                if (how[i] == 3) c.join(work[i] & 1);
                pause(2);
                if (c.runs != 0 || c.entered) fail("running, and not started");
              }
              Sim.hot(false);
            }
            if (how[i] != 4) {
              c.join();
              ended(c, "started");
            }
          }
          for (int i = 0; i < k; ++i)
            if (cs[i] != null) {
              cs[i].join();
              ended(cs[i], "in the end");
            }
        }
      };
    }
    runAll(ts);
  }
  void run() throws Exception {
    switch (param("m", 0)) {
    case 0: join(); break;
    case 1: startRace(); break;
    case 2: uncaught(); break;
    case 3: locals(); break;
    case 4: churn(); break;
    case 5: sleep(); break;
    case 6: refused(); break;
    }
  }
  void warm() throws Exception {
    Thread.State.values();
    new Child(0, 0, none);
    new Boom(1);
    new IllegalStateException();
    T t = new T(0) { public void go() throws Exception { Thread.sleep(1); } };
    t.start();
    t.join();
    t.isAlive();
  }
}

package w;

import sim.Sim;

/** The end of the VM: main returns, throws or somebody calls exit; hooks, daemons and the exit status. */
public class Exit extends W {
  static final Object mon = new Object();
  static int asked, answered;
  static int next;
  static String[] said = new String[64];
  static int nsaid;

  static void say(String s) {
    System.out.println("out " + s);
    synchronized (mon) {
      Sim.log("said " + s);
    }
  }
  static void tell(String s) {
    System.out.print("out " + s + "\n");
    Sim.log("said " + s);
  }

  /** a piece of work that threads and hooks do */
  static void work(Rng r, int budget) throws Exception {
    for (int k = r.below(3); k > 0; --k) {
      switch (r.below(6)) {
      case 0:
        Thread.sleep(r.below(4));
        break;
      case 1:
        Thread.yield();
        break;
      case 2:
        synchronized (mon) {
          ++next;
          mon.notifyAll();
        }
        break;
      case 3: {
        byte[][] x = new byte[r.between(1, 20)][];
        for (int i = 0; i < x.length; ++i) x[i] = new byte[r.below(2000)];
        break;
      }
      case 4:
        if (r.chance(20)) System.gc();
        break;
      case 5:
        synchronized (mon) {
          mon.wait(r.between(1, 3));
        }
        break;
      }
    }
  }

  /** a non-daemon thread, which may leave others behind */
  static class Live extends Thread {
    final Rng r;
    final String id;
    final int depth, ask;
    final boolean boom;
    Live(Rng r, String id, int depth, int ask) {
      this.r = r;
      this.id = id;
      this.depth = depth;
      this.ask = ask;
      this.boom = r.chance(10);
    }
    public void run() {
      Sim.log("begin " + id);
      try {
        work(r, 3);
        if (ask > 0 && r.chance(70)) ask();
        if (depth >= 0 && r.chance(40)) hook(nextHook(), r.next());
        if (depth > 0 && r.chance(40)) {
          Thread t = new Live(new Rng(r.next()), id + "x", depth - 1, ask);
          // created by a thread, so as daemon as this one
          t.setDaemon(false);
          t.start();
          Sim.log("started " + id + "x");
          if (r.chance(30)) t.join();
        }
        if (r.chance(50)) say("live" + id);
      } catch (Throwable e) {
        fail("thread " + id + ": " + describe(e));
      }
      Sim.log("end " + id);
      if (boom) throw new Leave("boom " + id);
    }
  }

  /** asks a daemon something and waits for the answer */
  static void ask() throws Exception {
    synchronized (mon) {
      int me = ++asked;
      mon.notifyAll();
      while (answered < me) mon.wait();
    }
  }

  static class Daemon extends Thread {
    final int kind;
    final Rng r;
    Daemon(int kind, Rng r) {
      this.kind = kind;
      this.r = r;
      setDaemon(true);
    }
    public void run() {
      try {
        for (int k = 0;; ++k) {
          switch (kind) {
          case 0: // answers
            synchronized (mon) {
              while (answered == asked) mon.wait();
              ++answered;
              mon.notifyAll();
            }
            break;
          case 1:
            Thread.sleep(r.between(1, 3));
            break;
          case 2: {
            Object o = new Object();
            synchronized (o) {
              o.wait();
            }
            break;
          }
          case 3:
            work(r, 1);
            Thread.yield();
            if (k > 3) Thread.sleep(1);
            break;
          case 4:
            synchronized (this) { // keeps a lock for ever
              Thread.sleep(1000000000L);
            }
            break;
          case 5:
            return;
          }
        }
      } catch (Throwable e) {
        fail("daemon " + kind + ": " + describe(e));
      }
    }
  }

  static class Hook extends Thread {
    final int id;
    final Rng r;
    Hook(int id, int seed) {
      this.id = id;
      this.r = new Rng(seed);
    }
    public void run() {
      Sim.log("hook " + id);
      boolean boom = false;
      try {
        work(r, 3);
        if (id <= meeting)
          // the hooks run at the same time, so they can wait for each other
          synchronized (mon) {
            ++met;
            mon.notifyAll();
            while (met < meeting) mon.wait();
          }
        if (answers && r.chance(40)) ask();
        if (r.chance(30)) {
          Thread t = new Live(new Rng(r.next()), "9" + id, -1, 0);
          t.start();
          if (r.chance(60)) {
            t.join();
            Sim.log("joined 9" + id);
          }
        }
        if (r.chance(50)) tell("hook" + id);
        boom = r.chance(15);
      } catch (Throwable e) {
        fail("hook " + id + ": " + describe(e));
      }
      Sim.log("done " + id);
      if (boom) throw new Leave("boom");
    }
  }

  static boolean answers;
  /** how many of the first hooks meet, and have arrived */
  static int meeting, met;
  static int hooks;
  static synchronized int nextHook() {
    return ++hooks;
  }
  static void hook(int id, int seed) {
    Thread t = new Hook(id, seed);
    if (seed % 3 == 0) t.setDaemon(seed % 2 == 0);
    Runtime.getRuntime().addShutdownHook(t);
    Sim.log("reg " + id);
  }

  static class Ender extends Thread {
    final Rng r;
    final int code;
    final boolean hooks;
    Ender(Rng r, int code, boolean daemon, boolean hooks) {
      this.r = r;
      this.code = code;
      this.hooks = hooks;
      setDaemon(daemon);
    }
    public void run() {
      try {
        work(r, 3);
        if (hooks && r.chance(40)) hook(nextHook(), r.next());
      } catch (Throwable e) {
        fail("ender: " + describe(e));
      }
      end(code, r);
    }
  }

  static void end(int code, Rng r) {
    Sim.log("exit " + code);
    if (r.chance(50))
      System.exit(code);
    else
      Runtime.getRuntime().exit(code);
    fail("exit returned");
  }

  void run() throws Exception {
    Rng r = rng;
    int mode = param("mode", 0);
    Sim.log("cfg exit " + mode);
    answers = r.chance(50);
    if (answers) new Daemon(0, new Rng(r.next())).start();
    for (int i = r.below(3); i > 0; --i) new Daemon(r.between(1, 5), new Rng(r.next())).start();
    int first = r.below(4);
    if (r.chance(40)) meeting = first;
    for (int i = 0; i < first; ++i) hook(nextHook(), r.next());
    for (int i = 0, n = r.below(4); i < n; ++i) {
      Live t = new Live(new Rng(r.next()), "" + i, 2, answers ? 1 : 0);
      t.start();
      Sim.log("started " + i);
    }
    work(r, 2);
    if (r.chance(50)) say("main");
    switch (mode) {
    case 0: // returns
      break;
    case 1: // throws
      Sim.log("throws");
      throw new Leave("the end of main");
    case 2: // exits
      end(r.between(0, 5) == 0 ? -1 : r.below(120), r);
      break;
    case 3: // somebody exits while main waits
      new Ender(new Rng(r.next()), 7, r.chance(50), true).start();
      synchronized (this) {
        while (true) wait();
      }
    case 4: // a few exit
      for (int i = r.between(1, 3); i > 0; --i) new Ender(new Rng(r.next()), 10 + i, r.chance(50), i == 1).start();
      if (r.chance(50)) end(10, r);
      synchronized (this) {
        while (true) wait();
      }
    case 5: // main returns while a non-daemon thread exits
      new Ender(new Rng(r.next()), 7, false, true).start();
      break;
    }
    plainReturn = true;
  }

  void warm() throws Exception {
    rng = new Rng(5);
    answers = true;
    Thread[] d = new Thread[6];
    for (int i = 0; i < 4; ++i) new Rng(i).next();
    for (int i = 0; i < 12; ++i) work(new Rng(i * 77), 3);
    // the classes only: threads and hooks would outlive this
    new Live(new Rng(3), "0", 0, 0);
    new Hook(0, 3);
    new Daemon(5, new Rng(3)).start();
    new Ender(new Rng(3), 0, false, false);
    new Leave("");
    System.out.print("");
  }
}

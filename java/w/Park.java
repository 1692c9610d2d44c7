package w;

import sim.Sim;
import java.util.concurrent.atomic.*;
import java.util.concurrent.*;
import java.util.concurrent.locks.LockSupport;

/** park and unpark. */
public class Park extends W {
  static boolean exact;
  static long t00;

  // one token per message: flag set before unpark, waiter parks until it sees the flag
  void flags() throws Exception {
    final int pairs = rng.between(1, 3), rounds = rng.between(1, 6);
    final int how = rng.below(4);
    final T[] ts = new T[2 * pairs];
    final AtomicInteger[] given = new AtomicInteger[pairs], taken = new AtomicInteger[pairs];
    for (int i = 0; i < pairs; ++i) {
      given[i] = new AtomicInteger();
      taken[i] = new AtomicInteger();
    }
    final Object blocker = new Object();
    for (int i = 0; i < 2 * pairs; ++i)
      ts[i] = i % 2 == 0 ? new T(i) {
          public void go() throws Exception {
            AtomicInteger g = given[me / 2], k = taken[me / 2];
            for (int r = 1; r <= rounds; ++r) {
              while (g.get() < r) {
                if (how == 0) LockSupport.park();
                else if (how == 1) LockSupport.park(blocker);
                else if (how == 2) LockSupport.parkNanos(blocker, 1000000000000L);
                else LockSupport.parkUntil(System.currentTimeMillis() + 1000000000L);
              }
              k.set(r);
              LockSupport.unpark(ts[me + 1]);
            }
            if (LockSupport.getBlocker(this) != null) fail("blocker left behind");
          }
        } : new T(i) {
          public void go() throws Exception {
            AtomicInteger g = given[me / 2], k = taken[me / 2];
            for (int r = 1; r <= rounds; ++r) {
              g.set(r);
              LockSupport.unpark(ts[me - 1]);
              while (k.get() < r) LockSupport.park(blocker);
            }
          }
        };
    runAll(ts);
    if (Sim.micros() - t00 > 500000000L) fail("an unpark was lost and the parked thread waited for its time-out");
  }

  // a permit does not accumulate and is not lost: unpark before park lets exactly one park through
  void permit() throws Exception {
    final int n = rng.between(1, 5);
    final boolean gc = rng.chance(50);
    final volatileBox b = new volatileBox();
    final T t = new T(0) {
      public void go() throws Exception {
        while (b.v == 0) Thread.yield();
        LockSupport.park();        // the permit is there
        long t0 = Sim.micros();
        LockSupport.parkNanos(20000000L);
        b.took = Sim.micros() - t0;
        LockSupport.parkNanos(-1);
        LockSupport.parkNanos(0);
        LockSupport.parkUntil(0);
        LockSupport.parkUntil(System.currentTimeMillis() - 1);
      }
    };
    t.start();
    for (int i = 0; i < n; ++i) {
      LockSupport.unpark(t);
      if (gc) garbage(5);
    }
    LockSupport.unpark(null);
    b.v = 1;
    t.join();
    if (exact && b.took < 20000 - 999) fail("unpark was called before, and the second park returned after " + b.took + " us of 20 ms");
  }
  static class volatileBox {
    volatile int v;
    volatile long took;
  }
  static void garbage(int n) {
    byte[][] g = new byte[n][];
    for (int i = 0; i < n; ++i) g[i] = new byte[100 + i];
  }

  // interrupts end a park and stay set
  void interrupts() throws Exception {
    final int n = rng.between(1, 4);
    final int[] how = new int[n];
    final T[] ts = new T[n];
    for (int i = 0; i < n; ++i) {
      how[i] = rng.below(3);
      ts[i] = new T(i) {
        public void go() throws Exception {
          while (!isInterrupted()) {
            if (how[me] == 0) LockSupport.park();
            else if (how[me] == 1) LockSupport.parkNanos(1000000000000L);
            else LockSupport.park(this);
          }
          LockSupport.park();  // returns at once
          LockSupport.park(this);
          if (!isInterrupted()) fail("park cleared the interrupt status");
          if (!Thread.interrupted()) fail("no interrupt status");
          if (isInterrupted()) fail("interrupted() left the status set");
          try {
            Thread.sleep(1);
          } catch (InterruptedException e) {
            fail("interrupted twice");
          }
        }
      };
    }
    startAll(ts);
    final boolean noise = rng.chance(50);
    for (int i = 0; i < n; ++i) {
      if (noise) LockSupport.unpark(ts[i]);
      if (rng.chance(50)) Thread.yield();
      ts[i].interrupt();
    }
    joinAll(ts);
    if (Sim.micros() - t00 > 500000000L) fail("an interrupt was lost and the parked thread waited for its time-out");
  }

  // time-outs: no earlier than asked without an unpark, and an end
  void timed() throws Exception {
    final int n = rng.between(1, 3);
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i) {
      final int ms = rng.between(1, 20);
      final boolean abs = rng.chance(50);
      final int rounds = rng.between(1, 4);
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int r = 0; r < rounds; ++r) {
            long t0 = Sim.micros();
            long d = System.currentTimeMillis() + ms;
            if (abs) LockSupport.parkUntil(d);
            else LockSupport.parkNanos(ms * 1000000L);
            long dt = Sim.micros() - t0;
            if (exact && dt < ms * 1000 - 1001) fail("parked " + dt + " us of " + ms + " ms");
          }
        }
      };
    }
    runAll(ts);
  }

  // the first-in-first-out lock of the LockSupport documentation
  static class FIFOMutex {
    final AtomicBoolean locked = new AtomicBoolean(false);
    final ConcurrentLinkedQueue<Thread> waiters = new ConcurrentLinkedQueue<Thread>();
    void lock() {
      boolean was = false;
      Thread me = Thread.currentThread();
      waiters.add(me);
      while (waiters.peek() != me || !locked.compareAndSet(false, true)) {
        LockSupport.park(this);
        if (Thread.interrupted()) was = true;
      }
      waiters.poll();
      if (was) me.interrupt();
    }
    void unlock() {
      locked.set(false);
      LockSupport.unpark(waiters.peek());
    }
  }
  static int inside, count;
  void mutex() throws Exception {
    final FIFOMutex m = new FIFOMutex();
    final int n = rng.between(2, 4), rounds = rng.between(1, 6);
    T[] ts = new T[n];
    inside = count = 0;
    for (int i = 0; i < n; ++i)
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int r = 0; r < rounds; ++r) {
            m.lock();
            if (++inside != 1) fail("two threads hold the lock");
            Sim.point();
            ++count;
            --inside;
            m.unlock();
          }
        }
      };
    startAll(ts);
    if (rng.chance(40)) for (int i = 0; i < n; ++i) ts[i].interrupt();
    joinAll(ts);
    if (count != n * rounds) fail("count " + count);
  }

  // a thread that is not started yet or has ended
  void strangers() throws Exception {
    T t = new T(0) {
      public void go() {}
    };
    LockSupport.unpark(t);
    final T u = new T(1) {
      public void go() {
        LockSupport.parkNanos(3000000L);
      }
    };
    u.start();
    for (int i = 0; i < 5; ++i) {
      LockSupport.unpark(u);
      garbage(4);
    }
    u.join();
    LockSupport.unpark(u);
    LockSupport.getBlocker(u);
    t.start();
    LockSupport.unpark(t);
    t.join();
  }

  void warm() throws Exception {
    exact = param("exact", 0) != 0;
    LockSupport.unpark(Thread.currentThread());
    LockSupport.park();
    LockSupport.parkNanos(1000);
    LockSupport.getBlocker(Thread.currentThread());
    FIFOMutex m = new FIFOMutex();
    m.lock();
    m.unlock();
  }
  void run() throws Exception {
    t00 = Sim.micros();
    switch (param("m", 0)) {
    case 0: flags(); break;
    case 1: permit(); break;
    case 2: interrupts(); break;
    case 3: timed(); break;
    case 4: mutex(); break;
    case 5: strangers(); break;
    }
  }
}

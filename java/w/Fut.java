package w;

import sim.Sim;
import java.util.*;
import java.util.concurrent.*;

/** FutureTask and ExecutorCompletionService. */
public class Fut extends LinW {
  static class Boom extends Exception {
    Boom() { super("boom"); }
  }
  static volatile int calls, dones, running;
  static final Object mon = new Object();
  static int kind;
  static boolean exact;
  static FutureTask<Integer> f;
  static final Boom boom = new Boom();

  static class Task implements Callable<Integer> {
    public Integer call() throws Exception {
      synchronized (mon) {
        ++calls;
        if (calls > 1) fail("the task is run " + calls + " times");
      }
      switch (kind) {
      case 0: return 42;
      case 1: Sim.point(); Thread.yield(); return 42;
      case 2: throw boom;
      case 3: Thread.sleep(5); return 42;
      case 4:
        synchronized (mon) {
          mon.wait(3);
        }
        return 42;
      case 5:
        try {
          Thread.sleep(5);
        } catch (InterruptedException e) {
          // goes on regardless
        }
        Thread.yield();
        return 42;
      case 6: throw new Error("error");
      default: return null;
      }
    }
  }
  static class FT extends FutureTask<Integer> {
    FT(Callable<Integer> c) { super(c); }
    protected void done() {
      synchronized (mon) {
        if (++dones > 1) fail("done is called " + dones + " times");
      }
      if (!isDone()) fail("done is called before the task is done");
    }
  }

  // 0 get, 1 get(a ms), 2 cancel(true), 3 cancel(false), 4 isDone, 5 isCancelled, 6 run, 7 get(a us)
  long apply(int me, int op, long a, long b) throws Exception {
    long t0 = Sim.micros();
    try {
      switch (op) {
      case 0: return value(f.get());
      case 1: return value(f.get(a, TimeUnit.MILLISECONDS));
      case 2: return f.cancel(true) ? 1 : 0;
      case 3: return f.cancel(false) ? 1 : 0;
      case 4: return f.isDone() ? 1 : 0;
      case 5: return f.isCancelled() ? 1 : 0;
      case 6:
        f.run();
        if (Thread.currentThread().isInterrupted()) fail("the interrupt of a cancellation is left behind");
        return 0;
      }
    } catch (CancellationException e) {
      return -1;
    } catch (ExecutionException e) {
      if (kind == 2 ? e.getCause() != boom : kind == 6 ? !"error".equals(e.getCause().getMessage())
          : !(e.getCause() instanceof InterruptedException))
        fail("the task failed with " + e.getCause());
      return -2;
    } catch (TimeoutException e) {
      if (exact && Sim.micros() - t0 < a * 1000 - 999) fail("get gave up after " + (Sim.micros() - t0) + " us of " + a + " ms");
      return -3;
    }
    throw new IllegalStateException();
  }
  static long value(Integer i) {
    if (kind == 7 ? i != null : i == null || i.intValue() != 42) fail("the task gives " + i);
    return 42;
  }
  int[] roles;
  long[] op(int t, int k) {
    int[] w;
    if (t < roles.length && roles[t] == 1 && k == 0)
      w = new int[] {6};
    else if (t < roles.length && roles[t] == 2)
      w = new int[] {2, 2, 3, 4, 5};
    else
      w = new int[] {0, 1, 1, 4, 5};
    int o = w[rng.below(w.length)];
    return o(o, o == 1 ? (rng.chance(20) ? 0 : rng.between(1, 8)) : 0, 0);
  }
  void one() throws Exception {
    kind = rng.below(8);
    int n = rng.between(2, 4);
    roles = new int[n];
    roles[0] = 1;
    if (rng.chance(25) && n > 2) roles[n - 1] = 1;
    if (rng.chance(70)) roles[1] = 2;
    calls = dones = 0;
    if (kind == 7 && rng.chance(50)) {
      final Task t = new Task();
      f = new FutureTask<Integer>(new Runnable() {
          public void run() {
            try {
              t.call();
            } catch (Exception e) {
              throw new RuntimeException(e);
            }
          }
        }, null) {
        protected void done() {
          synchronized (mon) { if (++dones > 1) fail("done is called " + dones + " times"); }
        }
      };
    } else
      f = new FT(new Task());
    long[][][] ops = plan(n, 1, 5);
    runAll(threads(ops));
    // whatever happened: it can be run now, and then it is done
    record(n, 6, 0, 0);
    record(n, 4, 0, 0);
    record(n, 5, 0, 0);
    record(n, 0, 0, 0);
    record(n, 1, 0, 0);
    record(n, 2, 0, 0);
    record(n, 0, 0, 0);
    if (dones != 1) fail("done was called " + dones + " times");
    Sim.log("cfg future " + calls);
  }

  // ---- completion service
  static class Pool implements Executor {
    final LinkedBlockingQueue<Runnable> q = new LinkedBlockingQueue<Runnable>();
    final Runnable stop = new Runnable() { public void run() {} };
    public void execute(Runnable r) {
      q.add(r);
    }
  }
  void completion() throws Exception {
    final int workers = rng.between(1, 3), submitters = rng.between(1, 2), per = rng.between(1, 5);
    final int total = submitters * per;
    final boolean threadEach = rng.chance(30);
    final Pool pool = new Pool();
    final List<Thread> extra = Collections.synchronizedList(new ArrayList<Thread>());
    final Executor ex = threadEach ? new Executor() {
        public void execute(Runnable r) {
          Thread t = new Thread(r);
          extra.add(t);
          t.start();
        }
      } : pool;
    final ExecutorCompletionService<Integer> cs = new ExecutorCompletionService<Integer>(ex);
    final int[] ran = new int[total];
    final Future[] fs = new Future[total];
    T[] ts = new T[workers + submitters];
    for (int i = 0; i < workers; ++i)
      ts[i] = new T(i) {
        public void go() throws Exception {
          while (true) {
            Runnable r = pool.q.take();
            if (r == pool.stop) return;
            r.run();
          }
        }
      };
    for (int i = 0; i < submitters; ++i)
      ts[workers + i] = new T(workers + i) {
        public void go() throws Exception {
          for (int k = 0; k < per; ++k) {
            final int id = (me - workers) * per + k;
            if (id % 3 == 2)
              fs[id] = cs.submit(new Runnable() {
                  public void run() {
                    synchronized (ran) { ++ran[id]; }
                  }
                }, id);
            else
              fs[id] = cs.submit(new Callable<Integer>() {
                  public Integer call() throws Exception {
                    synchronized (ran) { ++ran[id]; }
                    if (id % 3 == 1) throw boom;
                    return id;
                  }
                });
          }
        }
      };
    startAll(ts);
    Set<Future<Integer>> got = new HashSet<Future<Integer>>();
    int how = rng.below(3);
    for (int k = 0; k < total; ) {
      Future<Integer> x = how == 0 ? cs.take() : how == 1 ? cs.poll(5, TimeUnit.MILLISECONDS) : cs.poll();
      if (x == null) {
        Thread.yield();
        if (how == 2) Thread.sleep(1);
        continue;
      }
      ++k;
      if (!x.isDone()) fail("a completed future is not done");
      if (!got.add(x)) fail("a future completes twice");
      try {
        x.get(0, TimeUnit.SECONDS);
      } catch (ExecutionException e) {
        if (e.getCause() != boom) fail("a task failed with " + e.getCause());
      }
    }
    for (int i = 0; i < workers; ++i) pool.q.add(pool.stop);
    joinAll(ts);
    for (int i = 0; i < extra.size(); ++i) extra.get(i).join();
    if (cs.poll() != null) fail("more futures complete than were submitted");
    for (int i = 0; i < total; ++i) {
      if (ran[i] != 1) fail("task " + i + " ran " + ran[i] + " times");
      if (!got.contains(fs[i])) fail("the future of task " + i + " is missing");
      Object v;
      try {
        v = fs[i].get();
      } catch (ExecutionException e) {
        v = null;
      }
      if (i % 3 == 1 ? v != null : v == null || ((Integer) v).intValue() != i) fail("task " + i + " gives " + v);
    }
  }

  void warm() throws Exception {
    exact = param("exact", 0) != 0;
    kind = 0;
    for (int o = 0; o < 7; ++o) {
      f = new FT(new Task());
      calls = dones = 0;
      f.run();
      apply(0, o, 5, 0);
    }
    f = new FT(new Task());
    calls = dones = 0;
    f.cancel(true);
    apply(0, 0, 0, 0);
    kind = 2;
    f = new FT(new Task());
    calls = dones = 0;
    f.run();
    apply(0, 0, 0, 0);
    f = new FT(new Task());
    calls = dones = 0;
    apply(0, 1, 1, 0);
  }
  void run() throws Exception {
    if (param("m", 0) == 0)
      one();
    else
      completion();
  }
}

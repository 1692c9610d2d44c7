package w;

import sim.Sim;
import java.util.*;
import java.util.concurrent.*;

/** ConcurrentLinkedQueue and LinkedBlockingQueue. Elements are numbers 1..62 wrapped in objects. */
public class Queue extends LinW {
  static class E {
    final int v;
    E(int v) { this.v = v; }
    public int hashCode() { return v; }
    public boolean equals(Object o) { return o instanceof E && ((E) o).v == v; }
  }
  static E e(long v) { return new E((int) v); }
  static long id(Object x) { return x == null ? 0 : ((E) x).v; }
  static long n(boolean b) { return b ? 1 : 0; }
  static long pack(Object[] a) {
    long r = 1;
    for (int i = 0; i < a.length; ++i) r = r * 67 + id(a[i]);
    return r;
  }

  static ConcurrentLinkedQueue<E> cq;
  static LinkedBlockingQueue<E> q;
  static int capacity;
  static boolean exact;
  static T[] ts;

  // 0 offer, 1 poll, 2 peek, 3 clear (concurrent queue: polls until empty, not one step)
  // blocking: 4 put, 5 take, 6 offer(timeout b), 7 poll(timeout b), 8 drainTo, 9 drainTo(max a), 10 remove(x), 11 size,
  // 12 remainingCapacity, 13 contains, 14 addAll(two), 15 toArray, 16 clear, 17 isEmpty, 18 add, 19 element, 20 remove()
  long apply(int me, int op, long a, long b) throws Exception {
    if (cq != null)
      switch (op) {
      case 0: return n(cq.offer(e(a)));
      case 1: return id(cq.poll());
      case 2: return id(cq.peek());
      case 18: return n(cq.add(e(a)));
      default: throw new IllegalStateException();
      }
    long t0 = Sim.micros();
    try {
      switch (op) {
      case 0: return n(q.offer(e(a)));
      case 1: return id(q.poll());
      case 2: return id(q.peek());
      case 4: q.put(e(a)); return 1;
      case 5: return id(q.take());
      case 6: {
        boolean r = q.offer(e(a), b, TimeUnit.MILLISECONDS);
        if (!r && exact && Sim.micros() - t0 < b * 1000 - 999) fail("offer gave up after " + (Sim.micros() - t0) + " us of " + b + " ms");
        return n(r);
      }
      case 7: {
        E r = q.poll(b * 1000, TimeUnit.MICROSECONDS);
        if (r == null && exact && Sim.micros() - t0 < b * 1000 - 999) fail("poll gave up after " + (Sim.micros() - t0) + " us of " + b + " ms");
        return id(r);
      }
      case 8: {
        ArrayList<E> l = new ArrayList<E>();
        int k = q.drainTo(l);
        if (k != l.size()) fail("drainTo returns " + k + " for " + l.size() + " elements");
        return pack(l.toArray());
      }
      case 9: {
        ArrayList<E> l = new ArrayList<E>();
        int k = q.drainTo(l, (int) a);
        if (k != l.size()) fail("drainTo returns " + k + " for " + l.size() + " elements");
        return pack(l.toArray());
      }
      case 10: return n(q.remove(e(a)));
      case 11: return q.size();
      case 12: return q.remainingCapacity();
      case 13: return n(q.contains(e(a)));
      case 14: {
        ArrayList<E> l = new ArrayList<E>();
        l.add(e(a));
        l.add(e(b));
        try {
          return n(q.addAll(l));
        } catch (IllegalStateException x) {
          return -1;
        }
      }
      case 15: return pack(q.toArray());
      case 16: q.clear(); return 0;
      case 17: return n(q.isEmpty());
      case 18:
        try {
          return n(q.add(e(a)));
        } catch (IllegalStateException x) {
          return 0;
        }
      case 19:
        try {
          return id(q.element());
        } catch (NoSuchElementException x) {
          return 0;
        }
      case 20:
        try {
          return id(q.remove());
        } catch (NoSuchElementException x) {
          return 0;
        }
      }
    } catch (InterruptedException x) {
      if (interrupts == null || interrupts[me] == 0) fail("InterruptedException without an interrupt");
      return -2;
    }
    throw new IllegalStateException();
  }

  static volatile int[] interrupts;
  int next = 1;
  int mix;
  long[] op(int thread, int k) {
    int[] w;
    if (cq != null)
      w = new int[] {0, 1, 0, 1, 2, 18};
    else if (mix == 0)
      w = new int[] {4, 5};
    else if (mix == 1)
      w = new int[] {4, 5, 0, 1, 6, 7, 2};
    else if (mix == 2)
      w = new int[] {4, 4, 5, 6, 7, 8, 9, 14, 14, 16, 10};
    else if (mix == 4)
      // bulk operations only make room
      w = new int[] {4, 4, 4, 4, 9, 9, 8, 10, 16};
    else if (mix == 5)
      // bulk operations only bring elements
      w = new int[] {5, 5, 5, 14, 14, 0};
    else
      w = new int[] {0, 4, 5, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20};
    int o = w[rng.below(w.length)];
    if (cq == null && mix < 3 && thread < roles.length) {
      // producers and consumers
      boolean produce = roles[thread] != 0 ? roles[thread] > 0 : rng.chance(50);
      for (int i = 0; i < 10 && (produce ? o == 5 || o == 7 || o == 1 : o == 4 || o == 6 || o == 0); ++i)
        o = w[rng.below(w.length)];
    }
    long a = 0, b = 0;
    if (o == 0 || o == 4 || o == 6 || o == 18 || o == 14) {
      a = next++;
      if (o == 14) b = next++;
    }
    if (o == 6 || o == 7) b = rng.chance(15) ? 0 : rng.between(1, 8);
    if (o == 9) a = rng.between(0, 3);
    if (o == 10 || o == 13) a = rng.between(1, Math.max(2, next));
    return o(o, a, b);
  }
  int[] roles;

  void linked() throws Exception {
    cq = new ConcurrentLinkedQueue<E>();
    int n = rng.between(2, 4);
    runAll(threads(plan(n, 2, n > 3 ? 4 : 6)));
    for (int i = 0; i < next + 1; ++i) record(n, 1, 0, 0);
    if (cq.poll() != null) fail("more elements come out than went in");
  }

  // each producer's elements come out in its order, each once
  void linkedBig() throws Exception {
    cq = new ConcurrentLinkedQueue<E>();
    final int producers = rng.between(1, 3), consumers = rng.between(1, 3), per = rng.between(5, 40);
    final int total = producers * per;
    final int[] seen = new int[total];
    final java.util.concurrent.atomic.AtomicInteger left = new java.util.concurrent.atomic.AtomicInteger(total);
    T[] ts = new T[producers + consumers];
    for (int i = 0; i < producers; ++i)
      ts[i] = new T(i) {
        public void go() {
          for (int k = 0; k < per; ++k) cq.add(e(me * per + k));
        }
      };
    for (int i = 0; i < consumers; ++i)
      ts[producers + i] = new T(producers + i) {
        public void go() {
          int[] last = new int[producers];
          for (int k = 0; k < producers; ++k) last[k] = -1;
          while (left.get() > 0) {
            E x = cq.poll();
            if (x == null) {
              Thread.yield();
              continue;
            }
            left.decrementAndGet();
            if (++seen[x.v] > 1) fail("element " + x.v + " polled twice");
            int p = x.v / per;
            if (x.v <= last[p]) fail("element " + x.v + " of a producer after " + last[p]);
            last[p] = x.v;
          }
        }
      };
    runAll(ts);
    if (cq.poll() != null) fail("more elements come out than went in");
  }

  void blocking(boolean interrupt) throws Exception {
    capacity = rng.chance(60) ? rng.between(1, 3) : 1000;
    q = capacity == 1000 && rng.chance(50) ? new LinkedBlockingQueue<E>() : new LinkedBlockingQueue<E>(capacity);
    if (capacity == 1000) capacity = q.remainingCapacity();
    mix = rng.below(6);
    final int n = rng.between(2, 4);
    roles = new int[n];
    if (rng.chance(60))
      for (int i = 0; i < n; ++i) roles[i] = i % 2 == 0 ? 1 : -1;
    Sim.log("cfg queue " + capacity);
    interrupts = new int[n + 1];
    final int ni = interrupt ? rng.between(1, 3) : 0;
    final int[] who = new int[ni], delay = new int[ni];
    for (int i = 0; i < ni; ++i) {
      who[i] = skipped(step()) ? -1 : rng.below(n);
      delay[i] = rng.below(4);
    }
    ts = threads(plan(n, 2, n > 3 ? 4 : 6));
    startAll(ts);
    for (int i = 0; i < ni; ++i) {
      if (who[i] < 0) continue;
      if (delay[i] > 0) Thread.sleep(delay[i] - 1);
      ++interrupts[who[i]];
      ts[who[i]].interrupt();
    }
    // when nobody makes progress, help: but only where the blocked operations are right to block
    int still = 0, last = -1, rounds = 0;
    while (true) {
      boolean all = true;
      int op = 0;
      boolean takers = false, putters = false;
      for (int i = 0; i < n; ++i)
        if (!ts[i].finished) {
          all = false;
          int d = doing[i];
          if (d == 6) takers = true;
          if (d == 5) putters = true;
        }
      if (all) break;
      int p;
      synchronized (progressLock) {
        p = progress;
      }
      if (p != last) {
        last = p;
        still = 0;
      } else
        ++still;
      if (still < 4) {
        Thread.sleep(20);
        continue;
      }
      int size = q.size();
      if (takers && size == 0) {
        if (next > 60) fail("too many elements");
        record(n, 0, next++, 0);
        still = 0;
      } else if (putters && size >= capacity) {
        record(n, 1, 0, 0);
        still = 0;
      } else {
        if (still == 5) Sim.stopFaults();
        if (still > 60) {
          String s = "";
          for (int i = 0; i < n; ++i) if (!ts[i].finished) s += " thread " + i + " operation " + (doing[i] - 1);
          fail("no progress with " + size + " of " + capacity + " elements:" + s);
        }
        Thread.sleep(20);
      }
      if (++rounds > 2000) fail("no end");
    }
    joinAll(ts);
    record(n, 15, 0, 0);
    record(n, 11, 0, 0);
    record(n, 12, 0, 0);
    while (q.size() > 0) record(n, 1, 0, 0);
    record(n, 1, 0, 0);
  }
  void finish(int me) {
    boolean set = Thread.currentThread().isInterrupted();
    if (set && interrupts != null && interrupts[me] == 0) fail("interrupt status out of nothing");
  }

  void warm() throws Exception {
    exact = param("exact", 0) != 0;
    cq = new ConcurrentLinkedQueue<E>();
    apply(0, 0, 1, 0);
    apply(0, 18, 1, 0);
    apply(0, 1, 0, 0);
    apply(0, 2, 0, 0);
    cq.clear();
    cq = null;
    q = new LinkedBlockingQueue<E>(20);
    for (int o = 0; o < 21; ++o) {
      if (o == 3 || o == 5) continue;
      apply(0, o, 1, 2);
      if (q.size() == 0) q.add(e(3));
    }
    q.take();
    q = null;
  }
  void run() throws Exception {
    switch (param("m", 0)) {
    case 0: linked(); break;
    case 1: linkedBig(); break;
    case 2: blocking(false); break;
    case 3: blocking(true); break;
    }
  }
}

package w;

import sim.Sim;
import java.lang.ref.*;
import java.util.WeakHashMap;

/** Weak, soft and phantom references, reference queues, finalizers, weak maps. */
public class Refs extends W {
  static class Target {
    final int id;
    int magic = 0x1234;
    Target(int id) { this.id = id; }
  }
  static void garbage(int n) {
    byte[][] g = new byte[n][];
    for (int i = 0; i < n; ++i) g[i] = new byte[50 + i * 7 % 300];
  }
  static class WR extends WeakReference<Target> {
    final int id;
    int polled;
    WR(Target t, ReferenceQueue<Target> q) { super(t, q); id = t.id; }
  }
  static class SR extends SoftReference<Target> {
    final int id;
    int polled;
    SR(Target t, ReferenceQueue<Target> q) { super(t, q); id = t.id; }
  }
  static class PR extends PhantomReference<Target> {
    final int id;
    int polled;
    PR(Target t, ReferenceQueue<Target> q) { super(t, q); id = t.id; }
  }

  // per object: a strong holder (or none) and references of all kinds
  Target[] strong;
  WR[] weak;
  SR[] soft;
  PR[] phantom;
  boolean[] dropped, explicit;
  int[] wn, sn, pn;   // how often each was polled
  int[] owner;

  static final Object lock = new Object();

  void got(Reference r) {
    int id;
    synchronized (lock) {
      if (r instanceof WR) {
        id = ((WR) r).id;
        if (++wn[id] > 1) fail("a weak reference was enqueued " + wn[id] + " times");
        if (r != weak[id]) fail("wrong weak reference in the queue");
        if (!explicit[id] && !dropped[id]) fail("weak reference to a reachable object enqueued");
      } else if (r instanceof SR) {
        id = ((SR) r).id;
        if (++sn[id] > 1) fail("a soft reference was enqueued " + sn[id] + " times");
        if (r != soft[id]) fail("wrong soft reference in the queue");
        if (!dropped[id]) fail("soft reference to a reachable object enqueued");
      } else if (r instanceof PR) {
        id = ((PR) r).id;
        if (++pn[id] > 1) fail("a phantom reference was enqueued " + pn[id] + " times");
        if (r != phantom[id]) fail("wrong phantom reference in the queue");
        if (!dropped[id]) fail("phantom reference to a reachable object enqueued");
        if (r.get() != null) fail("phantom reference has a target");
        return;
      } else {
        fail("something else in the queue: " + r);
        return;
      }
    }
    if (r.get() != null && !explicit[id]) fail("enqueued reference not cleared");
  }

  void make(int i, ReferenceQueue<Target> qw, ReferenceQueue<Target> qs, ReferenceQueue<Target> qp) {
    Target t = new Target(i);
    strong[i] = t;
    weak[i] = new WR(t, qw);
    soft[i] = new SR(t, qs);
    phantom[i] = new PR(t, qp);
  }
  boolean look(int i, int op) {
    Target s = strong[i];
    Target a = op % 2 == 0 ? weak[i].get() : soft[i].get();
    if (s != null && a == null) fail("reference to a reachable object was cleared");
    if (s != null && a != s) fail("reference gives another object");
    if (a != null && (a.id != i || a.magic != 0x1234)) fail("reference to object " + i + " gives " + a.id);
    return a != null;
  }
  void forget(int i) {
    synchronized (lock) {
      dropped[i] = true;
    }
    strong[i] = null;
  }

  void refs() throws Exception {
    final int owners = rng.between(1, 3), pollers = rng.between(1, 2), per = rng.between(2, 8);
    final int n = owners * per;
    strong = new Target[n];
    weak = new WR[n];
    soft = new SR[n];
    phantom = new PR[n];
    dropped = new boolean[n];
    explicit = new boolean[n];
    wn = new int[n];
    sn = new int[n];
    pn = new int[n];
    final boolean one = rng.chance(60);
    final ReferenceQueue qw = new ReferenceQueue(), qs = one ? qw : new ReferenceQueue(), qp = one ? qw : new ReferenceQueue();
    final boolean[] over = new boolean[1];
    final int rounds = rng.between(2, 10);
    T[] ts = new T[owners + pollers];
    for (int o = 0; o < owners; ++o) {
      final int[] ops = new int[rounds], which = new int[rounds];
      for (int r = 0; r < rounds; ++r) {
        ops[r] = skipped(step()) ? -1 : rng.below(9);
        which[r] = rng.below(per);
      }
      ts[o] = new T(o) {
        public void go() throws Exception {
          for (int k = 0; k < per; ++k) make(me * per + k, qw, qs, qp);
          for (int r = 0; r < rounds; ++r) {
            int i = me * per + which[r];
            switch (ops[r]) {
            case 0: case 1: case 2: look(i, ops[r]); break;
            case 3: case 4: case 5: forget(i); break;
            case 6: garbage(10); break;
            case 7:
              synchronized (lock) { explicit[i] = true; }
              boolean e = weak[i].enqueue();
              if (weak[i].enqueue()) fail("enqueued twice");
              break;
            case 8: System.gc(); break;
            }
            Sim.point();
            for (int k = 0; k < per; ++k) look(me * per + k, k);
          }
        }
      };
    }
    for (int p = 0; p < pollers; ++p) {
      final int wait = rng.below(3);
      ts[owners + p] = new T(owners + p) {
        public void go() throws Exception {
          while (!over[0]) {
            Reference r = qw.poll();
            if (r != null) got(r);
            if (!one) {
              r = qs.poll();
              if (r != null) got(r);
              r = qp.poll();
              if (r != null) got(r);
            }
            if (wait == 0) Thread.yield(); else Thread.sleep(wait);
          }
        }
      };
    }
    startAll(ts);
    for (int o = 0; o < owners; ++o) ts[o].join();
    over[0] = true;
    for (int p = 0; p < pollers; ++p) ts[owners + p].join();
    // everything dropped is found out by a collection, and everything is accounted for
    scrub(40);
    Sim.stopFaults();
    for (int i = 0; i < n; ++i) if (rng.chance(40)) forget(i);
    scrub(40);
    for (int k = 0; k < 3; ++k) System.gc();
    Reference r;
    while ((r = qw.poll()) != null) got(r);
    if (!one) {
      while ((r = qs.poll()) != null) got(r);
      while ((r = qp.poll()) != null) got(r);
    }
    for (int i = 0; i < n; ++i) {
      boolean alive = look(i, 0);
      if (dropped[i]) {
        check(!alive, "weak reference to a dropped object survives collections");
        check(wn[i] == 1, "weak reference to a dropped object polled " + wn[i] + " times");
        check(pn[i] == 1, "phantom reference to a dropped object polled " + pn[i] + " times");
      } else {
        check(alive, "weak reference to a held object cleared");
        check(wn[i] == (explicit[i] ? 1 : 0), "weak reference polled " + wn[i] + " times");
        check(pn[i] == 0, "phantom reference to a held object polled");
      }
    }
  }
  /** overwrite dead stack slots */
  static int scrub(int d) {
    Object a = null, b = null, c = null;
    int x = d == 0 ? 0 : scrub(d - 1);
    return a == b && b == c ? x : 1;
  }

  // ---- finalizers
  static int[] fin;
  static boolean[] gone, resurrect;
  static Fin[] saved;
  static WeakReference[] fweak;
  static int round;
  static class Fin {
    final int id;
    Object other = new Target(5);
    final int of = round;
    Fin(int id) { this.id = id; }
    protected void finalize() {
      synchronized (lock) {
        if (of != round) return;
        if (++fin[id] > 1) fail("finalized " + fin[id] + " times");
        if (!gone[id]) fail("a reachable object was finalized");
        if (other == null || ((Target) other).magic != 0x1234) fail("finalizer sees a broken object");
        if (fweak[id] != null && fweak[id].get() != null) fail("weak reference not cleared before finalization");
        if (resurrect[id]) saved[id] = this;
      }
      if ((id & 3) == 3) throw new RuntimeException("ignored");
    }
  }
  static Fin[] held;
  static void makeFin(int i) {
    Fin f = new Fin(i);
    fweak[i] = new WeakReference(f);
    held[i] = f;
  }
  static boolean isHeld(int i) {
    Fin f = held[i];
    return f != null && f.id == i && ((Target) f.other).magic == 0x1234;
  }
  void finalizers() throws Exception {
    final int n = rng.between(2, 12);
    synchronized (lock) { ++round; }
    fin = new int[n];
    gone = new boolean[n];
    resurrect = new boolean[n];
    saved = new Fin[n];
    held = new Fin[n];
    fweak = new WeakReference[n];
    final boolean[] drop = new boolean[n];
    for (int i = 0; i < n; ++i) {
      drop[i] = !skipped(step()) && rng.chance(60);
      resurrect[i] = rng.chance(30);
    }
    final int workers = rng.between(1, 2);
    T[] ts = new T[workers];
    for (int w = 0; w < workers; ++w) {
      final int g = rng.below(20);
      ts[w] = new T(w) {
        public void go() throws Exception {
          for (int i = me; i < n; i += workers) {
            makeFin(i);
            garbage(g);
            Sim.point();
          }
          for (int i = me; i < n; i += workers)
            if (drop[i]) {
              synchronized (lock) { gone[i] = true; }
              held[i] = null;
              if (g > 10) System.gc();
              Thread.yield();
            }
        }
      };
    }
    runAll(ts);
    scrub(40);
    for (int k = 0; ; ++k) {
      System.gc();
      boolean ok = true;
      synchronized (lock) {
        for (int i = 0; i < n; ++i) if (drop[i] && fin[i] == 0) ok = false;
      }
      if (ok) break;
      if (k == 30) {
        fail("objects dropped are not finalized after 30 collections");
        break;
      }
      Thread.sleep(20);
    }
    System.gc();
    for (int i = 0; i < n; ++i) {
      if (!drop[i]) check(fin[i] == 0 && isHeld(i), "held object finalized");
      else if (resurrect[i]) {
        Fin f = saved[i];
        check(f != null && f.id == i && ((Target) f.other).magic == 0x1234, "resurrected object is broken");
        saved[i] = null;
      }
    }
    scrub(40);
    for (int k = 0; k < 3; ++k) {
      System.gc();
      Thread.sleep(5);
    }
    synchronized (lock) {
      for (int i = 0; i < n; ++i) check(fin[i] == (drop[i] ? 1 : 0), "object finalized " + fin[i] + " times in the end");
    }
  }

  // ---- weak maps
  static class Key {
    final int h, id;
    Key(int h, int id) { this.h = h; this.id = id; }
    public int hashCode() { return h; }
    public boolean equals(Object o) { return o instanceof Key && ((Key) o).id == id; }
  }
  static int nextKey = 10000;
  static void fill(WeakHashMap<Key, String> m, Key[] keys, int i, int h) {
    // never equal to an earlier key, which may not have been collected yet
    int id;
    synchronized (lock) { id = ++nextKey; }
    Key k = new Key(h, id);
    keys[i] = k;
    m.put(k, "v" + i);
  }
  void weakMap() throws Exception {
    final int threads = rng.between(1, 2);
    T[] ts = new T[threads];
    for (int t = 0; t < threads; ++t) {
      final int n = rng.between(3, 25), spread = rng.between(1, 20), rounds = rng.between(2, 12);
      final int[] ops = new int[rounds], arg = new int[rounds], h = new int[n];
      for (int i = 0; i < n; ++i) h[i] = rng.below(spread);
      for (int i = 0; i < rounds; ++i) {
        ops[i] = skipped(step()) ? -1 : rng.below(6);
        arg[i] = rng.below(n);
      }
      ts[t] = new T(t) {
        public void go() throws Exception {
          WeakHashMap<Key, String> m = new WeakHashMap<Key, String>();
          Key[] keys = new Key[n];
          boolean[] in = new boolean[n];
          for (int i = 0; i < n; ++i) {
            fill(m, keys, i, h[i]);
            in[i] = true;
          }
          for (int r = 0; r < rounds; ++r) {
            int i = arg[r];
            switch (ops[r]) {
            case 0: keys[i] = null; break;
            case 1: if (keys[i] != null) { m.remove(keys[i]); in[i] = false; } break;
            case 2: if (keys[i] == null) { fill(m, keys, i, h[i]); in[i] = true; } break;
            case 3: garbage(10); System.gc(); break;
            case 4: m.put(new Key(h[i], 1000 + i), "tmp"); break;
            case 5: m.size(); break;
            }
            Sim.point();
            for (int k = 0; k < n; ++k)
              if (keys[k] != null) {
                String v = m.get(keys[k]);
                if (in[k] ? v == null || !v.equals("v" + k) : v != null)
                  fail("weak map gives " + v + " for held key " + k + (in[k] ? "" : " (removed)"));
              }
          }
          for (int k = 0; k < n; ++k) if (!in[k]) keys[k] = null;
          scrub(30);
          System.gc();
          System.gc();
          int want = 0;
          for (int k = 0; k < n; ++k) if (keys[k] != null) ++want;
          m.get(new Key(0, -1));
          if (m.size() != want) fail("weak map has " + m.size() + " entries, " + want + " keys are held");
        }
      };
    }
    runAll(ts);
  }
  void run() throws Exception {
    switch (param("m", 0)) {
    case 0: refs(); break;
    case 1: finalizers(); break;
    case 2: weakMap(); break;
    }
  }
  void warm() throws Exception {
    ReferenceQueue<Target> q = new ReferenceQueue<Target>();
    Target t = new Target(1);
    new WR(t, q).enqueue();
    new SR(t, q);
    new PR(t, q);
    q.poll();
    new WeakHashMap<Key, String>().put(new Key(1, 1), "x");
    T th = new T(0) { public void go() throws Exception { Thread.sleep(1); } };
    th.start();
    th.join();
    garbage(3);
  }
}

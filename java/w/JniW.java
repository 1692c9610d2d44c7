package w;

import java.lang.ref.WeakReference;
import java.nio.ByteBuffer;
import sim.Sim;

/** Native code (sim/jni.cpp) uses the invocation interface against a model of its own, in several threads, while collections
 *  move everything it has handles of. */
public class JniW extends W {
  /** runs steps of a script drawn from the seed; leaves what it did to os[] in the model that sum is compared with */
  static native int script(JnO[] os, int seed, int steps, int depth);
  /** the model's idea of the objects */
  static native void adopt(JnO[] os, int thread);
  static native long modelSum();
  /** says where they differ */
  static native void explain(JnO[] os);
  /** throws JnEx(h) having made and dropped handles of many objects */
  static native JnO drop(JnO[] os, int mode);
  /** a thread of native code attaches itself, runs a script, and detaches */
  static native int attached(JnO[] os, int thread, int seed, int steps, boolean daemon, int times);
  /** fills the buffer; and tells what it holds */
  static native ByteBuffer buffer(int n, int seed);
  static native int bufferSum(ByteBuffer b);
  /** called with the object locked: 1 if no other thread is in there for it */
  static native int inside(JnO o);
  static native int weakLeft(int k);
  static native void weakMake(JnO[] os);
  static native void reset();

  static JnO fresh(int id, int k) {
    return (k & 1) == 0 ? new JnO(id, k, k * 0.5) : new JnO.Sub(id, k, k * 0.5);
  }
  static JnO[] objects(int thread, Rng r) {
    JnO[] os = new JnO[6];
    for (int i = 0; i < os.length; ++i) os[i] = fresh(thread * 1000 + i + 1, r.below(1000));
    return os;
  }
  /** what a native thread is seen as from Java */
  static String whoAmI() {
    Thread t = Thread.currentThread();
    return t.isDaemon() + " " + t.isAlive() + " " + (t == Thread.currentThread());
  }
  static Thread self() {
    return Thread.currentThread();
  }
  static final Thread[] natives = new Thread[64];
  static final JnO shared = new JnO(1, 2, 3);
  static void here(int k) {
    natives[k] = Thread.currentThread();
  }

  static void job(int me, Rng r, int steps, int kind) throws Exception {
    JnO[] os = objects(me, r);
    adopt(os, me);
    JniSigs rec = new JniSigs(me + 3);
    for (int n = 0; n < steps; ++n) {
      int seed = r.next();
      int k = r.below(100);
      if (skipped(step())) continue;
      if (k < 55) {
        try {
          int got = script(os, seed, 4 + (seed >>> 4) % 20, 0);
          if (got != seed) fail("native code returned " + got + " instead of " + seed);
          if ((seed & 15) == 9) fail("the exception that native code left pending is lost");
        } catch (JnBase.JnEx e) {
          if ((seed & 15) != 9 || e.h != seed) fail("an exception of native code came out as " + e.h);
        }
        long a = JnO.sum(os), b = modelSum();
        if (a != b) explain(os);
        if (a != b) fail("the objects are not as native code left them");
      } else if (k < 75) {
        JnO[] o4 = {os[0], os[1], null, os[3]};
        JniSigs.call(seed % JniSigs.COUNT, seed ^ n, rec, o4);
      } else if (k < 90) {
        JnO[] o4 = {os[0], os[1], null, os[3]};
        JniSigs.back(seed % JniSigs.COUNT, seed ^ n, rec, o4);
      } else if (k < 93) {
        ByteBuffer b = buffer(1 + seed % 40, seed);
        int s = 0;
        for (int i = 0; i < b.capacity(); ++i) s = s * 31 + b.get(i);
        if (b.capacity() != 1 + seed % 40) fail("a direct buffer of the wrong size");
        b.put(0, (byte) seed);
        int t = 0;
        for (int i = 0; i < b.capacity(); ++i) t = t * 31 + b.get(i);
        if (bufferSum(b) != t) fail("native code does not see what the buffer holds");
      } else if (k < 97) {
        if (kind == 0) continue;
        int times = 1 + seed % 3;
        int got = attached(os, me, seed, 3 + seed % 9, (seed & 8) != 0, times);
        if (got != times) fail("a native thread attached " + got + " times of " + times);
        if (JnO.sum(os) != modelSum()) explain(os);
        if (JnO.sum(os) != modelSum()) fail("the objects are not as the native thread left them");
      } else {
        WeakReference[] ws = new WeakReference[8];
        drops(ws, me, seed);
        System.gc();
        System.gc();
        for (int i = 0; i < ws.length; ++i)
          if (ws[i].get() != null) fail("an object that only a finished native call had handles of is kept (" + i + ", mode " + (seed & 3) + ")");
      }
    }
  }
  static void drops(WeakReference[] ws, int me, int seed) {
    JnO[] xs = new JnO[ws.length];
    for (int i = 0; i < xs.length; ++i) {
      xs[i] = fresh(me * 1000 + 500 + i, seed + i);
      ws[i] = new WeakReference(xs[i]);
    }
    try {
      JnO g = drop(xs, seed & 3);
      if ((seed & 3) == 3) fail("drop did not throw");
      if (g != xs[2]) fail("drop returned another object");
    } catch (JnBase.JnEx e) {
      if ((seed & 3) != 3) fail("drop threw");
    }
  }

  void run() throws Exception {
    final int threads = rng.between(1, 4), kind = rng.below(3), steps = rng.between(4, 14);
    reset();
    T[] ts = new T[threads];
    for (int t = 0; t < threads; ++t) {
      final Rng r = new Rng(rng.next());
      ts[t] = new T(t) {
        public void go() throws Exception {
          job(me, r, steps, kind);
        }
      };
    }
    startAll(ts);
    // joins the native threads while they may still be attached
    if (kind == 1)
      for (boolean more = true; more; ) {
        more = false;
        for (int i = 0; i < threads; ++i) {
          if (!ts[i].finished) more = true;
          Thread n = natives[i];
          if (n != null) {
            n.join();
            if (n.isAlive()) fail("a thread is alive after join");
          }
        }
        Thread.sleep(1);
      }
    joinAll(ts);
    for (int i = 0; i < natives.length; ++i) {
      if (natives[i] == null) continue;
      natives[i].join();
      if (natives[i].isAlive()) fail("a detached thread is alive");
      natives[i] = null;
    }
    if (kind == 2) {
      JnO[] xs = new JnO[12];
      for (int i = 0; i < xs.length; ++i) xs[i] = fresh(9000 + i, i);
      weakMake(xs);
      for (int i = 0; i < xs.length; i += 2) xs[i] = null;
      System.gc();
      System.gc();
      for (int i = 0; i < xs.length; ++i) {
        int w = weakLeft(i);
        if (i % 2 == 0 && w != 0) fail("a weak reference to an unreachable object is not cleared (" + w + ")");
        if (i % 2 == 1 && w != 9000 + i) fail("a weak reference to a reachable object gives " + w);
      }
    }
  }
  void warm() throws Exception {
    junkAll();
  }
  static void junkAll() throws Exception {
    JnO[] os = objects(0, new Rng(1));
    adopt(os, 0);
    whoAmI();
    try {
      throw new JnBase.JnEx(1);
    } catch (JnBase.JnEx e) {
    }
    JnO.sum(os);
  }
}

package w;

import sim.Sim;

/** Class initialisation: once, by one thread, before any use; failures stick. */
public class CInit extends W {
  static final int N = 14;
  // what the initializer of class i does
  static int[] pauses = new int[N], fails = new int[N], uses = new int[N], how = new int[N];
  static int[] runs = new int[N], owner = new int[N];
  static boolean[] complete = new boolean[N];
  static int[] useSeen = new int[N];
  static Object lock = new Object();

  static class Boom extends RuntimeException {
    final int id;
    Boom(int id) { super("boom " + id); this.id = id; }
  }
  static class BoomError extends Error {
    final int id;
    BoomError(int id) { super("boom error " + id); this.id = id; }
  }

  static int init(int id) throws Boom {
    synchronized (lock) {
      if (++runs[id] != 1) fail("initializer of class " + id + " ran " + runs[id] + " times");
      owner[id] = Sim.tid();
    }
    for (int i = 0; i < pauses[id]; ++i) {
      if ((i & 1) == 0) Sim.point(); else Thread.yield();
    }
    if (how[id] == 5) {
      byte[][] g = new byte[20][];
      for (int i = 0; i < 20; ++i) g[i] = new byte[300];
    }
    // recursive requests of the initializing thread do not block and see the partial state
    if (how[id] == 1) {
      if (touch(id, 0) != 0) fail("recursive use of class " + id + " sees a finished initialization");
    }
    if (uses[id] > id && uses[id] < N) {
      int u = uses[id];
      try {
        int v = touch(u, how[id]);
        expect(u, v);
      } catch (Error e) {
        failure(u, e);
      }
    }
    if (how[id] == 4) {
      try { Thread.sleep(1); } catch (InterruptedException e) { fail("interrupted"); }
    }
    synchronized (lock) {
      complete[id] = true;
    }
    if (fails[id] == 1) throw new Boom(id);
    if (fails[id] == 2) throw new BoomError(id);
    return 1000 + id;
  }
  static void expect(int id, int v) {
    synchronized (lock) {
      if (runs[id] != 1) fail("class " + id + " used without its initializer (" + runs[id] + ")");
      if (owner[id] != Sim.tid() && !complete[id]) fail("class " + id + " used by another thread during its initialization");
      if (fails[id] != 0) fail("class " + id + " used after its initializer failed");
      if (v != 1000 + id && owner[id] != Sim.tid()) fail("class " + id + " used with static field " + v);
      if (complete[id] && owner[id] != Sim.tid() && v != 1000 + id) fail("class " + id + " static value " + v);
    }
  }
  /** an access to class id failed */
  static void failure(int id, Error e) {
    synchronized (lock) {
      int f = fails[root(id)];
      if (runs[root(id)] != 1) fail("class " + id + " failed without running its initializer: " + describe(e));
      if (f == 0) {
        fail("access to class " + id + " failed: " + describe(e));
        return;
      }
      if (e instanceof NoClassDefFoundError) return;
      ++useSeen[root(id)];
      if (useSeen[root(id)] > 1) fail("initializer failure of class " + id + " was reported twice: " + describe(e));
      if (owner[root(id)] != Sim.tid()) fail("initializer failure reported to a thread that did not run it: " + describe(e));
      if (f == 1) {
        if (!(e instanceof ExceptionInInitializerError)) fail("expected ExceptionInInitializerError: " + describe(e));
        else if (!(e.getCause() instanceof Boom) || ((Boom) e.getCause()).id != root(id)) fail("wrong cause " + e.getCause());
      } else if (!(e instanceof BoomError) || ((BoomError) e).id != root(id)) fail("expected the error of the initializer: " + describe(e));
    }
  }
  static int root(int id) { return id; }


  static class K0 {
    static int v = init(0);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K1 {
    static int v = init(1);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K2 {
    static int v = init(2);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K3 {
    static int v = init(3);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K4 {
    static int v = init(4);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K5 {
    static int v = init(5);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K6 {
    static int v = init(6);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K7 {
    static int v = init(7);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K8 {
    static int v = init(8);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K9 {
    static int v = init(9);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K10 {
    static int v = init(10);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K11 {
    static int v = init(11);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K12 {
    static int v = init(12);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  static class K13 {
    static int v = init(13);
    int f = v;
    static int get() { return v; }
    static int w;
    static long two = 2L * v;
    static Object obj = "k" + v;
  }

  // superclass chain: B extends A, C extends B; interfaces are not initialized by a subclass
  static int ctr;
  static String trace = "";
  static synchronized void mark(String s) { trace += s; }
  interface I0 { int x = imark(); int foo(); }
  static int imark() { mark("I"); return 3; }
  static class A { static { pause(); mark("A"); } static int a = 1; }
  static class B extends A implements I0 { static { pause(); mark("B"); } static int b = 2; public int foo() { return 1; } }
  static class C extends B { static { pause(); mark("C"); } static int c = 3; }
  static final class Konst { static final int K = 7; static { mark("K"); } }
  static void pause() { for (int i = 0; i < chainPause; ++i) Sim.point(); }
  static int chainPause;

  static int touch(int id, int k) {
    switch (id) {
    case 0:
      switch (k) {
      case 0: return K0.v;
      case 1: return K0.get();
      case 2: return new K0().f;
      case 3: K0.w = 5; return K0.v;
      case 4: return (int) (K0.two - K0.v);
      case 5: return K0.obj == null ? 0 : Integer.parseInt(((String) K0.obj).substring(1));
      case 6: return forName(0);
      case 7: return viaReflection(0);
      case 8: try { return ((K0) Class.forName("w.CInit$K0").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 1:
      switch (k) {
      case 0: return K1.v;
      case 1: return K1.get();
      case 2: return new K1().f;
      case 3: K1.w = 5; return K1.v;
      case 4: return (int) (K1.two - K1.v);
      case 5: return K1.obj == null ? 0 : Integer.parseInt(((String) K1.obj).substring(1));
      case 6: return forName(1);
      case 7: return viaReflection(1);
      case 8: try { return ((K1) Class.forName("w.CInit$K1").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 2:
      switch (k) {
      case 0: return K2.v;
      case 1: return K2.get();
      case 2: return new K2().f;
      case 3: K2.w = 5; return K2.v;
      case 4: return (int) (K2.two - K2.v);
      case 5: return K2.obj == null ? 0 : Integer.parseInt(((String) K2.obj).substring(1));
      case 6: return forName(2);
      case 7: return viaReflection(2);
      case 8: try { return ((K2) Class.forName("w.CInit$K2").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 3:
      switch (k) {
      case 0: return K3.v;
      case 1: return K3.get();
      case 2: return new K3().f;
      case 3: K3.w = 5; return K3.v;
      case 4: return (int) (K3.two - K3.v);
      case 5: return K3.obj == null ? 0 : Integer.parseInt(((String) K3.obj).substring(1));
      case 6: return forName(3);
      case 7: return viaReflection(3);
      case 8: try { return ((K3) Class.forName("w.CInit$K3").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 4:
      switch (k) {
      case 0: return K4.v;
      case 1: return K4.get();
      case 2: return new K4().f;
      case 3: K4.w = 5; return K4.v;
      case 4: return (int) (K4.two - K4.v);
      case 5: return K4.obj == null ? 0 : Integer.parseInt(((String) K4.obj).substring(1));
      case 6: return forName(4);
      case 7: return viaReflection(4);
      case 8: try { return ((K4) Class.forName("w.CInit$K4").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 5:
      switch (k) {
      case 0: return K5.v;
      case 1: return K5.get();
      case 2: return new K5().f;
      case 3: K5.w = 5; return K5.v;
      case 4: return (int) (K5.two - K5.v);
      case 5: return K5.obj == null ? 0 : Integer.parseInt(((String) K5.obj).substring(1));
      case 6: return forName(5);
      case 7: return viaReflection(5);
      case 8: try { return ((K5) Class.forName("w.CInit$K5").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 6:
      switch (k) {
      case 0: return K6.v;
      case 1: return K6.get();
      case 2: return new K6().f;
      case 3: K6.w = 5; return K6.v;
      case 4: return (int) (K6.two - K6.v);
      case 5: return K6.obj == null ? 0 : Integer.parseInt(((String) K6.obj).substring(1));
      case 6: return forName(6);
      case 7: return viaReflection(6);
      case 8: try { return ((K6) Class.forName("w.CInit$K6").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 7:
      switch (k) {
      case 0: return K7.v;
      case 1: return K7.get();
      case 2: return new K7().f;
      case 3: K7.w = 5; return K7.v;
      case 4: return (int) (K7.two - K7.v);
      case 5: return K7.obj == null ? 0 : Integer.parseInt(((String) K7.obj).substring(1));
      case 6: return forName(7);
      case 7: return viaReflection(7);
      case 8: try { return ((K7) Class.forName("w.CInit$K7").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 8:
      switch (k) {
      case 0: return K8.v;
      case 1: return K8.get();
      case 2: return new K8().f;
      case 3: K8.w = 5; return K8.v;
      case 4: return (int) (K8.two - K8.v);
      case 5: return K8.obj == null ? 0 : Integer.parseInt(((String) K8.obj).substring(1));
      case 6: return forName(8);
      case 7: return viaReflection(8);
      case 8: try { return ((K8) Class.forName("w.CInit$K8").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 9:
      switch (k) {
      case 0: return K9.v;
      case 1: return K9.get();
      case 2: return new K9().f;
      case 3: K9.w = 5; return K9.v;
      case 4: return (int) (K9.two - K9.v);
      case 5: return K9.obj == null ? 0 : Integer.parseInt(((String) K9.obj).substring(1));
      case 6: return forName(9);
      case 7: return viaReflection(9);
      case 8: try { return ((K9) Class.forName("w.CInit$K9").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 10:
      switch (k) {
      case 0: return K10.v;
      case 1: return K10.get();
      case 2: return new K10().f;
      case 3: K10.w = 5; return K10.v;
      case 4: return (int) (K10.two - K10.v);
      case 5: return K10.obj == null ? 0 : Integer.parseInt(((String) K10.obj).substring(1));
      case 6: return forName(10);
      case 7: return viaReflection(10);
      case 8: try { return ((K10) Class.forName("w.CInit$K10").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 11:
      switch (k) {
      case 0: return K11.v;
      case 1: return K11.get();
      case 2: return new K11().f;
      case 3: K11.w = 5; return K11.v;
      case 4: return (int) (K11.two - K11.v);
      case 5: return K11.obj == null ? 0 : Integer.parseInt(((String) K11.obj).substring(1));
      case 6: return forName(11);
      case 7: return viaReflection(11);
      case 8: try { return ((K11) Class.forName("w.CInit$K11").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 12:
      switch (k) {
      case 0: return K12.v;
      case 1: return K12.get();
      case 2: return new K12().f;
      case 3: K12.w = 5; return K12.v;
      case 4: return (int) (K12.two - K12.v);
      case 5: return K12.obj == null ? 0 : Integer.parseInt(((String) K12.obj).substring(1));
      case 6: return forName(12);
      case 7: return viaReflection(12);
      case 8: try { return ((K12) Class.forName("w.CInit$K12").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    case 13:
      switch (k) {
      case 0: return K13.v;
      case 1: return K13.get();
      case 2: return new K13().f;
      case 3: K13.w = 5; return K13.v;
      case 4: return (int) (K13.two - K13.v);
      case 5: return K13.obj == null ? 0 : Integer.parseInt(((String) K13.obj).substring(1));
      case 6: return forName(13);
      case 7: return viaReflection(13);
      case 8: try { return ((K13) Class.forName("w.CInit$K13").newInstance()).f; } catch (Exception e) { fail("newInstance: " + describe(e)); return 0; }
      }
      break;
    }
    fail("no such access");
    return 0;
  }
  static int forName(int id) {
    try {
      Class c = Class.forName("w.CInit$K" + id);
    } catch (ClassNotFoundException e) {
      fail("forName: " + e);
    }
    return touch(id, 0);
  }
  static int viaReflection(int id) {
    try {
      Class c = Class.forName("w.CInit$K" + id, false, CInit.class.getClassLoader());
      java.lang.reflect.Method m = c.getDeclaredMethod("get", new Class[0]);
      m.setAccessible(true);
      return ((Integer) m.invoke(null, new Object[0])).intValue();
    } catch (java.lang.reflect.InvocationTargetException e) {
      if (e.getTargetException() instanceof Error) throw (Error) e.getTargetException();
      fail("reflection: " + describe(e));
    } catch (Exception e) {
      fail("reflection: " + describe(e));
    }
    return 0;
  }

  void run() throws Exception {
    final int threads = rng.between(2, 4);
    final int nc = rng.between(1, N);
    for (int i = 0; i < N; ++i) {
      pauses[i] = rng.below(6);
      fails[i] = rng.chance(30) ? rng.between(1, 2) : 0;
      uses[i] = rng.chance(50) ? rng.below(nc) : -1;
      how[i] = rng.below(7);
    }
    T[] ts = new T[threads + 1];
    for (int t = 0; t < threads; ++t) {
      final int n = rng.between(1, 8);
      final int[] c = new int[n], k = new int[n];
      for (int i = 0; i < n; ++i) {
        c[i] = rng.chance(50) ? rng.below(Math.min(nc, 3)) : rng.below(nc);
        k[i] = rng.below(9);
        if (skipped(step())) c[i] = -1;
      }
      ts[t] = new T(t) {
        public void go() {
          for (int i = 0; i < n; ++i) {
            if (c[i] < 0) continue;
            try {
              int v = touch(c[i], k[i]);
              expect(c[i], v);
              if (v != 1000 + c[i]) fail("class " + c[i] + " used with value " + v);
            } catch (Error e) {
              failure(c[i], e);
            }
          }
        }
      };
    }
    final int chain = rng.below(6);
    chainPause = rng.below(4);
    if (chain < 4) {
      ts[threads] = new T(threads) {
        public void go() throws Exception {
          if (chain == 0) { if (C.b != 2) fail("C.b"); }
          else if (chain == 1) new C();
          else if (chain == 2) { Class.forName("w.CInit$C"); }
          else { if (C.c != 3 || Konst.K != 7) fail("C.c"); }
          String s;
          synchronized (CInit.class) { s = trace; }
          String want = chain == 0 ? "AB" : "ABC";
          if (!s.equals(want)) fail("initialization order " + s + ", expected " + want);
        }
      };
    }
    runAll(ts);
    for (int i = 0; i < N; ++i) {
      check(runs[i] <= 1, "class " + i + " initialized " + runs[i] + " times");
      if (runs[i] == 1 && fails[i] == 0) {
        int v = touch(i, 0);
        check(v == 1000 + i, "class " + i + " has value " + v);
      } else if (runs[i] == 1) {
        for (int k = 0; k < 9; ++k)
        try {
          touch(i, k);
          fail("class " + i + " usable after its initializer failed (" + k + ")");
        } catch (NoClassDefFoundError e) {
        }
      }
    }
    if (chain < 2 && rng.chance(50)) {
      // interface fields initialize the interface on first use only
      check(trace.indexOf('I') < 0, "interface initialized by a subclass: " + trace);
      check(I0.x == 3 && trace.indexOf('I') >= 0, "interface not initialized by a field use: " + trace);
    }
  }
  void warm() throws Exception {
    new Boom(1);
    new BoomError(1);
    new ExceptionInInitializerError();
    new NoClassDefFoundError();
    T t = new T(0) { public void go() {} };
    t.start();
    t.join();
    Class.forName("w.Rng");
    try {
      W.class.getDeclaredMethod("steps", new Class[0]).invoke(null, new Object[0]);
    } catch (Exception e) {
      fail(describe(e));
    }
  }
}

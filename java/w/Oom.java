package w;

import sim.Sim;
import java.lang.ref.*;
import java.lang.reflect.*;
import java.util.*;

/** Allocations fail: each operation either has its result or throws OutOfMemoryError, and nothing else is affected. */
public class Oom extends W {
  static class Node {
    Node next; int v; Object o;
    Node(int v, Node n) { this.v = v; next = n; o = new int[v & 7]; }
  }
  static class Locked {
    int a, b; volatile int inside;
    synchronized long method(int k) {
      if (++inside != 1) fail("two threads in a monitor");
      int x = a;
      try {
        a = x + 1;
        Object[] os = new Object[3];
        for (int i = 0; i < 3; ++i) os[i] = new Node(i, null);
        return os.length + k;
      } finally {
        a = x;
        --inside;
      }
    }
    long slow(int k) {
      synchronized (this) {
        if (++inside != 1) fail("two threads in a monitor");
        Object o = null;
        try {
          for (int i = 0; i < 4; ++i) {
            Sim.yield0();
            o = new int[k + i];
          }
        } finally {
          --inside;
        }
        return ((int[]) o).length;
      }
    }
    long block(int k) {
      synchronized (this) {
        if (++inside != 1) fail("two threads in a monitor");
        try {
          String s = "k" + k;
          return s.length();
        } finally {
          --inside;
        }
      }
    }
  }
  static class Fin {
    final int k; int ends;
    Fin(int k) { this.k = k; }
    protected void finalize() {
      if (++ends != 1) fail("finalized again");
    }
  }
  interface Shape { long area(int k); }
  static class Sq implements Shape { public long area(int k) { return k * (long) k; } }
  static class Boxed implements Cloneable {
    int x = 3; int[] is = new int[] {1, 2, 3};
    public Boxed clone() throws CloneNotSupportedException { return (Boxed) super.clone(); }
  }
  static class Ex extends RuntimeException {
    final int k;
    Ex(int k) { super("e" + k); this.k = k; }
  }
  public static long plus(int a, long b, String c) { return a + b + c.length(); }
  static long deep(int n, int k) {
    if (n == 0) throw new Ex(k);
    return deep(n - 1, k) + 1;
  }
  static final Locked[] locks = {new Locked(), new Locked()};
  static final Object mon = new Object();
  static final Map[] shared = {new HashMap(), new TreeMap(), new LinkedHashMap(), new Hashtable()};

  static final int OPS = 28;
  /** the result depends on the arguments only */
  static long op(int which, final int k) throws Exception {
    switch (which) {
    case 0: return locks[k & 1].method(k);
    case 1: return locks[k & 1].block(k);
    case 2: {
      Node n = null;
      for (int i = 0; i < 20; ++i) n = new Node(i, n);
      long s = 0;
      for (; n != null; n = n.next) s = s * 31 + n.v + ((int[]) n.o).length;
      return s;
    }
    case 3: {
      int[][][] a = new int[3][k % 4 + 1][2];
      a[2][k % 4][1] = k;
      return a.length + a[1].length * 10 + a[2][k % 4][1] * 100;
    }
    case 4: {
      String s = ("in" + k).intern();
      if (s != new String("in" + k).intern()) fail("two representatives");
      return s.hashCode();
    }
    case 5: {
      try {
        return deep(k % 10, k);
      } catch (Ex e) {
        return e.k + e.getStackTrace().length - e.getStackTrace().length;
      }
    }
    case 6: {
      Method m = Oom.class.getDeclaredMethod("plus", int.class, long.class, String.class);
      return ((Long) m.invoke(null, k, 7L, "abc")).longValue();
    }
    case 7: {
      Shape s = (Shape) Proxy.newProxyInstance(Oom.class.getClassLoader(), new Class[] {Shape.class}, new InvocationHandler() {
        public Object invoke(Object p, Method m, Object[] a) {
          return Long.valueOf(((Integer) a[0]).intValue() + 5L);
        }
      });
      return s.area(k);
    }
    case 8: {
      final int[] r = new int[1];
      Thread t = new Thread() {
        public void run() { r[0] = k + 1; }
      };
      t.start();
      t.join();
      return r[0];
    }
    case 9: {
      Boxed b = new Boxed();
      b.x = k;
      Boxed c = b.clone();
      return c.x + c.is[2] + c.is.clone().length;
    }
    case 10: {
      WeakReference<Node> w = new WeakReference<Node>(new Node(k, null));
      Node n = w.get();
      return n == null || n.v == k ? k : -1;
    }
    case 11: {
      Object o = new Object();
      synchronized (o) {
        o.wait(0, 1000);
        o.notifyAll();
      }
      return k;
    }
    case 12: {
      HashMap<String, Integer> m = new HashMap<String, Integer>();
      for (int i = 0; i < 10; ++i) m.put("k" + (i * k) % 7, i);
      long s = 0;
      for (Map.Entry<String, Integer> e : m.entrySet()) s += e.getKey().hashCode() * e.getValue().intValue();
      return s;
    }
    case 13: {
      Runnable[] rs = new Runnable[1];
      final long[] r = new long[1];
      rs[0] = () -> r[0] = k * 3L;
      rs[0].run();
      return r[0];
    }
    case 14: {
      Class c = Class.forName("[[Lw.Oom$Node;");
      Object a = Array.newInstance(c.getComponentType(), k % 5);
      return Array.getLength(a) + c.getName().length();
    }
    case 16: {
      // the others keep the monitor for a while, so that it must be waited for again
      Locked l = locks[k & 1];
      synchronized (l) {
        if (++l.inside != 1) fail("two threads in a monitor");
        --l.inside;
        try {
          l.wait(0, 1000 + k);
        } finally {
          if (!Thread.holdsLock(l)) fail("the monitor was not acquired again");
          if (++l.inside != 1) fail("two threads in a monitor after wait");
          --l.inside;
        }
      }
      return k * 5;
    }
    case 17: return locks[k & 1].slow(k);
    case 18: {
      Fin f = new Fin(k);
      return f.k;
    }
    case 19: {
      // traps of the processor, and what the VM throws itself
      long s = 0;
      Object[] os = k % 2 == 0 ? null : new String[k % 3];
      for (int i = 0; i < 5; ++i)
        try {
          switch ((i + k) % 5) {
          case 0: s += 10 / (k - k); break;
          case 1: s += os[k].hashCode(); break;
          case 2: s += ((String) (Object) locks[0]).length(); break;
          case 3: s += new int[-1 - k].length; break;
          default: locks[1].notifyAll();
          }
          s += 1000;
        } catch (ArithmeticException e) {
          s += 1;
        } catch (NullPointerException e) {
          s += 10;
        } catch (ArrayIndexOutOfBoundsException e) {
          s += 100;
        } catch (ClassCastException e) {
          s += 10000;
        } catch (NegativeArraySizeException e) {
          s += 100000;
        } catch (IllegalMonitorStateException e) {
          s += 1000000;
        }
      return s;
    }
    case 20: {
      ThreadLocal<Integer> l = new ThreadLocal<Integer>();
      l.set(k);
      ThreadLocal<Integer> m = new ThreadLocal<Integer>() { protected Integer initialValue() { return k + 7; } };
      return l.get() * 100 + m.get();
    }
    case 21: {
      long s = 0;
      for (Field f : Ex.class.getDeclaredFields()) if (f.getName().equals("k")) s += f.getInt(new Ex(k));
      Constructor c = Ex.class.getDeclaredConstructor(int.class);
      s += ((Ex) c.newInstance(k * 3)).k * 100;
      try {
        Oom.class.getDeclaredMethod("deep", int.class, int.class).invoke(null, 2, k);
      } catch (InvocationTargetException e) {
        if (memory(e)) throw new OutOfMemoryError("invoke");
        s += ((Ex) e.getCause()).k * 10000;
      }
      return s + Sq.class.getInterfaces().length;
    }
    case 22: {
      String s = "a" + k + "," + k * 7 + ",x";
      byte[] b = s.getBytes("UTF-8");
      String t = new String(b, 2, b.length - 2, "UTF-8");
      return t.hashCode() + s.substring(1).indexOf(',') + s.replace('a', 'b').hashCode() + (s.toCharArray().length << 20);
    }
    case 23: {
      // recursive, and twice
      long r = 0;
      synchronized (locks[0]) {
        synchronized (locks[0]) { r += new Node(k, null).v; }
        if (!Thread.holdsLock(locks[0])) fail("released too early");
        synchronized (locks[1]) { r += ("" + k).length(); }
      }
      return r;
    }
    case 24: {
      LinkedList<String> l = new LinkedList<String>();
      ArrayList<String> a = new ArrayList<String>();
      for (int i = 0; i < 8; ++i) {
        l.addFirst("x" + i * k);
        a.add(i / 2, l.getFirst());
      }
      Collections.sort(a);
      return a.toString().hashCode() + l.toString().hashCode();
    }
    // monitors that are made for these calls
    case 25: return new Locked().method(k) + new Locked().block(k);
    case 26: {
      Locked l = new Locked();
      synchronized (l) {
        if (l.slow(k) != k + 3) return 1;
        l.notifyAll();
      }
      return l.inside + l.a;
    }
    case 27: {
      Map<String, Integer> m = shared[k & 3];
      synchronized (m) {
        try {
          for (int i = 0; i < 3; ++i) m.put("s" + (k * 5 + i * 11) % 17, i);
          m.remove("s" + k);
        } finally {
          int n = 0;
          for (Iterator<String> it = m.keySet().iterator(); it.hasNext(); it.next()) ++n;
          if (n != m.size()) fail("a map of " + n + " says " + m.size());
        }
        m.clear();
      }
      return k;
    }
    default: {
      Object o = new Object();
      int h = System.identityHashCode(o);
      StringBuilder sb = new StringBuilder();
      for (int i = 0; i < 40; ++i) sb.append((char) ('a' + i % 26));
      return sb.toString().hashCode() + (h == System.identityHashCode(o) ? 0 : 1);
    }
    }
  }
  static String trace(Throwable e) {
    StringBuilder sb = new StringBuilder();
    for (; e != null; e = e.getCause()) {
      sb.append(e.toString());
      StackTraceElement[] st = e.getStackTrace();
      for (int i = 0; i < st.length && i < 12; ++i) sb.append(" at ").append(st[i].getClassName()).append(".").append(st[i].getMethodName());
      sb.append(" / ");
    }
    return sb.toString();
  }
  static boolean memory(Throwable e) {
    for (int i = 0; e != null && i < 10; ++i) {
      if (e instanceof OutOfMemoryError) return true;
      e = e.getCause();
    }
    return false;
  }
  static long[][] expected;
  static void expectations() throws Exception {
    if (expected != null) return;
    expected = new long[OPS][10];
    for (int i = 0; i < OPS; ++i) for (int k = 0; k < 10; ++k) expected[i][k] = op(i, k);
  }
  void warm() throws Exception {
    if (param("first", 0) == 0) expectations();
    // what checking and reporting need
    memory(new RuntimeException(new OutOfMemoryError()));
    Sim.oom();
    if (param("m", 0) > 0 && param("m", 0) < 4) {
      // a library class whose initialization fails stays unusable
      for (int e = 0; e < L.ENTRIES; ++e)
        for (int p = 1; p < 2; ++p) {
          L.run(WARM, e, p);
          L.run(L.GROUPS - 1, e, p);
        }
      for (String n : "Boolean Byte Character Short Integer Long Float Double Void Math Enum Thread".split(" ")) Class.forName("java.lang." + n);
      for (String n : "Collections Arrays HashMap ArrayList Random IdentityHashMap WeakHashMap TreeMap".split(" ")) Class.forName("java.util." + n);
    }
  }
  /** groups that warm up the library, and one that is not among them */
  static final int WARM = 23;
  static int group(int n) {
    n %= L.GROUPS - 2;
    return n < WARM ? n : n + 1;
  }
  void run() throws Exception {
    switch (param("m", 0)) {
    case 0: ops(); break;
    case 1: link(true); break;
    case 2: load(); break;
    case 4: limit(); break;
    default: link(false);
    }
  }

  /** one attempt; says whether it ended normally, with the result in r[0] */
  static abstract class Attempt {
    long r;
    int failures;
    abstract long go() throws Exception;
    boolean ok(String what) throws Exception {
      boolean ok = false;
      Throwable thrown = null;
      int before = Sim.oom();
      Sim.hot(true);
      try {
        r = go();
        ok = true;
      } catch (Throwable e) {
        thrown = e;
      }
      Sim.hot(false);
      failures = Sim.oom() - before;
      if (!ok && (failures == 0 || !acceptable(thrown))) throw new RuntimeException(what + " (" + failures + ") " + trace(thrown));
      if (!ok) Sim.probe("failed");
      else if (failures > 0) Sim.probe("passed");
      return ok;
    }
    boolean acceptable(Throwable e) {
      return memory(e);
    }
  }

  void ops() throws Exception {
    final int threads = rng.between(1, 4), per = rng.between(4, 20);
    T[] ts = new T[threads];
    // often few kinds, so that threads meet in them
    final int only = param("op", -1), base = rng.below(OPS), kinds = rng.chance(50) ? OPS : rng.between(1, 4);
    final boolean first = expected == null;
    for (int t = 0; t < threads; ++t) {
      final int[] which = new int[per], arg = new int[per];
      for (int i = 0; i < per; ++i) {
        which[i] = only >= 0 ? only : (base + rng.below(kinds)) % OPS;
        arg[i] = rng.below(10);
        if (skipped(step())) which[i] = -1;
      }
      ts[t] = new T(t) {
        public void go() throws Exception {
          long[] results = new long[per];
          boolean[] ok = new boolean[per];
          for (int i = 0; i < per; ++i) {
            if (which[i] < 0) continue;
            final int w = which[i], a = arg[i];
            Attempt at = new Attempt() { long go() throws Exception { return op(w, a); } };
            ok[i] = at.ok("operation " + w);
            results[i] = at.r;
          }
          expectationsLater();
          for (int i = 0; i < per; ++i)
            if (ok[i] && results[i] != expected[which[i]][arg[i]]) fail("operation " + which[i] + "(" + arg[i] + ") gave " + results[i]);
        }
      };
    }
    final int[] arg = new int[OPS];
    for (int i = 0; i < OPS; ++i) arg[i] = rng.below(10);
    runAll(ts);
    Sim.stopFaults();
    for (int i = 0; i < OPS; ++i)
      for (int j = 0, k = arg[i]; j < 2; ++j, k = (k + 1) % 10)
        if (op(i, k) != expected[i][k]) fail("after: operation " + i + "(" + k + ")");
  }
  static synchronized void expectationsLater() throws Exception {
    expectations();
  }

  void link(final boolean initialized) throws Exception {
    final int threads = rng.between(1, 4), per = rng.between(2, 6), params = param("params", 10);
    final int groups = rng.between(1, 2), first = rng.below(L.GROUPS);
    if (initialized) {
      for (int n = 0; n < 4; ++n)
        try { Class.forName("w.Late" + n); } catch (LinkageError e) { }
      for (int g = first; g < first + groups; ++g)
        for (String n : LNames.of(group(g)))
          try { Class.forName(n); } catch (LinkageError e) { }
    }
    final List<int[]> done = new ArrayList<int[]>();
    final boolean[] tainted = new boolean[1];
    T[] ts = new T[threads];
    for (int t = 0; t < threads; ++t) {
      final int[] g = new int[per], e = new int[per], p = new int[per];
      for (int i = 0; i < per; ++i) {
        g[i] = group(first + rng.below(groups));
        e[i] = rng.below(L.ENTRIES);
        p[i] = rng.below(params);
        if (skipped(step())) g[i] = -1;
      }
      ts[t] = new T(t) {
        public void go() throws Exception {
          for (int i = 0; i < per; ++i) {
            if (g[i] < 0) continue;
            final int gg = g[i], ee = e[i], pp = p[i];
            Attempt at = new Attempt() {
              long go() throws Exception { return L.run(gg, ee, pp); }
              boolean acceptable(Throwable t) { return true; }
            };
            if (!initialized && tainted[0]) at.failures = 1;
            boolean ok;
            try {
              ok = at.ok("entry " + gg + " " + ee + " " + pp);
            } catch (RuntimeException x) {
              if (!initialized && tainted[0]) continue;
              throw x;
            }
            if (at.failures > 0) tainted[0] = true;
            if (ok && at.failures == 0 && (initialized || !tainted[0])) Sim.log("res " + gg + " " + ee + " " + pp + " " + at.r);
          }
        }
      };
    }
    runAll(ts);
    Sim.stopFaults();
    for (int t = 0; t < threads; ++t)
      ;
    for (int i = 0; i < 12; ++i) {
      int g = group(first + rng.below(groups)), e = rng.below(L.ENTRIES), p = rng.below(params);
      try {
        long v = L.run(g, e, p);
        if (initialized || !tainted[0]) Sim.log("res " + g + " " + e + " " + p + " " + v);
      } catch (Throwable x) {
        if (initialized || !tainted[0]) throw new RuntimeException("after: " + trace(x));
      }
    }
  }

  void load() throws Exception {
    final int threads = rng.between(1, 4), per = rng.between(4, 15), params = param("params", 10);
    final int g = group(rng.below(L.GROUPS));
    final String[] names = LNames.of(g);
    final Class[] found = new Class[names.length];
    T[] ts = new T[threads];
    for (int t = 0; t < threads; ++t) {
      final int[] which = new int[per];
      for (int i = 0; i < per; ++i) which[i] = skipped(step()) ? -1 : rng.below(found.length);
      ts[t] = new T(t) {
        public void go() throws Exception {
          for (int i = 0; i < per; ++i) {
            if (which[i] < 0) continue;
            final int w = which[i];
            final Class[] c = new Class[1];
            Attempt at = new Attempt() {
              long go() throws Exception {
                c[0] = Class.forName(names[w], false, Oom.class.getClassLoader());
                return 0;
              }
              boolean acceptable(Throwable t) { return memory(t) || t instanceof LinkageError; }
            };
            if (at.ok("load " + names[w]))
              synchronized (found) {
                if (found[w] == null) found[w] = c[0];
                else if (found[w] != c[0]) fail("two classes " + names[w]);
              }
          }
        }
      };
    }
    runAll(ts);
    Sim.stopFaults();
    for (int i = 0; i < 12; ++i) {
      int e = rng.below(L.ENTRIES), p = rng.below(params);
      Sim.log("res " + g + " " + e + " " + p + " " + L.run(g, e, p));
    }
    for (int i = 0; i < found.length; ++i)
      if (found[i] != null && Class.forName(names[i], false, Oom.class.getClassLoader()) != found[i]) fail("another class " + names[i]);
  }

  /** threads fill the heap with objects of all sizes until there is no room, and drop some again */
  static final int[] bytes = new int[8], ever = new int[8];
  static int sum(int[] a) {
    int n = 0;
    for (int i = 0; i < a.length; ++i) n += a[i];
    return n;
  }
  static volatile boolean open;
  static boolean warmed;
  static String stage = "begin";
  void limit() throws Exception {
    try { limits(); } catch (OutOfMemoryError e) { fail(stage); throw e; }
  }
  void limits() throws Exception {
    final int max = param("max", 10240) << 10;
    final int threads = rng.between(1, 4), largest = rng.chance(50) ? max / 10 : max / 40;
    final boolean warming = !warmed;
    warmed = true;
    T[] ts = new T[threads];
    for (int t = 0; t < threads; ++t) {
      final Rng r = new Rng(rng.below(1 << 30));
      final int rounds = warming ? 2 : rng.between(2, 4), quota = warming ? max / 50 : rng.chance(60) ? max * 2 : max / rng.between(3, 12) / threads;
      final int keep = rng.below(100), shape = rng.below(4);
      final boolean[] skip = new boolean[rounds];
      for (int i = 0; i < rounds; ++i) skip[i] = skipped(step());
      final Object[] held = new Object[1000];
      final int[] sizes = new int[1000];
      ts[t] = new T(t) {
        int n, serial, where;
        public void run() { try { super.run(); } finally { if (!finished) fail(where == 0 ? "w0" : where == 1 ? "w1" : where == 2 ? "w2" : "w3"); } }
        /** any allocation in here may fail */
        void fill() {
          for (int left = 60; left > 0 && n < held.length && bytes[me] < quota; --left) {
            int size = r.between(2000, r.chance(20) ? largest : largest / 4), already = sum(ever), before = sum(bytes);
            int kind = shape == 3 ? r.below(3) : shape;
            int id = ++serial;
            try {
              Object o;
              if (kind == 0) {
                int[] a = new int[size / 4];
                a[0] = id;
                a[a.length - 1] = size;
                o = a;
              } else if (kind == 1) {
                Object[] a = new Object[size / 32];
                a[0] = new Node(id, null);
                for (int i = 0; i < 30 && i < a.length; ++i) a[a.length - 1 - i] = new int[] {size, i};
                o = a;
              } else {
                String[] a = new String[8];
                byte[] b = new byte[size / 10];
                for (int i = 0; i < b.length && i < 100; ++i) b[i] = (byte) ('a' + size % 20);
                for (int i = 0; i < 8; ++i) a[i] = new String(b, 0, 0, b.length);
                o = a;
              }
              sizes[n] = size;
              held[n++] = o;
              bytes[me] += size / 2;
              ever[me] += size / 2;
            } catch (OutOfMemoryError e) {
              // what other threads allocate and have not counted
              before += sum(ever) - already;
              if (before * 2L + size + threads * 3L * largest + (11 << 19) < max) fail("out of memory with " + before * 2 + " of " + max + " in use");
              Sim.probe("full");
              return;
            }
            // near the limit each one takes a collection
            if (r.chance(sum(bytes) > max / 4 ? 20 : 3)) return;
          }
        }
        boolean intact(int k) {
          int size = sizes[k];
          if (held[k] instanceof int[]) {
            int[] a = (int[]) held[k];
            return a.length == size / 4 && a[a.length - 1] == size;
          } else if (held[k] instanceof String[]) {
            String s = ((String[]) held[k])[7];
            return s.length() == size / 10 && s.charAt(9) == 'a' + size % 20;
          } else {
            Object[] a = (Object[]) held[k];
            return a.length == size / 32 && a[0] instanceof Node && ((int[]) a[a.length - 2])[0] == size;
          }
        }
        public void go() throws Exception {
          // starting a thread needs memory too
          synchronized (bytes) {
            while (!open) bytes.wait();
          }
          for (int i = 0; i < rounds; ++i) {
            if (skip[i]) continue;
            Sim.hot(true);
            try {
              fill();
            } catch (OutOfMemoryError e) {
            }
            Sim.hot(false);
            where = 1;
            for (int k = 0; k < n; ++k)
              if (sizes[k] >= 1000 && !intact(k)) fail("contents");
            where = 2;
            if (r.chance(70)) {
              // drop some, and let their memory be used again
              int m = 0;
              for (int k = 0; k < n; ++k)
                if (r.below(100) < keep) {
                  held[m] = held[k];
                  sizes[m++] = sizes[k];
                } else {
                  bytes[me] -= sizes[k] / 2;
                }
              for (int k = m; k < n; ++k) held[k] = null;
              n = m;
            }
            where = 0;
          }
          where = 3;
          for (int k = 0; k < n; ++k) held[k] = null;
          bytes[me] = 0;
        }
      };
    }
    open = false;
    startAll(ts);
    stage = "started";
    synchronized (bytes) {
      open = true;
      bytes.notifyAll();
    }
    joinAll(ts);
    Sim.stopFaults();
    ts = null;
    stage = "end";
    int[] a = new int[max / 3 / 4];
    a[7] = 3;
    a = null;
    stage = "ends";
    int[][] as = new int[30][];
    for (int i = 0; i < 30; ++i) as[i] = new int[max / 80 / 4];
    check(as[29].length > 0, "no arrays");
  }
}

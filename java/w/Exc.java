package w;

import sim.Sim;
import java.lang.reflect.*;
import java.util.*;

/**
 * Exceptions: a generated tree of calls, locks, handlers and traps runs in several threads at once; a model that
 * uses no exceptions says which handlers run in which order, with what, and what the stack trace of each names.
 */
public class Exc extends W {
  // ---------------------------------------------------------------- programs
  static final int SEQ = 0, CALL = 1, SYNC = 2, BLOCK = 3, TRY = 4, FIN = 5, TRAP = 6, REFLECT = 7, IFACE = 8, STATICSYNC = 9,
    RETHROW = 10, FINRET = 11, GC = 12, LOCALS = 13, LEAF = 14, WRAP = 15;
  static class Node {
    int kind, id, a, b;
    Node[] kids;
    Node(int kind, int id) { this.kind = kind; this.id = id; }
  }
  static int ids;
  static final int TRAPS = 27;
  static final int LOCKS = 4;

  static Node make(Rng r, int depth, int top, int size) {
    Node n = new Node(0, ids++);
    int k = depth <= 0 ? (r.chance(65) ? TRAP : LEAF) : r.below(18);
    if (k > 15) k = TRY;
    if (k == TRAP && depth > 2 && r.chance(50)) k = CALL;
    if (k == SYNC || k == BLOCK) {
      // locks are taken in order, or again
      int l = r.below(LOCKS);
      if (l < top && l + 1 != top) l = top < LOCKS ? top : top - 1;
      n.a = l;
      top = Math.max(top, l + 1);
    }
    if (k == STATICSYNC) {
      top = LOCKS; // the class's lock is the last one
    }
    n.kind = k;
    switch (k) {
    case TRAP:
      n.a = r.below(TRAPS);
      n.b = r.below(4);
      n.kids = new Node[0];
      break;
    case LEAF:
    case GC:
      n.a = r.below(50);
      n.kids = new Node[0];
      break;
    case TRY:
      n.a = r.below(7);
      n.b = r.below(2);
      n.kids = new Node[] {make(r, depth - 1, top, size), make(r, r.below(depth), top, size)};
      break;
    case FIN:
      n.b = r.below(3);
      n.kids = new Node[] {make(r, depth - 1, top, size), make(r, n.b == 0 ? r.below(depth) : 0, top, size)};
      if (n.b != 0) n.kids[1] = new Node(LEAF, ids++);
      break;
    case SEQ: {
      n.kids = new Node[r.between(1, size)];
      for (int i = 0; i < n.kids.length; ++i) n.kids[i] = make(r, depth - 1, top, size);
      break;
    }
    default:
      n.b = r.below(5);
      n.kids = new Node[] {make(r, depth - 1, top, size)};
    }
    if (n.kids == null) n.kids = new Node[0];
    return n;
  }

  // ---------------------------------------------------------------- exceptions
  static class Boom extends RuntimeException {
    final int id;
    Boom(int id) { super("boom " + id); this.id = id; }
  }
  static class Checked extends Exception {
    final int id;
    Checked(int id) { super("checked " + id); this.id = id; }
  }
  static class Fatal extends Error {
    final int id;
    Fatal(int id) { super("fatal " + id); this.id = id; }
  }
  static class Wrapped extends RuntimeException {
    Wrapped(Throwable t) { super(t); }
  }

  /** what trap k raises */
  static Class type(int k) {
    switch (k) {
    case 0: return Boom.class;
    case 1: return Checked.class;
    case 2: return Fatal.class;
    case 3: case 4: case 5: case 6: case 7: case 8: case 9: case 10: case 11: case 12: return NullPointerException.class;
    case 13: case 14: return ArrayIndexOutOfBoundsException.class;
    case 15: case 16: case 17: case 18: return ArithmeticException.class;
    case 19: return ClassCastException.class;
    case 20: case 21: return NegativeArraySizeException.class;
    case 22: return StackOverflowError.class;
    case 23: return IllegalMonitorStateException.class;
    case 24: return NumberFormatException.class;
    case 25: return ClassNotFoundException.class;
    default: return InterruptedException.class;
    }
  }
  static final Class[] CATCH = {Throwable.class, RuntimeException.class, Error.class, NullPointerException.class,
    ArithmeticException.class, Boom.class, Exception.class};

  // ---------------------------------------------------------------- the model
  static class Raised {
    Class type;
    int id;           // of a generated exception
    String trace;     // names of methods, innermost first
    Raised cause;
    Raised(Class type, int id, String trace, Raised cause) { this.type = type; this.id = id; this.trace = trace; this.cause = cause; }
  }
  static class Model {
    ArrayList<String> log = new ArrayList<String>();
    String stack = "";
    int sum;
    void push(String m) { stack = m + " " + stack; }
    void pop() { stack = stack.substring(stack.indexOf(' ') + 1); }
    boolean returned; // a finally block returned

    /** null, or the exception that leaves the node */
    Raised run(Node n) {
      push("exec");
      Raised r = body(n);
      pop();
      return r;
    }
    Raised body(Node n) {
      Raised r;
      switch (n.kind) {
      case SEQ:
        push("seq");
        r = null;
        for (int i = 0; i < n.kids.length && r == null; ++i) r = run(n.kids[i]);
        pop();
        return r;
      case CALL:
        push("call" + n.b);
        r = run(n.kids[0]);
        pop();
        if (r == null) log.add("c" + n.id);
        return r;
      case SYNC:
        push("sync");
        r = run(n.kids[0]);
        pop();
        return r;
      case STATICSYNC:
        push("staticSync");
        r = run(n.kids[0]);
        pop();
        return r;
      case BLOCK:
        push("block");
        r = run(n.kids[0]);
        pop();
        log.add("b" + n.id + (r == null ? "" : "x"));
        return r;
      case IFACE:
        push("go" + n.b % 3);
        r = run(n.kids[0]);
        pop();
        return r;
      case REFLECT:
        push("reflected");
        r = run(n.kids[0]);
        pop();
        if (r == null) return null;
        return new Raised(InvocationTargetException.class, -1, null, r);
      case WRAP:
        push("wrap");
        r = run(n.kids[0]);
        String at = stack;
        pop();
        return r == null ? null : new Raised(Wrapped.class, -1, at, r);
      case RETHROW:
        push("rethrow");
        r = run(n.kids[0]);
        pop();
        log.add("r" + n.id + (r == null ? "" : "x"));
        return r;
      case TRY: {
        push("handler" + n.b);
        r = run(n.kids[0]);
        if (r == null) log.add("t" + n.id);
        else if (CATCH[n.a].isAssignableFrom(r.type)) {
          log.add(caught(n.id, r));
          r = run(n.kids[1]);
        }
        pop();
        return r;
      }
      case FIN: {
        push("fin");
        r = run(n.kids[0]);
        log.add("f" + n.id);
        Raised s = run(n.kids[1]);
        if (s != null) r = s;
        pop();
        return r;
      }
      case FINRET: {
        push("finret");
        r = run(n.kids[0]);
        log.add("F" + n.id);
        pop();
        return null;
      }
      case LOCALS:
        push("locals" + n.b % 3);
        r = run(n.kids[0]);
        log.add("l" + n.id + (r == null ? "" : "x"));
        pop();
        return n.b % 2 == 0 ? null : r;
      case TRAP: {
        push("trap");
        String in = "";
        int k = n.a;
        Raised x = new Raised(type(k), k < 3 ? n.id : -1, stack, null);
        if (k == 22) x.trace = null;
        pop();
        return x;
      }
      default:
        push("leaf");
        log.add("." + n.id);
        pop();
        return null;
      }
    }
  }
  static String caught(int id, Raised r) {
    StringBuilder sb = new StringBuilder("e" + id);
    for (Raised x = r; x != null; x = x.cause) {
      sb.append("|").append(x.type.getName()).append(x.id < 0 ? "" : "#" + x.id);
      if (x.trace != null) sb.append("@").append(x.trace);
    }
    return sb.toString();
  }
  static String caught(int id, Throwable e) {
    StringBuilder sb = new StringBuilder("e" + id);
    for (Throwable x = e; x != null; x = x.getCause()) {
      sb.append("|").append(x.getClass().getName());
      if (x instanceof Boom) sb.append("#" + ((Boom) x).id);
      if (x instanceof Checked) sb.append("#" + ((Checked) x).id);
      if (x instanceof Fatal) sb.append("#" + ((Fatal) x).id);
      if (!(x instanceof StackOverflowError) && !(x instanceof InvocationTargetException)) {
        sb.append("@");
        StackTraceElement[] st = x.getStackTrace();
        boolean in = true;
        for (int i = 0; i < st.length; ++i)
          if (st[i].getClassName().startsWith("w.Exc")) {
            String m = st[i].getMethodName();
            if (m.equals("one")) break;
            if (m.startsWith("inner")) continue;
            sb.append(m).append(" ");
          }
      }
    }
    return sb.toString();
  }

  // ---------------------------------------------------------------- the real thing
  static class Lock {
    final int n;
    volatile Thread owner;
    int depth;
    Lock(int n) { this.n = n; }
    synchronized int sync(Run r, Node k) throws Exception {
      if (owner != null && owner != Thread.currentThread()) fail("lock " + n + " is held by two threads");
      Thread before = owner;
      int d = ++depth;
      owner = Thread.currentThread();
      boolean ok = false;
      try {
        return r.exec(k);
      } finally {
        if (owner != Thread.currentThread() || depth != d) fail("lock " + n + " was lost");
        --depth;
        owner = before;
      }
    }
  }
  static Lock[] locks;
  interface Go { int go0(Run r, Node n) throws Exception; int go1(Run r, Node n) throws Exception; int go2(Run r, Node n) throws Exception; }
  static class GoA implements Go {
    public int go0(Run r, Node n) throws Exception { return r.exec(n.kids[0]); }
    public int go1(Run r, Node n) throws Exception { return 1 + r.exec(n.kids[0]); }
    public int go2(Run r, Node n) throws Exception { int x = r.exec(n.kids[0]); return x * 2; }
  }
  static class GoB extends GoA {
    int f = 3;
    public int go1(Run r, Node n) throws Exception { int k = f; int x = r.exec(n.kids[0]); if (k != f) fail("field changed"); return x; }
  }
  static int classDepth;
  static Thread classOwner;
  static synchronized int staticSync(Run r, Node n) throws Exception {
    if (classOwner != null && classOwner != Thread.currentThread()) fail("the class is locked by two threads");
    Thread before = classOwner;
    classOwner = Thread.currentThread();
    try {
      return r.exec(n.kids[0]);
    } finally {
      classOwner = before;
    }
  }

  static class Cell {
    int i;
    long l;
    double d;
    Object o;
    Cell next;
    int get() { return i; }
    long big0, big1, big2, big3;
  }
  static int zero;
  static long lzero;
  static Cell nil;
  static int[] nilInts;
  static Object[] nilObjects;
  static Go nilGo;
  static Object text = "text";

  static class Run {
    ArrayList<String> log = new ArrayList<String>();
    int deep;
    Method reflected;
    Go[] gos = {new GoA(), new GoB()};
    Run() throws Exception {
      reflected = Run.class.getDeclaredMethod("reflected", Node.class);
    }

    int exec(Node n) throws Exception {
      switch (n.kind) {
      case SEQ: return seq(n);
      case CALL: {
        int v;
        switch (n.b) {
        case 0: v = call0(n); break;
        case 1: v = call1(n, 5, 7L, 1.5); break;
        case 2: v = (int) call2(n, n); break;
        case 3: v = (int) call3(1, 2, 3, 4, 5, 6L, 7L, 8.0, n, 9.0f); break;
        default: v = call4(this, n);
        }
        log.add("c" + n.id);
        return v;
      }
      case SYNC: return locks[n.a].sync(this, n.kids[0]);
      case STATICSYNC: return staticSync(this, n);
      case BLOCK: return block(n);
      case IFACE: {
        Go g = gos[n.id & 1];
        switch (n.b % 3) {
        case 0: return g.go0(this, n);
        case 1: return g.go1(this, n);
        default: return g.go2(this, n);
        }
      }
      case REFLECT: return ((Integer) reflected.invoke(this, n)).intValue();
      case WRAP: return wrap(n);
      case RETHROW: return rethrow(n);
      case TRY: return n.b == 0 ? handler0(n) : handler1(n, n.id * 3L, n.id / 2.0);
      case FIN: return fin(n);
      case FINRET: return finret(n);
      case LOCALS: return n.b % 3 == 0 ? locals0(n) : n.b % 3 == 1 ? locals1(n) : locals2(n);
      case TRAP: return trap(n);
      default: return leaf(n);
      }
    }
    int seq(Node n) throws Exception {
      int s = 0;
      for (int i = 0; i < n.kids.length; ++i) s += exec(n.kids[i]);
      return s;
    }
    int call0(Node n) throws Exception { return exec(n.kids[0]); }
    int call1(Node n, int a, long b, double c) throws Exception {
      int v = exec(n.kids[0]);
      if (a != 5 || b != 7 || c != 1.5) fail("arguments changed");
      return v;
    }
    long call2(Object o, Node n) throws Exception { return exec(n.kids[0]) + 1L; }
    double call3(int a, int b, int c, int d, int e, long f, long g, double h, Node n, float i) throws Exception {
      int v = exec(n.kids[0]);
      if (a + b + c + d + e + f + g + h + i != 45) fail("arguments changed");
      return v;
    }
    static int call4(Run r, Node n) throws Exception { return r.exec(n.kids[0]); }
    int block(Node n) throws Exception {
      boolean ok = false;
      Lock l = locks[n.a];
      try {
        synchronized (l) {
          if (l.owner != null && l.owner != Thread.currentThread()) fail("lock " + n.a + " is held by two threads");
          Thread before = l.owner;
          int d = ++l.depth;
          l.owner = Thread.currentThread();
          try {
            int v = exec(n.kids[0]);
            ok = true;
            return v;
          } finally {
            if (l.owner != Thread.currentThread() || l.depth != d) fail("lock " + n.a + " was lost");
            --l.depth;
            l.owner = before;
          }
        }
      } finally {
        log.add("b" + n.id + (ok ? "" : "x"));
      }
    }
    int reflected(Node n) throws Exception { return exec(n.kids[0]); }
    int wrap(Node n) throws Exception {
      try {
        return exec(n.kids[0]);
      } catch (Throwable e) {
        throw new Wrapped(e);
      }
    }
    int rethrow(Node n) throws Exception {
      try {
        int v = exec(n.kids[0]);
        log.add("r" + n.id);
        return v;
      } catch (RuntimeException e) {
        log.add("r" + n.id + "x");
        throw e;
      } catch (Exception e) {
        log.add("r" + n.id + "x");
        throw e;
      } catch (Error e) {
        log.add("r" + n.id + "x");
        throw e;
      }
    }
    int handler0(Node n) throws Exception {
      switch (n.a) {
      case 0: try { int v = exec(n.kids[0]); log.add("t" + n.id); return v; }
        catch (Throwable e) { log.add(caught(n.id, e)); return exec(n.kids[1]); }
      case 1: try { int v = exec(n.kids[0]); log.add("t" + n.id); return v; }
        catch (RuntimeException e) { log.add(caught(n.id, e)); return exec(n.kids[1]); }
      case 2: try { int v = exec(n.kids[0]); log.add("t" + n.id); return v; }
        catch (Error e) { log.add(caught(n.id, e)); return exec(n.kids[1]); }
      case 3: try { int v = exec(n.kids[0]); log.add("t" + n.id); return v; }
        catch (NullPointerException e) { log.add(caught(n.id, e)); return exec(n.kids[1]); }
      case 4: try { int v = exec(n.kids[0]); log.add("t" + n.id); return v; }
        catch (ArithmeticException e) { log.add(caught(n.id, e)); return exec(n.kids[1]); }
      case 5: try { int v = exec(n.kids[0]); log.add("t" + n.id); return v; }
        catch (Boom e) { log.add(caught(n.id, e)); return exec(n.kids[1]); }
      default: try { int v = exec(n.kids[0]); log.add("t" + n.id); return v; }
        catch (Exception e) { log.add(caught(n.id, e)); return exec(n.kids[1]); }
      }
    }
    /** all handlers in one method, the right one must be taken; locals survive */
    int handler1(Node n, long p, double q) throws Exception {
      int where = 0;
      Throwable t;
      Object[] o = {n};
      try {
        where = n.id + 1;
        int v = exec(n.kids[0]);
        log.add("t" + n.id);
        return v;
      } catch (NullPointerException e) {
        t = e;
      } catch (ArithmeticException e) {
        t = e;
      } catch (Boom e) {
        t = e;
      } catch (RuntimeException e) {
        t = e;
      } catch (Exception e) {
        t = e;
      } catch (Error e) {
        t = e;
      }
      if (where != n.id + 1 || p != n.id * 3L || q != n.id / 2.0 || o[0] != n) fail("locals changed in a handler");
      if (CATCH[n.a].isInstance(t)) {
        log.add(caught(n.id, t));
        return exec(n.kids[1]);
      }
      if (t instanceof Exception) throw (Exception) t;
      throw (Error) t;
    }
    int fin(Node n) throws Exception {
      try {
        return exec(n.kids[0]);
      } finally {
        log.add("f" + n.id);
        exec(n.kids[1]);
      }
    }
    int finret(Node n) throws Exception {
      try {
        return exec(n.kids[0]);
      } finally {
        log.add("F" + n.id);
        return 0;
      }
    }
    int locals0(Node n) throws Exception {
      int a = n.id, b = n.id * 7;
      long c = 1L << (n.id & 31) | 5L << 40;
      double d = n.id * 0.25;
      float f = n.id;
      String s = "s" + n.id;
      int[] arr = {a, b};
      boolean ok = false;
      try {
        a += 3;
        c += a;
        arr[0] = a;
        exec(n.kids[0]);
        ok = true;
      } catch (Throwable e) {
        if (n.b % 2 != 0) {
          log.add("l" + n.id + "x");
          check(a, b, c, d, f, s, arr, n);
          sneak(e);
        }
      }
      check(a, b, c, d, f, s, arr, n);
      log.add("l" + n.id + (ok ? "" : "x"));
      return 0;
    }
    private static void check(int a, int b, long c, double d, float f, String s, int[] arr, Node n) {
      if (a != n.id + 3 || b != n.id * 7 || c != (1L << (n.id & 31) | 5L << 40) + a || d != n.id * 0.25 || f != n.id
          || !s.equals("s" + n.id) || arr[0] != a || arr[1] != b) fail("locals changed at " + n.id);
    }
    private static void sneak(Throwable e) throws Exception {
      if (e instanceof Exception) throw (Exception) e;
      throw (Error) e;
    }
    int locals1(Node n) throws Exception {
      ArrayList<Integer> l = new ArrayList<Integer>();
      int i = 0;
      boolean ok = false;
      try {
        for (i = 0; i < 5; ++i) {
          l.add(i + n.id);
          if (i == 3) { exec(n.kids[0]); ok = true; }
        }
      } catch (Exception e) {
        if (i != 3 || l.size() != 4) fail("locals changed at " + n.id);
        if (n.b % 2 != 0) { log.add("l" + n.id + "x"); throw e; }
      } catch (Error e) {
        if (i != 3 || l.size() != 4) fail("locals changed at " + n.id);
        if (n.b % 2 != 0) { log.add("l" + n.id + "x"); throw e; }
      }
      if (l.get(3) != 3 + n.id) fail("list changed at " + n.id);
      if (ok && i != 5) fail("loop ended at " + i);
      log.add("l" + n.id + (ok ? "" : "x"));
      return i;
    }
    int locals2(Node n) throws Exception {
      long a = n.id, b = ~a;
      boolean ok = false, done = false;
      double x = 0.5;
      try {
        x = x * 3 + exec(n.kids[0]) * 0;
        ok = true;
      } finally {
        if (b != ~a || x != (ok ? 1.5 : 0.5)) fail("locals changed at " + n.id);
        log.add("l" + n.id + (ok ? "" : "x"));
        if (n.b % 2 == 0) return 1;
      }
      return 2;
    }
    int trap(Node n) throws Exception {
      int a = n.b;
      switch (n.a) {
      case 0: throw new Boom(n.id);
      case 1: throw new Checked(n.id);
      case 2: throw new Fatal(n.id);
      case 3: return nil.i;
      case 4: return nil.get();
      case 5: return nilInts[a];
      case 6: return nilInts.length;
      case 7: nil.l = 5L * a; return 0;
      case 8: synchronized (nilObjects) { return 1; }
      case 9: { RuntimeException e = n.b > 5 ? new Boom(1) : null; throw e; }
      case 10: return nilGo.go0(this, n);
      case 11: nilObjects[a] = n; return 2;
      case 12: return (int) nil.d + (nil.o == null ? 1 : 0);
      case 13: { int[] x = new int[a]; return x[a + (n.id & 3)]; }
      case 14: { Object[] x = new Object[4]; x[-1 - a] = n; return 0; }
      case 15: return 5 / zero;
      case 16: return (int) (5L / lzero);
      case 17: return a % zero;
      case 18: return (int) (-3L % lzero);
      case 19: return ((Integer) text).intValue();
      case 20: return new byte[-1 - a].length;
      case 21: return new Object[3][-1 - a].length;
      case 22: return a == 0 ? innerDeep(0) : a == 1 ? innerSync(1L, 2) : a == 2 ? innerFin(n) : innerGo(gos[0], n);
      case 23: if (a < 2) text.notify(); else text.wait(); return 1;
      case 24: return Integer.parseInt("x" + a);
      case 25: Class.forName("no.such.Class" + n.id); return 0;
      default:
        Thread.currentThread().interrupt();
        if (a == 0) { Object o = new Object(); synchronized (o) { o.wait(); } }
        else if (a == 1) Thread.sleep(1000000);
        else Thread.currentThread().join();
        return 0;
      }
    }
    int innerDeep(int k) { return innerDeep(k + 1) + 1; }
    synchronized int innerSync(long a, int b) { return innerSync(a + 1, b) + (int) a; }
    int innerFin(Node n) {
      ++deep;
      try {
        return innerFin(n) + 1;
      } finally {
        --deep;
      }
    }
    int innerGo(Go g, Node n) { return innerGo(g, n) + innerGo(g, n); }
    int leaf(Node n) {
      if (n.kind == GC) {
        Object[] o = new Object[n.a];
        for (int i = 0; i < o.length; ++i) o[i] = new int[i];
      } else if (n.a < 15) Sim.point();
      else if (n.a < 20) Thread.yield();
      log.add("." + n.id);
      return 1;
    }
  }

  void run() throws Exception {
    locks = new Lock[LOCKS];
    for (int i = 0; i < LOCKS; ++i) locks[i] = new Lock(i);
    classOwner = null;
    ids = 0;
    int nt = rng.between(1, 4);
    final Node[][] roots = new Node[nt][];
    final int[][] steps = new int[nt][];
    for (int i = 0; i < nt; ++i) {
      roots[i] = new Node[rng.between(1, 5)];
      steps[i] = new int[roots[i].length];
      for (int j = 0; j < roots[i].length; ++j) {
        steps[i][j] = step();
        roots[i][j] = make(rng, rng.between(2, 7), 0, rng.between(2, 3));
      }
    }
    T[] ts = new T[nt];
    for (int i = 0; i < nt; ++i) {
      final int id = i;
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int j = 0; j < roots[id].length; ++j)
            if (!skipped(steps[id][j])) one(roots[id][j]);
        }
      };
    }
    runAll(ts);
    for (int i = 0; i < LOCKS; ++i) {
      if (locks[i].depth != 0 || locks[i].owner != null) fail("lock " + i + " is left with depth " + locks[i].depth);
      final Lock l = locks[i];
      // free: anybody may take it
      T t = new T(99) {
        public void go() { synchronized (l) { synchronized (Exc.class) { } } }
      };
      t.start();
      t.join();
    }
  }
  static void one(Node root) throws Exception {
    Model m = new Model();
    Raised want = m.run(root);
    m.log.add(want == null ? "end" : caught(-1, want));
    Run r = new Run();
    try {
      r.exec(root);
      r.log.add("end");
    } catch (Throwable e) {
      r.log.add(caught(-1, e));
    }
    Thread.interrupted();
    for (int i = 0; i < LOCKS; ++i) if (Thread.holdsLock(locks[i])) fail("lock " + i + " is still held");
    if (Thread.holdsLock(Exc.class)) fail("the class is still locked");
    if (r.deep != 0) fail(r.deep + " finally blocks did not run");
    int n = Math.min(m.log.size(), r.log.size());
    for (int i = 0; i < n; ++i)
      if (!m.log.get(i).equals(r.log.get(i))) {
        fail("step " + i + " is " + r.log.get(i) + ", not " + m.log.get(i));
        return;
      }
    if (m.log.size() != r.log.size()) fail(r.log.size() + " steps, not " + m.log.size());
  }
}

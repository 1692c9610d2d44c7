package w;

import sim.Sim;
import java.io.*;
import java.lang.reflect.*;
import java.util.*;

/**
 * Class loading: a loader and a name give one Class, defined by the loader that delegation leads to, whoever asks
 * and however many ask at once; failures reach the caller and leave nothing behind.
 */
public class Load extends W {
  static final int MAX = 14;

  /** what the generated classes offer */
  public interface Api {
    int id();
    int use(int k);
    Object make(int k, int n);
    Class cls(int k);
    boolean is(int k, Object o);
  }

  // ---------------------------------------------------------------- the generated program
  static int n, ifaces;                 // classes 0..ifaces-1 are interfaces
  static int[] sup = new int[MAX];      // -1: Object
  static int[][] impl = new int[MAX][];
  static int[][] refs = new int[MAX][]; // two references each, to classes that are not interfaces
  static int[] pokes = new int[MAX];    // class that the initializer uses, below it, or -1
  static int[] sigs = new int[MAX];     // class named by the types of a field and a method

  static boolean isInterface(int j) { return j < ifaces; }
  static String name(int j) { return "p.P" + j; }
  static String path(int j) { return "p/P" + j; }

  static class Asm {
    ByteArrayOutputStream pool = new ByteArrayOutputStream();
    int count = 1;
    Map<String, Integer> seen = new HashMap<String, Integer>();
    static void u2(ByteArrayOutputStream o, int v) { o.write(v >> 8); o.write(v); }
    static void u4(ByteArrayOutputStream o, int v) { u2(o, v >>> 16); u2(o, v); }
    int utf(String s) {
      Integer i = seen.get("u" + s);
      if (i != null) return i;
      byte[] b = s.getBytes();
      pool.write(1);
      u2(pool, b.length);
      pool.write(b, 0, b.length);
      seen.put("u" + s, count);
      return count++;
    }
    int cls(String s) {
      Integer i = seen.get("c" + s);
      if (i != null) return i;
      int u = utf(s);
      pool.write(7);
      u2(pool, u);
      seen.put("c" + s, count);
      return count++;
    }
    int member(int tag, String c, String n, String d) {
      String key = tag + c + " " + n + d;
      Integer i = seen.get(key);
      if (i != null) return i;
      int ci = cls(c), ni = utf(n), di = utf(d);
      pool.write(12);
      u2(pool, ni);
      u2(pool, di);
      int nt = count++;
      pool.write(tag);
      u2(pool, ci);
      u2(pool, nt);
      seen.put(key, count);
      return count++;
    }
    ByteArrayOutputStream methods = new ByteArrayOutputStream(), fields = new ByteArrayOutputStream();
    int nm, nf;
    void field(int flags, String n, String d) {
      u2(fields, flags);
      u2(fields, utf(n));
      u2(fields, utf(d));
      u2(fields, 0);
      ++nf;
    }
    ByteArrayOutputStream c = new ByteArrayOutputStream();
    void op(int o) { c.write(o); }
    void op2(int o, int v) { c.write(o); u2(c, v); }
    void method(int flags, String n, String d, int stack, int locals) {
      byte[] b = c.toByteArray();
      c = new ByteArrayOutputStream();
      u2(methods, flags);
      u2(methods, utf(n));
      u2(methods, utf(d));
      if (b.length == 0) u2(methods, 0);
      else {
        u2(methods, 1);
        u2(methods, utf("Code"));
        u4(methods, 12 + b.length);
        u2(methods, stack);
        u2(methods, locals);
        u4(methods, b.length);
        methods.write(b, 0, b.length);
        u2(methods, 0);
        u2(methods, 0);
      }
      ++nm;
    }
    byte[] finish(int flags, String self, String sup, String[] is) {
      int s = cls(self), p = cls(sup);
      int[] ii = new int[is.length];
      for (int i = 0; i < ii.length; ++i) ii[i] = cls(is[i]);
      ByteArrayOutputStream o = new ByteArrayOutputStream();
      u4(o, 0xcafebabe);
      u2(o, 0);
      u2(o, 49);
      u2(o, count);
      byte[] b = pool.toByteArray();
      o.write(b, 0, b.length);
      u2(o, flags);
      u2(o, s);
      u2(o, p);
      u2(o, ii.length);
      for (int i = 0; i < ii.length; ++i) u2(o, ii[i]);
      u2(o, nf);
      b = fields.toByteArray();
      o.write(b, 0, b.length);
      u2(o, nm);
      b = methods.toByteArray();
      o.write(b, 0, b.length);
      u2(o, 0);
      return o.toByteArray();
    }
  }

  /** the class file of class j */
  static byte[] assemble(int j) {
    Asm a = new Asm();
    String self = path(j), top = sup[j] < 0 ? "java/lang/Object" : path(sup[j]);
    String[] is = new String[impl[j].length + (isInterface(j) || sup[j] >= 0 ? 0 : 1)];
    for (int i = 0; i < impl[j].length; ++i) is[i] = path(impl[j][i]);
    if (is.length > impl[j].length) is[impl[j].length] = "w/Load$Api";
    a.field(9, "s", "I");
    // <clinit>: use another class, then s = Load.init(this class)
    if (pokes[j] >= 0) {
      a.op2(178, a.member(9, path(pokes[j]), "s", "I"));
      a.op(87);
    }
    a.op2(19, a.cls(self)); // ldc_w
    a.op2(184, a.member(10, "w/Load", "init", "(Ljava/lang/Class;)I"));
    a.op2(179, a.member(9, self, "s", "I"));
    a.op(177);
    a.method(8, "<clinit>", "()V", 2, 0);
    if (isInterface(j)) {
      a.method(0x401, "i" + j, "()I", 0, 0);
      return a.finish(0x601, self, top, is);
    }
    String t = "L" + path(sigs[j]) + ";";
    a.field(1, "f", t);
    a.op(42);
    a.op2(183, a.member(10, top, "<init>", "()V"));
    a.op(177);
    a.method(1, "<init>", "()V", 1, 1);
    a.op2(17, 100 + j);
    a.op(172);
    a.method(1, "id", "()I", 1, 1);
    a.op(42);
    a.op2(180, a.member(9, self, "f", t));
    a.op(176);
    a.method(1, "sig" + j, "(" + t + "[" + t + ")" + t, 1, 3);
    for (int i = 0; i < ifaces; ++i) {
      a.op2(17, 200 + i);
      a.op(172);
      a.method(1, "i" + i, "()I", 1, 1);
    }
    for (int k = 0; k < 2; ++k) {
      String r = path(refs[j][k]);
      a.op2(187, a.cls(r));
      a.op(89);
      a.op2(183, a.member(10, r, "<init>", "()V"));
      a.op2(182, a.member(10, r, "id", "()I"));
      a.op2(178, a.member(9, r, "s", "I"));
      a.op(96);
      a.op(172);
      a.method(1, "use" + k, "()I", 3, 1);
      a.op(27);
      a.op2(189, a.cls(r));
      a.op(176);
      a.method(1, "arr" + k, "(I)Ljava/lang/Object;", 2, 2);
      a.op(27);
      a.op(27);
      a.op2(197, a.cls("[[L" + r + ";"));
      a.op(2);
      a.op(176);
      a.method(1, "multi" + k, "(I)Ljava/lang/Object;", 2, 2);
      a.op2(19, a.cls(r));
      a.op(176);
      a.method(1, "cls" + k, "()Ljava/lang/Class;", 1, 1);
      a.op(43);
      a.op2(193, a.cls(r));
      a.op(172);
      a.method(1, "is" + k, "(Ljava/lang/Object;)Z", 1, 2);
    }
    // the interface: branches on k
    String[][] m = {{"use", "(I)I", "", "()I"}, {"cls", "(I)Ljava/lang/Class;", "", "()Ljava/lang/Class;"},
      {"is", "(ILjava/lang/Object;)Z", "o", "(Ljava/lang/Object;)Z"}};
    for (int i = 0; i < m.length; ++i) {
      int ret = m[i][0].equals("cls") ? 176 : 172;
      boolean o = m[i][2].length() > 0;
      a.op(27);
      a.op2(154, 3 + 1 + (o ? 1 : 0) + 3 + 1); // ifne
      for (int k = 0; k < 2; ++k) {
        a.op(42);
        if (o) a.op(44);
        a.op2(182, a.member(10, self, m[i][0] + k, m[i][3]));
        a.op(ret);
      }
      a.method(1, m[i][0], m[i][1], 3, 3);
    }
    // make(k, n): k & 1 chooses the reference, k & 2 the kind of array
    for (int q = 0; q < 4; ++q) {
      if (q < 3) {
        a.op(27);
        a.op(3 + q);                       // iconst_q
        a.op2(160, 3 + 1 + 1 + 3 + 1);     // if_icmpne
      }
      a.op(42);
      a.op(28);
      a.op2(182, a.member(10, self, ((q & 2) == 0 ? "arr" : "multi") + (q & 1), "(I)Ljava/lang/Object;"));
      a.op(176);
    }
    a.method(1, "make", "(II)Ljava/lang/Object;", 3, 3);
    return a.finish(0x21, self, top, is);
  }

  // ---------------------------------------------------------------- what the generated classes report
  static Object lock = new Object();
  static Map<Class, Integer> started = new HashMap<Class, Integer>();
  static Map<Class, Boolean> ended = new HashMap<Class, Boolean>();
  static int[] pauses = new int[MAX];

  static int index(Class c) { return Integer.parseInt(c.getName().substring(3)); }

  public static int init(Class c) {
    int j = index(c);
    synchronized (lock) {
      if (started.containsKey(c)) fail("initializer of " + c.getName() + " ran twice");
      started.put(c, Sim.tid());
      Class s = c.getSuperclass();
      if (!isInterface(j) && sup[j] >= 0 && !ended.containsKey(s)) fail("initializer of " + c.getName() + " ran before its superclass's");
    }
    L l = (L) (ClassLoader) c.getClassLoader();
    if (!mayInit[l.me][j]) {
      StringBuilder sb = new StringBuilder();
      StackTraceElement[] st = new Throwable().getStackTrace();
      for (int i = 0; i < st.length; ++i) sb.append(" " + st[i].getClassName() + "." + st[i].getMethodName());
      fail(c.getName() + " of loader " + l.me + " is initialized though nothing uses it" + sb);
    }
    see(l, j, c);
    for (int i = 0; i < pauses[j]; ++i) Sim.point();
    synchronized (lock) {
      ended.put(c, true);
    }
    return 1000 * (l.me + 1) + j;
  }

  /** what a request leads to may be initialized, and defined, and nothing else */
  static boolean[][] mayInit, mayDefine;
  static void allowInit(L l, int j) {
    L d = l.definer(j);
    if (d == null || mayInit[d.me][j]) return;
    mayInit[d.me][j] = true;
    if (sup[j] >= 0) allowInit(d, sup[j]);
    if (pokes[j] >= 0) allowInit(d, pokes[j]);
  }
  static void allowDefine(L l, int j) {
    L d = l.definer(j);
    if (d == null || mayDefine[d.me][j]) return;
    mayDefine[d.me][j] = true;
    if (sup[j] >= 0) allowDefine(d, sup[j]);
    for (int i = 0; i < impl[j].length; ++i) allowDefine(d, impl[j][i]);
    if (pokes[j] >= 0) allowDefine(d, pokes[j]);
    if (isInterface(j)) return;
    allowDefine(d, sigs[j]);
    for (int i = 0; i < 2; ++i) allowDefine(d, refs[j][i]);
  }
  static void allow(L l, int j, int op, int k) {
    allowDefine(l, j);
    if (op == 2 || op >= 12 && !isInterface(j)) allowInit(l, j);
    // (Method.invoke may initialize the interface that declares the method)
    if (op == 17)
      for (L d = l; d != null; j = sup[j]) {
        d = d.definer(j);
        if (d != null) for (int i = 0; i < impl[j].length; ++i) allowInit(d, impl[j][i]);
        if (sup[j] < 0) break;
      }
    if (op == 12 && !isInterface(j) && l.definer(j) != null) allowInit(l.definer(j), refs[j][k & 1]);
  }

  // ---------------------------------------------------------------- loaders
  static class Flaw extends RuntimeException {
    Flaw(String m) { super(m); }
  }
  static L[] loaders;

  static class L extends ClassLoader {
    final int me, style; // 0: findClass only, 1: own first, synchronized, 2: loadClass overridden, plain delegation
    final L up;
    boolean[] has = new boolean[MAX];
    int[] flaws = new int[MAX]; // findClass fails that often, +100: by a RuntimeException, +200: by an Error
    int[] defined = new int[MAX];
    L(int me, L up, int style) {
      super(up == null ? Load.class.getClassLoader() : up);
      this.me = me;
      this.up = up;
      this.style = style;
    }
    protected Class findClass(String name) throws ClassNotFoundException {
      if (!name.startsWith("p.P")) throw new ClassNotFoundException(name);
      int j = Integer.parseInt(name.substring(3));
      byte[] b;
      synchronized (lock) {
        if (flaws[j] % 100 > 0) {
          --flaws[j];
          if (flaws[j] >= 200) throw new LinkageError("flaw " + name);
          if (flaws[j] >= 100) throw new Flaw(name);
          throw new ClassNotFoundException(name);
        }
        if (!has[j]) throw new ClassNotFoundException(name);
        if (defined[j] > 0) fail("loader " + me + " is asked to find " + name + " again");
      }
      if (pauses[j] > 1) Sim.point();
      if (!mayDefine[me][j]) fail("loader " + me + " is asked for " + name + " though nothing refers to it");
      Class c;
      b = bytes(j);
      int pad = j % 3 * 5;
      byte[] d = new byte[b.length + pad + 3];
      System.arraycopy(b, 0, d, pad, b.length);
      c = defineClass(name, d, pad, b.length);
      synchronized (lock) {
        if (++defined[j] > 1) fail("loader " + me + " defined " + name + " twice");
      }
      if (pauses[j] > 2) Thread.yield();
      return c;
    }
    protected Class loadClass(String name, boolean resolve) throws ClassNotFoundException {
      if (style == 0 || !name.startsWith("p.P")) return super.loadClass(name, resolve);
      synchronized (this) {
        Class c = findLoadedClass(name);
        if (c == null && style == 1) {
          int j = Integer.parseInt(name.substring(3));
          boolean mine;
          synchronized (lock) {
            mine = has[j];
          }
          if (mine) c = findClass(name);
        }
        if (c == null) c = super.loadClass(name, resolve);
        return c;
      }
    }
    Class loaded(String name) {
      return findLoadedClass(name);
    }
    /** another definition of what the loader has already */
    void again(int j) {
      byte[] b = bytes(j);
      try {
        defineClass(name(j), b, 0, b.length);
        fail("loader " + me + " accepted a second class " + name(j));
      } catch (LinkageError e) {
      }
    }
    boolean finds(int j) { return has[j]; }
    /** the loader that defines what this one gives for j */
    L definer(int j) {
      if (style == 1 && has[j]) return this;
      L d = up == null ? null : up.definer(j);
      return d != null ? d : has[j] ? this : null;
    }
    /** a request of j through this loader can fail */
    boolean shaky(int j) {
      return flawed[me][j] || up != null && up.shaky(j);
    }
  }
  static boolean[][] flawed;
  static byte[][] files = new byte[MAX][];
  static byte[] bytes(int j) { return files[j]; }

  /** loading j through l needs these too: can one of them fail? */
  static boolean risky(L l, int j) {
    if (l.shaky(j)) return true;
    L d = l.definer(j);
    if (d == null) return true;
    if (sup[j] >= 0 && risky(d, sup[j])) return true;
    for (int i = 0; i < impl[j].length; ++i) if (risky(d, impl[j][i])) return true;
    return false;
  }
  /** linking it, too */
  static boolean riskyLink(L l, int j, int depth) {
    if (risky(l, j)) return true;
    L d = l.definer(j);
    if (!isInterface(j) && risky(d, sigs[j])) return true;
    if (sup[j] >= 0 && riskyLink(d, sup[j], depth)) return true;
    for (int i = 0; i < impl[j].length; ++i) if (riskyLink(d, impl[j][i], depth)) return true;
    return false;
  }
  /** initializing it, too */
  static boolean riskyInit(L l, int j) {
    if (risky(l, j)) return true;
    L d = l.definer(j);
    if (pokes[j] >= 0 && riskyInit(d, pokes[j])) return true;
    return sup[j] >= 0 && riskyInit(d, sup[j]);
  }

  static Class[][] seen;
  /** the class that loader l gave for j */
  static void see(L l, int j, Class c) {
    if (c == null) {
      fail("loader " + l.me + " gave null for " + name(j));
      return;
    }
    if (!c.getName().equals(name(j))) fail("loader " + l.me + " gave " + c.getName() + " for " + name(j));
    L d = l.definer(j);
    if (d == null) {
      fail(name(j) + " came from nowhere");
      return;
    }
    ClassLoader by = c.getClassLoader();
    if (by != d) fail(name(j) + " asked from loader " + l.me + " was defined by " + (by instanceof L ? "" + ((L) by).me : "" + by) + ", not " + d.me);
    synchronized (lock) {
      if (seen[d.me][j] == null) seen[d.me][j] = c;
      if (seen[d.me][j] != c) fail("two classes " + name(j) + " of loader " + d.me);
    }
  }
  static void shape(L l, int j, Class c) {
    L d = l.definer(j);
    Class s = c.getSuperclass();
    if (isInterface(j)) {
      if (!c.isInterface()) fail(name(j) + " is no interface");
    } else if (sup[j] < 0) {
      if (s != Object.class) fail("superclass of " + name(j) + " is " + s);
    } else see(d, sup[j], s);
    Class[] is = c.getInterfaces();
    int own = 0;
    for (int i = 0; i < is.length; ++i) {
      if (is[i] == Api.class) continue;
      ++own;
      see(d, index(is[i]), is[i]);
    }
    if (own != impl[j].length) fail(name(j) + " has " + own + " interfaces, not " + impl[j].length);
  }

  /** an exception of a request; possible: something on its way may fail */
  static void failed(boolean possible, String what, Throwable e) {
    if (possible && acceptable(e)) return;
    StringBuilder sb = new StringBuilder(what + " failed: " + describe(e));
    for (Throwable x = e.getCause(); x != null; x = x.getCause()) sb.append(" / " + describe(x));
    fail(sb.toString());
  }
  static boolean acceptable(Throwable e) {
    for (int i = 0; e != null && i < 10; ++i, e = e.getCause()) {
      if (e instanceof ClassNotFoundException || e instanceof Flaw || e instanceof LinkageError) continue;
      if (e instanceof InvocationTargetException) continue;
      return false;
    }
    return true;
  }

  /** every request of the threads */
  static void request(L l, int j, int op, int k, boolean faults) throws Exception {
    String what = "request " + op + " of " + name(j) + " from loader " + l.me;
    if (l.definer(j) == null) {
      try {
        if ((op & 1) == 0) l.loadClass(name(j));
        else Class.forName(op % 4 == 1 ? name(j) : "[L" + name(j) + ";", true, l);
        fail(what + " found it");
      } catch (ClassNotFoundException e) {
        if (!faults && e.getCause() instanceof Error) failed(false, what, e);
      } catch (NoClassDefFoundError e) {
      } catch (Throwable e) {
        failed(faults, what, e);
      }
      return;
    }
    boolean r = faults && risky(l, j);
    try {
      Class c;
      switch (op) {
      case 0:
        c = l.loadClass(name(j));
        see(l, j, c);
        shape(l, j, c);
        return;
      case 1:
        r = r || faults && riskyLink(l, j, 0);
        c = Class.forName(name(j), false, l);
        see(l, j, c);
        return;
      case 2:
        r = r || faults && (riskyLink(l, j, 0) || riskyInit(l, j));
        c = Class.forName(name(j), true, l);
        see(l, j, c);
        inited(c);
        return;
      case 3: {
        r = r || faults && riskyLink(l, j, 0);
        Class a = Class.forName("[L" + name(j) + ";", false, l);
        see(l, j, a.getComponentType());
        array(a, l, j);
        return;
      }
      case 4: {
        r = r || faults && riskyLink(l, j, 0);
        Class a = Class.forName("[[L" + name(j) + ";", false, l);
        array(a.getComponentType(), l, j);
        see(l, j, a.getComponentType().getComponentType());
        return;
      }
      case 5: {
        c = l.loadClass(name(j));
        see(l, j, c);
        Object a = Array.newInstance(c, 3);
        array(a.getClass(), l, j);
        return;
      }
      case 6: { // reflection links
        c = l.loadClass(name(j));
        see(l, j, c);
        r = r || faults && (riskyLink(l, j, 0) || !isInterface(j) && riskyLink(l.definer(j), sigs[j], 0));
        Method[] ms = c.getDeclaredMethods();
        if (isInterface(j)) {
          if (ms.length != 1) fail(name(j) + " has " + ms.length + " methods");
        } else {
          for (int i = 0; i < ms.length; ++i)
            if (ms[i].getName().equals("sig" + j)) {
              see(l.definer(j), sigs[j], ms[i].getReturnType());
              Class[] ps = ms[i].getParameterTypes();
              see(l.definer(j), sigs[j], ps[0]);
              array(ps[1], l.definer(j), sigs[j]);
            }
          Field f = c.getDeclaredField("f");
          see(l.definer(j), sigs[j], f.getType());
        }
        return;
      }
      case 7: { // a superclass relation
        if (sup[j] < 0) return;
        c = l.loadClass(name(j));
        Class s = l.definer(j).loadClass(name(sup[j]));
        if (!s.isAssignableFrom(c)) fail(name(j) + " is not assignable to its superclass");
        return;
      }
      case 8: {
        Class before = l.loaded(name(j));
        if (before != null) see(l, j, before);
        c = l.loadClass(name(j));
        see(l, j, c);
        if (l.definer(j) == l && l.loaded(name(j)) != c) fail("findLoadedClass does not give " + name(j));
        if (before != null && before != c) fail("findLoadedClass gave another " + name(j));
        return;
      }
      case 9: { // defined already
        c = l.loadClass(name(j));
        see(l, j, c);
        l.definer(j).again(j);
        see(l, j, l.loadClass(name(j)));
        return;
      }
      case 10: { // nowhere to be found
        r = true;
        try {
          l.loadClass("p.Q" + j);
          fail("found a class that does not exist");
        } catch (ClassNotFoundException e) {
        }
        return;
      }
      case 11: {
        r = r || faults && riskyLink(l, j, 0);
        Class a = Class.forName("[Lp.P" + j + ";", false, l), b = Array.newInstance(l.loadClass(name(j)), 0).getClass();
        if (a != b) fail("two classes of arrays of " + name(j));
        return;
      }
      }
      // 12..: an instance, whose code refers to other classes
      if (isInterface(j)) return;
      r = r || faults && (riskyLink(l, j, 0) || riskyInit(l, j));
      c = l.loadClass(name(j));
      see(l, j, c);
      Api p = (Api) c.newInstance();
      inited(c);
      if (p.id() != 100 + j) fail("method of " + name(j) + " gave " + p.id());
      L d = l.definer(j);
      int t = refs[j][k & 1];
      r = r || faults && (riskyLink(d, t, 0) || riskyInit(d, t));
      switch (op) {
      case 12: {
        int v = p.use(k & 1), want = 100 + t + 1000 * (d.definer(t).me + 1) + t;
        if (v != want) fail(name(j) + " of loader " + d.me + " used " + name(t) + " and got " + v + ", not " + want);
        return;
      }
      case 13:
        see(d, t, p.cls(k & 1));
        return;
      case 14: {
        Object a = p.make(k & 1, 2);
        array(a.getClass(), d, t);
        if (Array.getLength(a) != 2) fail("wrong length");
        return;
      }
      case 15: {
        Object a = p.make(2 + (k & 1), 2);
        array(a.getClass().getComponentType(), d, t);
        Object[][] x = (Object[][]) a;
        for (int i = 0; i < 2; ++i) {
          array(x[i].getClass(), d, t);
          if (x[i].length != 2) fail("wrong inner length");
        }
        return;
      }
      case 16: {
        Object o = c.newInstance();
        boolean is = p.is(k & 1, o);
        boolean want = false;
        L dd = d;
        for (int x = j; x >= 0; x = sup[x]) {
          dd = dd.definer(x);
          if (x == t && dd == d.definer(t)) want = true;
        }
        if (is != want) fail("instanceof " + name(t) + " in " + name(j) + " gave " + is);
        return;
      }
      case 17: { // interfaces
        for (int x = j; x >= 0; x = sup[x])
          if (x < impl.length)
            for (int i = 0; i < impl[x].length; ++i) {
              L dx = d;
              for (int y = j; y != x; y = sup[y]) dx = dx.definer(sup[y]);
              Class in = dx.loadClass(name(impl[x][i]));
              if (!in.isInstance(p)) fail(name(j) + " is no instance of its interface");
              Integer v = (Integer) in.getMethod("i" + impl[x][i]).invoke(p);
              if (v != 200 + impl[x][i]) fail("interface method gave " + v);
            }
        return;
      }
      }
    } catch (Throwable e) {
      if (e instanceof OutOfMemoryError) throw (Error) e;
      failed(r, what, e);
    }
  }
  static void inited(Class c) {
    if (c.isInterface()) return;
    synchronized (lock) {
      if (!ended.containsKey(c)) {
        fail(c.getName() + " is used, its initializer " + (started.containsKey(c) ? "not finished" : "not run"));
      }
    }
  }
  static Class[][] arrays;
  static void array(Class a, L l, int j) {
    if (!a.isArray()) fail(a + " is no array");
    see(l, j, a.getComponentType());
    L d = l.definer(j);
    synchronized (lock) {
      if (arrays[d.me][j] == null) arrays[d.me][j] = a;
      if (arrays[d.me][j] != a) fail("two classes of arrays of " + name(j) + " of loader " + d.me);
    }
  }

  static void plan(boolean faults) {
    started = new HashMap<Class, Integer>();
    ended = new HashMap<Class, Boolean>();
    n = rng.between(5, MAX);
    ifaces = rng.between(0, 3);
    // classes from cut on are found by the loaders below a top one only
    int cut = rng.chance(50) ? n : rng.between(ifaces + 1, n);
    for (int j = 0; j < n; ++j) {
      int k = rng.below(3);
      if (isInterface(j)) {
        sup[j] = -1;
        impl[j] = j > 0 && k == 0 ? new int[] {rng.below(j)} : new int[0];
      } else {
        sup[j] = j > ifaces && k != 0 ? ifaces + rng.below(j - ifaces) : -1;
        if (ifaces > 0 && rng.chance(50)) impl[j] = new int[] {rng.below(ifaces)};
        else impl[j] = new int[0];
      }
      int from = j < cut ? cut : n;
      refs[j] = new int[] {ifaces + rng.below(from - ifaces), ifaces + rng.below(from - ifaces)};
      sigs[j] = rng.below(from);
      pokes[j] = j > ifaces && !isInterface(j) && rng.chance(30) ? ifaces + rng.below(j - ifaces) : -1;
      pauses[j] = rng.below(4);
      files[j] = assemble(j);
    }
    int nl = rng.between(1, 4);
    loaders = new L[nl];
    for (int i = 0; i < nl; ++i)
      loaders[i] = new L(i, i == 0 || rng.chance(20) ? null : loaders[rng.below(i)], rng.below(4) % 3);
    for (int j = 0; j < n; ++j) {
      int owner = rng.below(nl);
      for (int i = 0; i < nl; ++i) {
        L l = loaders[i];
        if (l.up == null ? j < cut : j >= cut && l.up.up == null || i == owner && j < cut) l.has[j] = true;
        if (l.style == 1 && l.up != null && rng.chance(40)) l.has[j] = true;
      }
    }
    flawed = new boolean[nl][MAX];
    if (faults)
      for (int i = 0; i < nl; ++i)
        for (int j = 0; j < n; ++j)
          if (rng.chance(12)) {
            // where another loader would take its place the failure is no ClassNotFoundException
            int kind = rng.below(3);
            for (int x = 0; x < nl; ++x) if (x != i && loaders[x].has[j]) kind = Math.max(kind, 1);
            loaders[i].flaws[j] = rng.between(1, 2) + 100 * kind;
            flawed[i][j] = true;
          }
    mayInit = new boolean[nl][MAX];
    mayDefine = new boolean[nl][MAX];
    seen = new Class[nl][MAX];
    arrays = new Class[nl][MAX];
  }

  /** requests of generated classes by threads */
  void generated(boolean faults) throws Exception {
    plan(faults);
    int nt = rng.between(2, 5);
    final int[][][] todo = new int[nt][][];
    int favourite = rng.below(n);
    for (int i = 0; i < nt; ++i) {
      todo[i] = new int[rng.between(1, 8)][];
      for (int s = 0; s < todo[i].length; ++s)
        todo[i][s] = new int[] {step(), rng.below(loaders.length), rng.chance(40) ? favourite : rng.below(n),
          rng.chance(25) ? 0 : rng.below(18), rng.below(4)};
      for (int s = 0; s < todo[i].length; ++s)
        allow(loaders[todo[i][s][1]], todo[i][s][2], todo[i][s][3], todo[i][s][4]);
    }
    T[] ts = new T[nt];
    for (int i = 0; i < nt; ++i) {
      final int id = i;
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int s = 0; s < todo[id].length; ++s) {
            int[] q = todo[id][s];
            if (skipped(q[0])) continue;
            Sim.hot(true);
            request(loaders[q[1]], q[2], q[3], q[4], flawsLeft);
            Sim.hot(false);
          }
        }
      };
    }
    flawsLeft = faults;
    runAll(ts);
    for (int i = 0; i < mayInit.length; ++i) {
      Arrays.fill(mayInit[i], true);
      Arrays.fill(mayDefine[i], true);
    }
    // once the failures are over everything can be had
    for (int i = 0; i < loaders.length; ++i) loaders[i].flaws = new int[MAX];
    flawsLeft = false;
    if (faults)
      for (int i = 0; i < loaders.length; ++i)
        for (int j = 0; j < n; ++j) request(loaders[i], j, 0, 0, false);
    else
      for (int j = 0; j < n; ++j) request(loaders[rng.below(loaders.length)], j, 12 + rng.below(6), rng.below(2), false);
  }
  static boolean flawsLeft;

  // ---------------------------------------------------------------- classes of the class path
  static final String[] SYS = {"java.util.TreeMap", "java.util.TreeSet", "java.util.ArrayDeque", "java.util.BitSet",
    "java.util.IdentityHashMap", "java.util.LinkedHashSet", "java.util.Random",
    "java.util.zip.CRC32", "java.util.zip.ZipFile", "java.util.logging.Logger", "java.io.RandomAccessFile",
    "java.io.StringWriter", "java.net.URL", "java.net.DatagramSocket", "java.nio.channels.DatagramChannel",
    "java.text.MessageFormat", "java.util.concurrent.LinkedBlockingQueue",
    "java.util.concurrent.FutureTask", "java.util.concurrent.atomic.AtomicReferenceArray", "java.util.regex.Pattern",
    "java.util.EnumSet", "w.CInit", "w.Refs", "w.Park", "w.Files", "w.Streams", "w.Net", "w.Life",
    "avian.Machine", "no.Such", "java.util.NoSuch", "w.NoSuch"};

  void system() throws Exception {
    int nt = rng.between(2, 5);
    final int[][][] todo = new int[nt][][];
    final int base = rng.below(SYS.length), span = rng.between(1, SYS.length);
    for (int i = 0; i < nt; ++i) {
      todo[i] = new int[rng.between(1, 8)][];
      for (int s = 0; s < todo[i].length; ++s)
        todo[i][s] = new int[] {step(), (base + rng.below(span)) % SYS.length, rng.below(7)};
    }
    final Map<String, Class> got = new HashMap<String, Class>();
    T[] ts = new T[nt];
    for (int i = 0; i < nt; ++i) {
      final int id = i;
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int s = 0; s < todo[id].length; ++s) {
            int[] q = todo[id][s];
            if (skipped(q[0])) continue;
            Sim.hot(true);
            one(SYS[q[1]], q[2]);
            Sim.hot(false);
          }
        }
        void one(String name, int op) throws Exception {
          boolean there = name.indexOf("Such") < 0;
          String asked = name;
          Class c;
          try {
            ClassLoader app = Load.class.getClassLoader();
            if (op == 0) c = app.loadClass(name);
            else if (op == 1) c = Class.forName(name);
            else if (op == 2) c = Class.forName(name, false, app);
            else if (op == 3) c = Class.forName(asked = "[L" + name + ";");
            else if (op == 4) c = Class.forName(asked = "[[[L" + name + ";");
            else if (op == 5) c = Class.forName("[L" + name + ";").getComponentType();
            else {
              asked = "[L" + name + ";";
              c = Array.newInstance(Class.forName(name), 1).getClass();
            }
          } catch (ClassNotFoundException e) {
            if (there) fail("not found: " + asked + " " + e.getMessage());
            return;
          } catch (NoClassDefFoundError e) {
            if (there) fail("not found: " + asked + " " + e.getMessage());
            return;
          }
          if (!there) fail("found " + name);
          if (!c.getName().equals(asked)) fail("asked for " + asked + " and got " + c.getName());
          synchronized (got) {
            Class b = got.get(asked);
            if (b == null) got.put(asked, c);
            else if (b != c) fail("two classes " + asked);
          }
          for (Class x = c; x != null; x = x.getSuperclass()) x.getInterfaces();
          if (!c.isArray() && !c.isInterface() && !Object.class.isAssignableFrom(c)) fail(asked + " is no Object");
        }
      };
    }
    runAll(ts);
  }

  void run() throws Exception {
    int m = param("m", 0);
    if (m == 1) system();
    else generated(param("err", 0) != 0);
  }
}

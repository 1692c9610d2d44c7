package w;

import sim.Sim;
import java.io.*;
import java.util.*;

/** The synchronized classes: each operation is atomic. */
public class Legacy extends LinW {
  static class E {
    final int v;
    E(int v) { this.v = v; }
    public int hashCode() { return v * 7; }
    public boolean equals(Object o) { return o instanceof E && ((E) o).v == v; }
  }
  static E e(long v) { return new E((int) v); }
  static long id(Object x) { return x == null ? 0 : ((E) x).v; }
  static long n(boolean b) { return b ? 1 : 0; }
  static long pack(Object[] a) {
    long r = 1;
    for (int i = 0; i < a.length; ++i) r = r * 67 + id(a[i]);
    return r;
  }
  static final int OUT = -9;
  static int kind;   // 0 Vector, 1 synchronizedList(ArrayList), 2 synchronizedList(LinkedList), 3 Stack
                     // 4 Hashtable, 5 synchronizedMap(HashMap), 6 synchronizedSet(HashSet), 7 StringBuffer, 8 ByteArrayOutputStream
  static List<E> l;
  static Map<E, E> m;
  static Set<E> s;
  static StringBuffer sb;
  static ByteArrayOutputStream bo;

  // lists: 0 add, 1 get(i), 2 set(i, x), 3 remove(i), 4 remove(x), 5 size, 6 indexOf, 7 contains, 8 add(i, x), 9 clear,
  // 10 isEmpty, 11 toArray, 12 addAll(two), 13 locked traversal, 14 locked check-then-add, 15 push, 16 pop, 17 peek, 18 lastIndexOf
  long list(int op, long a, long b) {
    try {
      switch (op) {
      case 0: return n(kind == 0 && a % 2 == 0 ? addElement(e(a)) : l.add(e(a)));
      case 1: return id(kind == 0 && b == 1 ? ((Vector<E>) l).elementAt((int) a) : l.get((int) a));
      case 2: return id(l.set((int) a, e(b)));
      case 3: return id(l.remove((int) a));
      case 4: return n(l.remove(e(a)));
      case 5: return l.size();
      case 6: return l.indexOf(e(a));
      case 7: return n(l.contains(e(a)));
      case 8: l.add((int) a, e(b)); return 1;
      case 9: l.clear(); return 0;
      case 10: return n(l.isEmpty());
      case 11: return pack(l.toArray());
      case 12: {
        ArrayList<E> x = new ArrayList<E>();
        x.add(e(a));
        x.add(e(b));
        l.addAll(x);
        return 1;
      }
      case 13: {
        ArrayList<E> x = new ArrayList<E>();
        synchronized (l) {
          for (Iterator<E> it = l.iterator(); it.hasNext(); ) {
            x.add(it.next());
            Sim.point();
          }
        }
        return pack(x.toArray());
      }
      case 14:
        synchronized (l) {
          if (l.contains(e(a))) return 0;
          Sim.point();
          l.add(e(a));
          return 1;
        }
      case 15: ((Stack<E>) l).push(e(a)); return 1;
      case 16: return id(((Stack<E>) l).pop());
      case 17: return id(((Stack<E>) l).peek());
      case 18: return l.lastIndexOf(e(a));
      case 23: {
        E[] x = l.toArray(new E[b % 2 == 0 ? 0 : 8]);
        int n = 0;
        while (n < x.length && x[n] != null) ++n;
        for (int i = n; i < x.length; ++i) if (x[i] != null) fail("toArray left a hole");
        Object[] y = new Object[n];
        System.arraycopy(x, 0, y, 0, n);
        return pack(y);
      }
      case 24: {
        Object[] x = new Object[40];
        ((Vector<E>) l).copyInto(x);
        int n = 0;
        while (n < x.length && x[n] != null) ++n;
        Object[] y = new Object[n];
        System.arraycopy(x, 0, y, 0, n);
        return pack(y);
      }
      case 25: return pack(((Vector<E>) ((Vector<E>) l).clone()).toArray());
      case 26: return n(l.removeAll(two(a, b)));
      case 27: return n(l.containsAll(two(a, b)));
      case 28: return n(l.addAll((int) a, two(b, b)));
      case 30: ((Vector<E>) l).setElementAt(e(b), (int) a); return 0;
      case 31: ((Vector<E>) l).removeElementAt((int) a); return 0;
      case 32: ((Vector<E>) l).insertElementAt(e(b), (int) a); return 1;
      case 33: return n(((Vector<E>) l).removeElement(e(a)));
      case 34: ((Vector<E>) l).removeAllElements(); return 0;
      case 35: return n(((Stack<E>) l).empty());
      }
    } catch (IndexOutOfBoundsException x) {
      return OUT;
    } catch (EmptyStackException x) {
      return OUT;
    }
    throw new IllegalStateException();
  }
  static ArrayList<E> two(long a, long b) {
    ArrayList<E> x = new ArrayList<E>();
    x.add(e(a));
    x.add(e(b));
    return x;
  }
  static boolean addElement(E e) {
    ((Vector<E>) l).addElement(e);
    return true;
  }

  // maps: as in CMap
  long map(int op, long a, long b) {
    switch (op) {
    case 0: return id(m.get(e(a)));
    case 1: return id(m.put(e(a), e(b)));
    case 5: return id(m.remove(e(a)));
    case 7: return n(m.containsKey(e(a)));
    case 8: return m.size();
    case 9: m.clear(); return 0;
    case 10: return n(m.isEmpty());
    case 11: return n(m.keySet().remove(e(a)));
    case 12: return n(m.keySet().contains(e(a)));
    case 14: return n(m.containsValue(e(b)));
    case 30: return n(m.values().remove(e(b)));
    case 31: return n(m.values().contains(e(b)));
    case 32: {
      HashMap<E, E> x = new HashMap<E, E>();
      x.put(e(a), e(b));
      x.put(e((a + 1) % 4), e(b));
      m.putAll(x);
      return 0;
    }
    case 33: {
      Object[] x = m.values().toArray();
      long r = x.length * 1000;
      for (int i = 0; i < x.length; ++i) r += id(x[i]);
      return r;
    }
    case 34: {
      Object[] x = m.keySet().toArray();
      long r = 0;
      for (int i = 0; i < x.length; ++i) r += CMap.pow((int) id(x[i]));
      return r;
    }
    case 35: return b == 1 ? m.keySet().size() : b == 2 ? m.values().size() : m.entrySet().size();
    case 36:
      if (m instanceof Hashtable) {
        long r = 0;
        synchronized (m) {
          for (Enumeration<E> x = ((Hashtable<E, E>) m).keys(); x.hasMoreElements(); ) {
            r += CMap.pow(x.nextElement().v);
            Sim.point();
          }
        }
        return r;
      } else {
        E[] x = m.keySet().toArray(new E[8]);
        long r = 0;
        for (int i = 0; i < x.length && x[i] != null; ++i) r += CMap.pow(x[i].v);
        return r;
      }
    case 37: m.keySet().clear(); return 0;
    case 38: {
      Object[] x = m.entrySet().toArray();
      long r = 0;
      for (int i = 0; i < x.length; ++i) r += CMap.pow(((Map.Entry<E, E>) x[i]).getKey().v);
      return r;
    }
    case 13: {
      long r = 0;
      synchronized (m) {
        for (Map.Entry<E, E> x : m.entrySet()) {
          r += x.getValue().v * CMap.pow(x.getKey().v);
          Sim.point();
        }
      }
      return r;
    }
    case 2:
      synchronized (m) {
        E old = m.get(e(a));
        Sim.point();
        if (old == null) m.put(e(a), e(b));
        return id(old);
      }
    }
    throw new IllegalStateException();
  }

  // sets: the map with all values 1
  long set(int op, long a, long b) {
    switch (op) {
    case 2: return n(!s.add(e(a)));
    case 5: return n(s.remove(e(a)));
    case 7: return n(s.contains(e(a)));
    case 8: return s.size();
    case 9: s.clear(); return 0;
    case 10: return n(s.isEmpty());
    case 34: {
      Object[] x = s.toArray();
      long r = 0;
      for (int i = 0; i < x.length; ++i) r += CMap.pow((int) id(x[i]));
      return r;
    }
    case 36: {
      E[] x = s.toArray(new E[8]);
      long r = 0;
      for (int i = 0; i < x.length && x[i] != null; ++i) r += CMap.pow(x[i].v);
      return r;
    }
    case 41: return n(s.addAll(two(a, (a + 1) % 4)));
    case 42: return n(s.containsAll(two(a, (a + 1) % 4)));
    case 43: return n(s.removeAll(two(a, (a + 1) % 4)));
    case 13: {
      long r = 0;
      synchronized (s) {
        for (E x : s) {
          r += CMap.pow(x.v);
          Sim.point();
        }
      }
      return r;
    }
    }
    throw new IllegalStateException();
  }

  // text: 0 append(char), 5 length, 1 charAt(i), 2 setCharAt(i, c), 3 deleteCharAt(i), 11 toString, 8 insert(i, c),
  // 12 append("xy"), 19 append(long text), 20 setLength(a), 21 substring
  static char c(long v) { return (char) (v + 32); }
  static long pack(String t) {
    long r = 1;
    for (int i = 0; i < t.length(); ++i) r = r * 67 + (t.charAt(i) - 32);
    return r;
  }
  static String word(long a) {
    char[] w = new char[20];
    for (int i = 0; i < 20; ++i) w[i] = c(a);
    return new String(w);
  }
  long text(int op, long a, long b) {
    try {
      switch (op) {
      case 0: sb.append(c(a)); return 1;
      case 1: return sb.charAt((int) a) - 32;
      case 2: sb.setCharAt((int) a, c(b)); return 0;
      case 3: sb.deleteCharAt((int) a); return 0;
      case 5: return sb.length();
      case 8: sb.insert((int) a, c(b)); return 1;
      case 11: return pack(sb.toString());
      case 12: sb.append(new String(new char[] {c(a), c(b)})); return 1;
      case 19: sb.append(word(a)); return 1;
      case 20: sb.setLength((int) a); return 0;
      case 21: return pack(sb.substring((int) a, (int) b));
      case 22: return pack(sb.subSequence((int) a, (int) b).toString());
      case 23: sb.delete((int) a, (int) b); return 0;
      case 24: sb.replace((int) a, (int) b, "=" + c(a)); return 0;
      case 6: return sb.indexOf(String.valueOf(c(a)));
      case 25: {
        char[] x = new char[4];
        sb.getChars((int) a, (int) b, x, 1);
        return pack(new String(x, 1, (int) (b - a)));
      }
      case 26: sb.insert((int) a, new String(new char[] {c(b), c(b)})); return 1;
      case 27: sb.append((int) a); return 1;
      case 28: sb.append(new char[] {c(a), c(b)}); return 1;
      case 29: sb.append(new StringBuffer().append(c(a)).append(c(b))); return 1;
      case 30: sb.append((Object) word(a)); return 1;
      case 31: sb.append((CharSequence) new StringBuilder().append(c(a)).append(c(b))); return 1;
      case 32: sb.append(new char[] {c(1), c(a), c(b)}, 1, 2); return 1;
      case 33: sb.append(a % 2 == 0); return 1;
      case 34: sb.append(1000000L * a); return 1;
      }
    } catch (IndexOutOfBoundsException x) {
      return OUT;
    }
    throw new IllegalStateException();
  }

  // bytes: 0 write, 5 size, 11 toByteArray, 12 write two, 19 write 20, 9 reset
  long bytes(int op, long a, long b) throws Exception {
    switch (op) {
    case 0: bo.write((int) a); return 1;
    case 5: return bo.size();
    case 9: bo.reset(); return 0;
    case 12: bo.write(new byte[] {(byte) a, (byte) b}, 0, 2); return 1;
    case 13: {
      ByteArrayOutputStream x = new ByteArrayOutputStream();
      bo.writeTo(x);
      return pack(bytes(x.toByteArray()));
    }
    case 14: return pack(bytes(bo.toString()));
    case 19: {
      byte[] x = new byte[20];
      for (int i = 0; i < 20; ++i) x[i] = (byte) a;
      bo.write(x);
      return 1;
    }
    case 11: {
      byte[] x = bo.toByteArray();
      long r = 1;
      for (int i = 0; i < x.length; ++i) r = r * 67 + x[i];
      return r;
    }
    }
    throw new IllegalStateException();
  }

  static String bytes(byte[] b) {
    char[] x = new char[b.length];
    for (int i = 0; i < b.length; ++i) x[i] = (char) (b[i] + 32);
    return new String(x);
  }
  static String bytes(String s) {
    char[] x = new char[s.length()];
    for (int i = 0; i < x.length; ++i) x[i] = (char) (s.charAt(i) + 32);
    return new String(x);
  }

  long apply(int me, int op, long a, long b) throws Exception {
    return kind < 4 ? list(op, a, b) : kind < 6 ? map(op, a, b) : kind == 6 ? set(op, a, b) : kind == 7 ? text(op, a, b) : bytes(op, a, b);
  }
  static int[] ops() {
    switch (kind) {
    case 0: return new int[] {0, 0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 18, 0, 12, 23, 24, 25, 26, 27, 28, 30, 31, 32, 33, 34};
    case 1: case 2: return new int[] {0, 0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 11, 12, 13, 13, 14, 18, 0, 12, 23, 26, 27, 28};
    case 3: return new int[] {15, 15, 15, 16, 16, 16, 17, 17, 5, 11, 35};
    case 4: case 5: return new int[] {0, 1, 1, 1, 5, 5, 7, 8, 9, 10, 11, 12, 13, 14, 2, 1, 1, 30, 30, 31, 32, 32, 33, 34, 35, 36, 37, 38};
    case 6: return new int[] {2, 2, 2, 5, 5, 7, 8, 9, 10, 13, 2, 34, 36, 41, 41, 42, 43, 43};
    case 7: return new int[] {0, 0, 1, 2, 3, 5, 8, 11, 12, 12, 19, 20, 21, 22, 23, 24, 6, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34};
    default: return new int[] {0, 0, 0, 5, 11, 11, 12, 12, 19, 9, 13, 14};
    }
  }
  int next = 1;
  long[] op(int t, int k) {
    int[] w = ops();
    int o = w[rng.below(w.length)];
    long a = 0, b = 0;
    if (kind >= 4 && kind <= 6) {
      a = rng.below(4);
      b = kind == 6 ? 1 : rng.between(1, 3);
    } else
      switch (kind == 7 && o >= 23 ? 100 + o : kind == 7 && o == 6 ? 4 : o) {
      case 123: case 124: case 125: a = rng.below(3); b = a + rng.below(3); break;
      case 126: a = rng.below(3); b = rng.between(1, 20); break;
      case 128: case 129: case 131: case 132: a = rng.between(1, 30); b = rng.between(1, 30); break;
      case 30: case 32: case 28: a = kind < 2 ? 0 : rng.below(3); b = rng.between(1, 20); if (o == 30) a = rng.below(3); break;
      case 31: a = rng.below(3); break;
      case 26: case 27: a = rng.between(1, 5); b = rng.between(1, 5); break;
      case 33: a = rng.between(1, 5); break;
      case 1: case 3: a = rng.below(4); b = rng.below(2); break;
      case 8: a = kind < 2 ? 0 : rng.below(3); b = rng.between(1, 20); break;
      case 2: a = rng.below(3); b = rng.between(1, 20); break;
      case 20: a = rng.below(3); break;
      case 21: case 22: a = rng.below(2); b = a + rng.below(4); break;
      case 4: case 6: case 7: case 18: a = rng.between(1, 5); break;
      default: a = rng.chance(50) ? rng.between(1, 5) : rng.between(6, 60); b = rng.between(1, 60);
      }
    return o(o, a, b);
  }
  void make() {
    l = null;
    switch (kind) {
    case 0: l = rng.chance(50) ? new Vector<E>() : new Vector<E>(1); break;
    case 1: l = Collections.synchronizedList(new ArrayList<E>()); break;
    case 2: l = Collections.synchronizedList(new LinkedList<E>()); break;
    case 3: l = new Stack<E>(); break;
    case 4: m = new Hashtable<E, E>(); break;
    case 5: m = Collections.synchronizedMap(new HashMap<E, E>()); break;
    case 6: s = Collections.synchronizedSet(new HashSet<E>()); break;
    case 7: sb = rng.chance(50) ? new StringBuffer() : new StringBuffer(2); break;
    case 8: bo = new ByteArrayOutputStream(); break;
    }
  }
  void lin() throws Exception {
    kind = rng.below(9);
    make();
    Sim.log("cfg legacy " + kind);
    int pre = rng.below(4);
    for (int i = 0; i < pre; ++i) {
      long[] o = op(9, i);
      record(9, (int) o[0], o[1], o[2]);
    }
    int n = rng.between(2, 3);
    runAll(threads(plan(n, 2, 6)));
    record(n, kind >= 4 && kind <= 6 ? 13 : 11, 0, 0);
    record(n, kind >= 4 && kind <= 6 ? 8 : 5, 0, 0);
  }

  // lines of different threads do not mix
  void print() throws Exception {
    final ByteArrayOutputStream o = new ByteArrayOutputStream();
    final PrintStream p = rng.chance(50) ? new PrintStream(o) : new PrintStream(new BufferedOutputStream(o), true);
    final StringWriter sw = new StringWriter();
    final PrintWriter pw = new PrintWriter(sw);
    final int n = rng.between(2, 4), per = rng.between(2, 8), len = rng.between(1, 60);
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i)
      ts[i] = new T(i) {
        public void go() {
          char[] c = new char[len];
          for (int k = 0; k < len; ++k) c[k] = (char) ('a' + me);
          String s = new String(c);
          for (int k = 0; k < per; ++k) {
            p.println(s + k);
            pw.println(s + k);
          }
        }
      };
    runAll(ts);
    p.flush();
    pw.flush();
    lines(new String(o.toByteArray()), n, per, len);
    lines(sw.toString(), n, per, len);
  }
  static void lines(String text, int n, int per, int len) {
    int[] next = new int[n];
    int at = 0, count = 0;
    while (at < text.length()) {
      int e = text.indexOf("\n", at);
      if (e < 0) fail("an incomplete line at the end");
      String l = text.substring(at, e);
      at = e + 1;
      ++count;
      if (l.length() != len + 1) fail("a line of length " + l.length() + " instead of " + (len + 1));
      int who = l.charAt(0) - 'a';
      for (int i = 0; i < len; ++i) if (l.charAt(i) != l.charAt(0)) fail("lines are mixed: " + l);
      if (l.charAt(len) != (char) ('0' + next[who]++)) fail("lines of a thread in another order: " + l);
    }
    if (count != n * per) fail(count + " lines of " + n * per);
  }

  // observers: each notification reaches every observer
  void observe() throws Exception {
    final int n = rng.between(2, 3), per = rng.between(1, 5);
    final int[] got = new int[n + 1];
    class Ob extends Observable {
      synchronized void change(Object x) {
        setChanged();
        notifyObservers(x);
      }
    }
    final Ob ob = new Ob();
    ob.addObserver(new Observer() {
        public void update(Observable o, Object x) {
          ++got[((Integer) x).intValue()];
        }
      });
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i)
      ts[i] = new T(i) {
        public void go() {
          Observer mine = new Observer() {
              public void update(Observable o, Object x) {}
            };
          for (int k = 0; k < per; ++k) {
            ob.addObserver(mine);
            ob.change(me);
            ob.deleteObserver(mine);
          }
        }
      };
    runAll(ts);
    for (int i = 0; i < n; ++i) if (got[i] != per) fail(got[i] + " notifications of " + per);
    if (ob.countObservers() != 1) fail(ob.countObservers() + " observers are left");
  }

  void warm() throws Exception {
    for (kind = 0; kind < 9; ++kind) {
      make();
      int[] w = ops();
      for (int i = 0; i < w.length; ++i) apply(0, w[i], 0, 1);
    }
  }
  void run() throws Exception {
    switch (param("m", 0)) {
    case 0: lin(); break;
    case 1: print(); break;
    case 2: observe(); break;
    }
  }
}

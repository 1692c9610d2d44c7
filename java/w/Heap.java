package w;

import sim.Sim;

/** Object graphs under collections at arbitrary points, checked against a shadow model made of ints. */
public class Heap extends W {
  static class Obj {
    int id;
    Obj(int id) { this.id = id; }
  }
  static class Pair extends Obj {
    byte pad;
    Object a;
    long x;
    Object b;
    double d;
    Pair(int id) { super(id); x = id * 77L; d = id / 2.0; pad = (byte) id; }
  }
  static class Fin extends Pair {
    Fin(int id) { super(id); }
    protected void finalize() {
      if (x != id * 77L) fail("finalizer sees a broken object");
      ++finalized;
    }
  }
  static volatile int finalized;
  static class Sub extends Pair implements Cloneable {
    Object c;
    char ch;
    Sub(int id) { super(id); ch = (char) id; }
    public Object clone() {
      try { return super.clone(); } catch (CloneNotSupportedException e) { fail("clone"); return null; }
    }
  }
  static class Wide extends Obj {
    Wide(int id) { super(id); }
    Object f0; int i0; long l0; byte b0;
    Object f1; int i1; long l1; byte b1;
    Object f2; int i2; long l2; byte b2;
    Object f3; int i3; long l3; byte b3;
    Object f4; int i4; long l4; byte b4;
    Object f5; int i5; long l5; byte b5;
    Object f6; int i6; long l6; byte b6;
    Object f7; int i7; long l7; byte b7;
    Object f8; int i8; long l8; byte b8;
    Object f9; int i9; long l9; byte b9;
    Object f10; int i10; long l10; byte b10;
    Object f11; int i11; long l11; byte b11;
    Object f12; int i12; long l12; byte b12;
    Object f13; int i13; long l13; byte b13;
    Object f14; int i14; long l14; byte b14;
    Object f15; int i15; long l15; byte b15;
    Object f16; int i16; long l16; byte b16;
    Object f17; int i17; long l17; byte b17;
    Object f18; int i18; long l18; byte b18;
    Object f19; int i19; long l19; byte b19;
    Object f20; int i20; long l20; byte b20;
    Object f21; int i21; long l21; byte b21;
    Object f22; int i22; long l22; byte b22;
    Object f23; int i23; long l23; byte b23;
    Object f24; int i24; long l24; byte b24;
    Object f25; int i25; long l25; byte b25;

    void set(int i, Object o, int v) {
      switch (i) {
      case 0: f0 = o; i0 = v; l0 = v * 3L; b0 = (byte) v; break;
      case 1: f1 = o; i1 = v; l1 = v * 3L; b1 = (byte) v; break;
      case 2: f2 = o; i2 = v; l2 = v * 3L; b2 = (byte) v; break;
      case 3: f3 = o; i3 = v; l3 = v * 3L; b3 = (byte) v; break;
      case 4: f4 = o; i4 = v; l4 = v * 3L; b4 = (byte) v; break;
      case 5: f5 = o; i5 = v; l5 = v * 3L; b5 = (byte) v; break;
      case 6: f6 = o; i6 = v; l6 = v * 3L; b6 = (byte) v; break;
      case 7: f7 = o; i7 = v; l7 = v * 3L; b7 = (byte) v; break;
      case 8: f8 = o; i8 = v; l8 = v * 3L; b8 = (byte) v; break;
      case 9: f9 = o; i9 = v; l9 = v * 3L; b9 = (byte) v; break;
      case 10: f10 = o; i10 = v; l10 = v * 3L; b10 = (byte) v; break;
      case 11: f11 = o; i11 = v; l11 = v * 3L; b11 = (byte) v; break;
      case 12: f12 = o; i12 = v; l12 = v * 3L; b12 = (byte) v; break;
      case 13: f13 = o; i13 = v; l13 = v * 3L; b13 = (byte) v; break;
      case 14: f14 = o; i14 = v; l14 = v * 3L; b14 = (byte) v; break;
      case 15: f15 = o; i15 = v; l15 = v * 3L; b15 = (byte) v; break;
      case 16: f16 = o; i16 = v; l16 = v * 3L; b16 = (byte) v; break;
      case 17: f17 = o; i17 = v; l17 = v * 3L; b17 = (byte) v; break;
      case 18: f18 = o; i18 = v; l18 = v * 3L; b18 = (byte) v; break;
      case 19: f19 = o; i19 = v; l19 = v * 3L; b19 = (byte) v; break;
      case 20: f20 = o; i20 = v; l20 = v * 3L; b20 = (byte) v; break;
      case 21: f21 = o; i21 = v; l21 = v * 3L; b21 = (byte) v; break;
      case 22: f22 = o; i22 = v; l22 = v * 3L; b22 = (byte) v; break;
      case 23: f23 = o; i23 = v; l23 = v * 3L; b23 = (byte) v; break;
      case 24: f24 = o; i24 = v; l24 = v * 3L; b24 = (byte) v; break;
      case 25: f25 = o; i25 = v; l25 = v * 3L; b25 = (byte) v; break;
      }
    }
    Object get(int i, int v) {
      switch (i) {
      case 0: return i0 == v && l0 == v * 3L && b0 == (byte) v ? f0 : this;
      case 1: return i1 == v && l1 == v * 3L && b1 == (byte) v ? f1 : this;
      case 2: return i2 == v && l2 == v * 3L && b2 == (byte) v ? f2 : this;
      case 3: return i3 == v && l3 == v * 3L && b3 == (byte) v ? f3 : this;
      case 4: return i4 == v && l4 == v * 3L && b4 == (byte) v ? f4 : this;
      case 5: return i5 == v && l5 == v * 3L && b5 == (byte) v ? f5 : this;
      case 6: return i6 == v && l6 == v * 3L && b6 == (byte) v ? f6 : this;
      case 7: return i7 == v && l7 == v * 3L && b7 == (byte) v ? f7 : this;
      case 8: return i8 == v && l8 == v * 3L && b8 == (byte) v ? f8 : this;
      case 9: return i9 == v && l9 == v * 3L && b9 == (byte) v ? f9 : this;
      case 10: return i10 == v && l10 == v * 3L && b10 == (byte) v ? f10 : this;
      case 11: return i11 == v && l11 == v * 3L && b11 == (byte) v ? f11 : this;
      case 12: return i12 == v && l12 == v * 3L && b12 == (byte) v ? f12 : this;
      case 13: return i13 == v && l13 == v * 3L && b13 == (byte) v ? f13 : this;
      case 14: return i14 == v && l14 == v * 3L && b14 == (byte) v ? f14 : this;
      case 15: return i15 == v && l15 == v * 3L && b15 == (byte) v ? f15 : this;
      case 16: return i16 == v && l16 == v * 3L && b16 == (byte) v ? f16 : this;
      case 17: return i17 == v && l17 == v * 3L && b17 == (byte) v ? f17 : this;
      case 18: return i18 == v && l18 == v * 3L && b18 == (byte) v ? f18 : this;
      case 19: return i19 == v && l19 == v * 3L && b19 == (byte) v ? f19 : this;
      case 20: return i20 == v && l20 == v * 3L && b20 == (byte) v ? f20 : this;
      case 21: return i21 == v && l21 == v * 3L && b21 == (byte) v ? f21 : this;
      case 22: return i22 == v && l22 == v * 3L && b22 == (byte) v ? f22 : this;
      case 23: return i23 == v && l23 == v * 3L && b23 == (byte) v ? f23 : this;
      case 24: return i24 == v && l24 == v * 3L && b24 == (byte) v ? f24 : this;
      case 25: return i25 == v && l25 == v * 3L && b25 == (byte) v ? f25 : this;
      }
      return this;
    }
  }
  static Object s0, s1, s2, s3;

  // shadow model: kind[k], id[k] and edges e[k][j] (slot number or -1), one table per thread
  static final int EDGES = 4;
  static final int PAIR = 0, FIN = 1, SUB = 2, WIDE = 3, OARR = 4, BIG = 5, IARR = 6, STR = 7, MULTI = 8, GONE = -1;
  static class Model {
    final int n;
    final Object[] slot;
    final int[] kind, id, hash;
    final int[][] e;        // ids of the objects the edges point to, -1 = null
    int next = 1;
    Model(int n) {
      this.n = n;
      slot = new Object[n];
      kind = new int[n];
      id = new int[n];
      hash = new int[n];
      e = new int[n][EDGES];
      for (int i = 0; i < n; ++i) clear(i);
    }
    void clear(int i) {
      slot[i] = null;
      kind[i] = GONE;
      hash[i] = 0;
      for (int j = 0; j < EDGES; ++j) e[i][j] = -1;
    }
    void make(int i, int k, int tid) {
      int d = tid * 10000 + next++;
      clear(i);
      switch (k) {
      case PAIR: slot[i] = new Pair(d); break;
      case FIN: slot[i] = new Fin(d); break;
      case SUB: slot[i] = new Sub(d); break;
      case WIDE: { Wide w = new Wide(d); for (int q = 0; q < 26; ++q) w.set(q, null, d); slot[i] = w; break; }
      case OARR: { Object[] a = new Object[EDGES + d % 5]; slot[i] = a; break; }
      case BIG: { Object[] a = new Object[9000 + d % 300]; slot[i] = a; break; }
      case IARR: { int[] a = new int[1 + d % 40]; for (int q = 0; q < a.length; ++q) a[q] = d + q; slot[i] = a; break; }
      case STR: slot[i] = "str" + d; break;
      case MULTI: { long[][] a = new long[3][d % 4]; for (int q = 0; q < 3; ++q) for (int w = 0; w < a[q].length; ++w) a[q][w] = d * 5L + q + w; slot[i] = a; break; }
      }
      kind[i] = k;
      id[i] = d;
    }
    static void put(Object o, int k, int j, Object v, int d) {
      switch (k) {
      case PAIR: case FIN: case SUB:
        Pair p = (Pair) o;
        if (j == 0) p.a = v;
        else if (j == 1) p.b = v;
        else if (j == 2 && k == SUB) ((Sub) o).c = v;
        break;
      case WIDE: ((Wide) o).set(j * 8, v, d); break;
      case OARR: ((Object[]) o)[j] = v; break;
      case BIG: ((Object[]) o)[j * 2900 + 7] = v; break;
      }
    }
    static boolean has(int k, int j) {
      switch (k) {
      case PAIR: case FIN: return j < 2;
      case SUB: return j < 3;
      case WIDE: case OARR: return j < EDGES;
      case BIG: return j < 3;
      default: return false;
      }
    }
    static Object peek(Object o, int k, int j, int d) {
      switch (k) {
      case PAIR: case FIN: case SUB:
        Pair p = (Pair) o;
        return j == 0 ? p.a : j == 1 ? p.b : ((Sub) o).c;
      case WIDE: return ((Wide) o).get(j * 8, d);
      case OARR: return ((Object[]) o)[j];
      default: return ((Object[]) o)[j * 2900 + 7];
      }
    }
    // the content of one object
    static boolean body(Object o, int k, int d) {
      switch (k) {
      case PAIR: case FIN: case SUB: {
        Pair p = (Pair) o;
        if (k == SUB && (o.getClass() != Sub.class || ((Sub) o).ch != (char) d)) return false;
        if (k == PAIR && o.getClass() != Pair.class) return false;
        return p.id == d && p.x == d * 77L && p.d == d / 2.0 && p.pad == (byte) d;
      }
      case WIDE: return ((Wide) o).id == d;
      case OARR: return ((Object[]) o).length == EDGES + d % 5;
      case BIG: {
        Object[] a = (Object[]) o;
        return a.length == 9000 + d % 300 && a[1] == null && a[8999] == null && a[5000] == null;
      }
      case IARR: {
        int[] a = (int[]) o;
        if (a.length != 1 + d % 40) return false;
        for (int q = 0; q < a.length; ++q) if (a[q] != d + q) return false;
        return true;
      }
      case STR: return o.equals("str" + d);
      case MULTI: {
        long[][] a = (long[][]) o;
        if (a.length != 3) return false;
        for (int q = 0; q < 3; ++q) {
          if (a[q].length != d % 4) return false;
          for (int w = 0; w < a[q].length; ++w) if (a[q][w] != d * 5L + q + w) return false;
        }
        return true;
      }
      }
      return o == null;
    }
    static boolean match(Object o, int want) {
      if (want < 0) return o == null;
      if (o == null) return false;
      if (o instanceof Obj) return ((Obj) o).id == want;
      return true;
    }
    void verify(String when) {
      for (int i = 0; i < n; ++i) {
        Object o = slot[i];
        if (kind[i] == GONE) {
          if (o != null) fail(when + ": empty slot holds an object");
          continue;
        }
        if (!body(o, kind[i], id[i])) fail(when + ": object of kind " + kind[i] + " has changed");
        if (hash[i] != 0 && System.identityHashCode(o) != hash[i]) fail(when + ": identity hash code changed, kind " + kind[i]);
        for (int j = 0; j < EDGES; ++j)
          if (has(kind[i], j)) {
            Object v = peek(o, kind[i], j, id[i]);
            if (!match(v, e[i][j])) fail(when + ": edge " + j + " of kind " + kind[i] + " is wrong");
            // an edge to a slot's object is that object
            for (int q = 0; q < n; ++q)
              if (e[i][j] >= 0 && kind[q] != GONE && id[q] == e[i][j] && slot[q] != v) fail(when + ": edge lost its identity, kind " + kind[i] + " to " + kind[q]);
          }
      }
    }
  }
  static int deep(int d, Object keep, int want, int seed) {
    Pair mine = new Pair(seed * 100 + d);
    mine.a = keep;
    long l = seed * 3L;
    int r = d == 0 ? 1 : deep(d - 1, mine, seed * 100 + d, seed) + 1;
    if (((Obj) mine).id != seed * 100 + d || l != seed * 3L) fail("local variable changed across a call");
    if (mine.a != keep) fail("field changed across a call");
    if (keep != null && ((Obj) keep).id != want) fail("parameter changed across a call");
    return r;
  }

  void run() throws Exception {
    final int threads = rng.between(1, 3);
    final Object[] box = new Object[3];
    final int[] boxId = {-1, -1, -1};
    T[] ts = new T[threads];
    for (int t = 0; t < threads; ++t) {
      final boolean age = rng.below(2) == 0;
      final int n = rng.between(3, 14), rounds = rng.between(5, 40);
      final int[] op = new int[rounds], x = new int[rounds], y = new int[rounds], z = new int[rounds];
      for (int r = 0; r < rounds; ++r) {
        op[r] = skipped(step()) ? -1 : rng.below(21);
        x[r] = rng.below(n);
        y[r] = rng.below(n);
        z[r] = rng.below(1000);
      }
      ts[t] = new T(t) {
        public void go() throws Exception {
          Model m = new Model(n);
          for (int i = 0; i < n; ++i) m.make(i, (i * 7 + me) % 9, me + 1);
          if (age) for (int r = 0; r < 4; ++r) System.gc();
          for (int r = 0; r < rounds; ++r) {
            int i = x[r], j = y[r], k = m.kind[i], d;
            switch (op[r]) {
            case 0: case 1: m.make(i, z[r] % 9, me + 1); break;
            case 2: case 3: case 4: case 5:
              d = z[r] % EDGES;
              if (k != GONE && Model.has(k, d)) {
                Model.put(m.slot[i], k, d, m.slot[j], m.id[i]);
                m.e[i][d] = m.kind[j] == GONE ? -1 : m.id[j];
              }
              break;
            case 6: m.clear(i); break;
            case 7:
              if (k == SUB) {
                Object c = ((Sub) m.slot[i]).clone();
                if (c == m.slot[i]) fail("clone is the same object");
                m.slot[i] = c;
                m.hash[i] = 0;
                int orig = m.id[i];
                for (int q = 0; q < n; ++q) for (int w = 0; w < EDGES; ++w) if (m.e[q][w] == orig) {
                  Model.put(m.slot[q], m.kind[q], w, c, m.id[q]);
                }
              } else if (k == OARR) {
                Object[] c = ((Object[]) m.slot[i]).clone();
                m.slot[i] = c;
                m.hash[i] = 0;
                for (int q = 0; q < n; ++q) for (int w = 0; w < EDGES; ++w) if (m.e[q][w] == m.id[i]) Model.put(m.slot[q], m.kind[q], w, c, m.id[q]);
              }
              break;
            case 8:
              if (k == OARR && m.kind[j] == OARR) {
                System.arraycopy(m.slot[j], 0, m.slot[i], 0, EDGES);
                for (int w = 0; w < EDGES; ++w) m.e[i][w] = m.e[j][w];
              } else if (k == BIG || k == OARR) {
                // copy or move within one array
                Object[] a = (Object[]) m.slot[i];
                int from = z[r] % 3, to = (from + 1 + (z[r] & 1)) % 3, q = k == BIG ? 2900 : 1, w = k == BIG ? 7 : 0;
                if ((z[r] & 2) != 0) {
                  // something young
                  Model.put(a, k, from, m.slot[j], m.id[i]);
                  m.e[i][from] = m.kind[j] == GONE ? -1 : m.id[j];
                }
                System.arraycopy(a, from * q + w, a, to * q + w, 1);
                m.e[i][to] = m.e[i][from];
                if ((z[r] & 4) != 0) {
                  a[from * q + w] = null;
                  m.e[i][from] = -1;
                }
              }
              break;
            case 9:
              if (k != GONE) {
                int h = System.identityHashCode(m.slot[i]);
                if (m.hash[i] != 0 && h != m.hash[i]) fail("identity hash code changed");
                m.hash[i] = h;
              }
              break;
            case 10: deep(z[r] % 20, null, 0, z[r] + 1); break;
            case 11:
              if (k != GONE)
                synchronized (m.slot[i]) {
                  Object o = m.slot[i];
                  byte[] g = new byte[z[r]];
                  o.notify();
                }
              break;
            case 12: System.gc(); break;
            case 13:
              // hand an object over to whoever takes it
              synchronized (box) {
                if (k == PAIR || k == SUB) {
                  int q = z[r] % 3;
                  Obj old = (Obj) box[q];
                  if (boxId[q] >= 0 && (old == null || old.id != boxId[q])) fail("object lost in a shared array");
                  box[q] = m.slot[i];
                  boxId[q] = m.id[i];
                }
              }
              break;
            case 14: {
              byte[][] g = new byte[10][];
              for (int w = 0; w < 10; ++w) g[w] = new byte[z[r]];
              break;
            }
            case 16: case 18: case 19: case 20:
              // a burst of stores of new objects into whatever is old
              for (int q = 0; q < n; ++q) {
                int b = (q + j) % n;
                d = (z[r] + q) % EDGES;
                if (q % 3 == 0) m.make(b, z[r] % 3, me + 1);
                if (m.kind[q] != GONE && Model.has(m.kind[q], d)) {
                  Model.put(m.slot[q], m.kind[q], d, m.slot[b], m.id[q]);
                  m.e[q][d] = m.kind[b] == GONE ? -1 : m.id[b];
                  if (op[r] >= 18 && (m.kind[q] == OARR || m.kind[q] == BIG)) {
                    // and on to another place of the same array
                    int to = (d + 1) % 3, f = m.kind[q] == BIG ? 2900 : 1, w = m.kind[q] == BIG ? 7 : 0;
                    if (d < 3) {
                      System.arraycopy(m.slot[q], d * f + w, m.slot[q], to * f + w, 1);
                      m.e[q][to] = m.e[q][d];
                      if (op[r] == 19) {
                        ((Object[]) m.slot[q])[d * f + w] = null;
                        m.e[q][d] = -1;
                      }
                    }
                  }
                }
              }
              break;
            case 17: {
              // several elements at once
              if (m.kind[j] == OARR && (k == OARR || k == BIG)) {
                int w = z[r] % 3;
                if (k == OARR) {
                  System.arraycopy(m.slot[j], 0, m.slot[i], 0, EDGES);
                  for (int q = 0; q < EDGES; ++q) m.e[i][q] = m.e[j][q];
                } else {
                  System.arraycopy(m.slot[j], 0, m.slot[i], w * 2900 + 7 - w, EDGES);
                  m.e[i][w] = m.e[j][w];
                }
              }
              break;
            }
            case 15:
              if (me == 0) {
                switch (z[r] & 3) {
                case 0: s0 = m.slot[i]; if (s0 != m.slot[i]) fail("static"); break;
                case 1: s1 = m.slot[i]; s2 = s0; byte[] g = new byte[100]; if (s1 != m.slot[i] || s2 != s0) fail("static"); break;
                case 2: s3 = new Object[] {s0, s1, s2}; break;
                case 3: s0 = s1 = s2 = s3 = null;
                }
              }
              break;
            }
            if ((z[r] & 7) == 0) Sim.point();
            if ((z[r] & 31) == 1) m.verify("after op " + op[r]);
          }
          m.verify("in the end");
          System.gc();
          m.verify("after the last collection");
        }
      };
    }
    runAll(ts);
    synchronized (box) {
      for (int q = 0; q < 3; ++q) if (boxId[q] >= 0 && ((Obj) box[q]).id != boxId[q]) fail("shared object changed");
    }
  }
  void warm() throws Exception {
    Model m = new Model(9);
    for (int i = 0; i < 9; ++i) m.make(i, i, 0);
    m.verify("warm");
    deep(2, null, 0, 1);
    ((Sub) m.slot[2]).clone();
    T t = new T(0) { public void go() {} };
    t.start();
    t.join();
  }
}

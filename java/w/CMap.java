package w;

import sim.Sim;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.ConcurrentMap;

/** ConcurrentHashMap: linearizable single operations, weakly consistent traversals. */
public class CMap extends LinW {
  static final int[] HASHES = {0, 1, -1, 2, Integer.MIN_VALUE, Integer.MAX_VALUE, 0x40000000, -0x40000000, 16, 32};
  static class K {
    final int id, hash;
    K(int id, int hash) { this.id = id; this.hash = hash; }
    public int hashCode() { return hash; }
    public boolean equals(Object o) { return o instanceof K && ((K) o).id == id; }
    public String toString() { return "k" + id; }
  }
  static class V {
    final int v;
    V(int v) { this.v = v; }
    public int hashCode() { return v; }
    public boolean equals(Object o) { return o instanceof V && ((V) o).v == v; }
  }
  static int[] hashes;
  static ConcurrentHashMap<K, V> m;
  static int keys, stable;

  static K k(long id) {
    return new K((int) id, hashes[(int) id]);
  }
  static V v(long x) {
    return new V((int) x);
  }
  static long id(V v) {
    return v == null ? 0 : v.v;
  }
  static long n(boolean b) {
    return b ? 1 : 0;
  }

  // 0 get, 1 put, 2 putIfAbsent, 3 replace, 4 replace(k, old, new), 5 remove, 6 remove(k, v), 7 containsKey, 8 size,
  // 9 clear, 10 isEmpty, 11 keySet().remove, 12 keySet().contains, 13 snapshot (values in key order), 14 containsValue
  long apply(int me, int op, long a, long b) throws Exception {
    switch (op) {
    case 0: return id(m.get(k(a)));
    case 1: return id(m.put(k(a), v(b)));
    case 2: return id(m.putIfAbsent(k(a), v(b)));
    case 3: return id(m.replace(k(a), v(b)));
    case 4: return n(m.replace(k(a), v(b / 10), v(b % 10)));
    case 5: return id(m.remove(k(a)));
    case 6: return n(m.remove(k(a), v(b)));
    case 7: return n(m.containsKey(k(a)));
    case 8: return m.size();
    case 9: m.clear(); return 0;
    case 10: return n(m.isEmpty());
    case 11: return n(m.keySet().remove(k(a)));
    case 12: return n(m.keySet().contains(k(a)));
    case 14: return n(m.containsValue(v(b)));
    case 13: {
      long r = 0;
      for (Iterator<Map.Entry<K, V>> it = m.entrySet().iterator(); it.hasNext(); ) {
        Map.Entry<K, V> e = it.next();
        r += e.getValue().v * pow(e.getKey().id);
        Sim.point();
      }
      return r;
    }
    }
    throw new IllegalStateException();
  }
  static long pow(int n) {
    long r = 1;
    while (n-- > 0) r *= 10;
    return r;
  }

  boolean bulk;
  int mix;
  long[] op(int thread, int step) {
    int r = rng.below(100), o;
    if (mix == 0) {
      int[] w = {0, 1, 1, 2, 2, 3, 4, 4, 5, 5, 6, 6, 7, 11, 12};
      o = w[r % w.length];
    } else if (mix == 1) {
      int[] w = {0, 1, 1, 2, 5, 5, 8, 8, 10, 9, 7, 3};
      o = w[r % w.length];
    } else {
      int[] w = {2, 2, 1, 4, 4, 4, 6, 6, 5, 3, 3};
      o = w[r % w.length];
    }
    long a = rng.below(keys);
    long b = rng.between(1, 3);
    if (o == 4) b = rng.between(1, 3) * 10 + rng.between(1, 3);
    return o(o, a, b);
  }

  void single() throws Exception {
    keys = rng.between(1, 4);
    mix = rng.below(3);
    m = rng.chance(50) ? new ConcurrentHashMap<K, V>() : new ConcurrentHashMap<K, V>(rng.between(1, 100));
    for (int i = 0; i < keys; ++i) {
      V x = rng.chance(40) ? v(rng.between(1, 3)) : null;
      if (x != null) {
        Sim.ev(9, 0, 1, i, x.v);
        Sim.ev(9, 1, 1, id(m.put(k(i), x)), 0);
      }
    }
    int n = rng.between(2, 3);
    T[] ts = threads(plan(n, 2, 6));
    runAll(ts);
    for (int i = 0; i < keys; ++i) record(n, 0, i, 0);
    record(n, 8, 0, 0);
    record(n, 13, 0, 0);
    record(n, 10, 0, 0);
    for (int i = 1; i < 4; ++i) record(n, 14, 0, i);
  }

  // many keys: each thread owns keys and knows what it put; iterators see untouched keys exactly once
  void owners() throws Exception {
    final int n = rng.between(2, 3), per = rng.between(3, 12);
    stable = rng.between(1, 6);
    final int total = n * per + stable;
    hashes = new int[total];
    boolean few = rng.chance(50);
    for (int i = 0; i < total; ++i)
      hashes[i] = few ? HASHES[rng.below(HASHES.length)] : rng.chance(30) ? HASHES[rng.below(HASHES.length)] : rng.next() * (rng.chance(50) ? 1 : -1);
    m = new ConcurrentHashMap<K, V>();
    final int s0 = n * per;
    for (int i = s0; i < total; ++i) m.put(k(i), v(1000 + i));
    final int[][] state = new int[n][per];
    T[] ts = new T[n + 1];
    for (int t = 0; t < n; ++t) {
      final int rounds = rng.between(5, 30);
      final int[] ops = new int[rounds], key = new int[rounds];
      for (int i = 0; i < rounds; ++i) {
        ops[i] = skipped(step()) ? -1 : rng.below(8);
        key[i] = rng.below(per);
      }
      ts[t] = new T(t) {
        public void go() throws Exception {
          int[] s = state[me];
          for (int i = 0; i < rounds; ++i) {
            if (ops[i] < 0) continue;
            int j = key[i], kk = me * per + j;
            int val = i + 1;
            long got = -1, want = s[j];
            switch (ops[i]) {
            case 0: case 1: got = id(m.put(k(kk), v(val))); s[j] = val; break;
            case 2: got = id(m.remove(k(kk))); s[j] = 0; break;
            case 3: got = id(m.get(k(kk))); break;
            case 4: got = id(m.putIfAbsent(k(kk), v(val))); if (s[j] == 0) s[j] = val; break;
            case 5: got = id(m.replace(k(kk), v(val))); if (s[j] != 0) s[j] = val; break;
            case 6: {
              boolean ok = m.replace(k(kk), v(s[j] == 0 ? 5000 : s[j]), v(val));
              got = n(ok);
              want = n(s[j] != 0);
              if (ok) s[j] = val;
              break;
            }
            default:
              got = n(m.remove(k(kk), v(s[j] == 0 ? 5000 : s[j])));
              want = n(s[j] != 0);
              s[j] = 0;
            }
            if (got != want) fail("operation " + ops[i] + " on a key only this thread uses gives " + got + " instead of " + want);
          }
        }
      };
    }
    final int passes = rng.between(1, 3);
    final int how = rng.below(3);
    ts[n] = new T(n) {
      public void go() throws Exception {
        for (int p = 0; p < passes; ++p) {
          int[] seen = new int[total];
          if (how == 0)
            for (Map.Entry<K, V> e : m.entrySet()) see(seen, e.getKey(), e.getValue(), s0);
          else if (how == 1)
            for (K key : m.keySet()) see(seen, key, null, s0);
          else {
            int c = 0;
            for (V x : m.values()) if (x.v >= 1000) ++c;
            if (c != stable) fail("a traversal of the values gives " + c + " of " + stable + " untouched mappings");
            continue;
          }
          for (int i = s0; i < total; ++i)
            if (seen[i] != 1) fail("a traversal gives an untouched key " + seen[i] + " times");
        }
      }
    };
    runAll(ts);
    int count = stable;
    for (int t = 0; t < n; ++t)
      for (int j = 0; j < per; ++j) {
        if (state[t][j] != 0) ++count;
        if (id(m.get(k(t * per + j))) != state[t][j])
          fail("key " + (t * per + j) + " has value " + id(m.get(k(t * per + j))) + " instead of " + state[t][j]);
      }
    for (int i = s0; i < total; ++i) if (id(m.get(k(i))) != 1000 + i) fail("an untouched mapping changed");
    if (m.size() != count) fail("size is " + m.size() + " for " + count + " mappings");
    int c = 0;
    for (K key : m.keySet()) ++c;
    if (c != count) fail("a traversal gives " + c + " of " + count + " mappings");
    // entries can be removed through the iterator
    for (Iterator<Map.Entry<K, V>> it = m.entrySet().iterator(); it.hasNext(); ) {
      Map.Entry<K, V> e = it.next();
      if (e.getKey().id % 2 == 0) it.remove();
    }
    for (int i = 0; i < total; ++i) {
      boolean had = i >= s0 || state[i / per][i % per] != 0;
      if (m.containsKey(k(i)) != (had && i % 2 != 0)) fail("after removal through an iterator key " + i + " is wrong");
    }
  }
  static void see(int[] seen, K key, V val, int s0) {
    if (++seen[key.id] > 1) fail("a traversal gives a key twice");
    if (val != null && key.id >= s0 && val.v != 1000 + key.id) fail("a traversal gives a wrong value");
    Sim.point();
  }

  void warm() throws Exception {
    hashes = new int[] {1, 1, 2, 3};
    m = new ConcurrentHashMap<K, V>();
    for (int o = 0; o < 15; ++o)
      for (int i = 0; i < 3; ++i) apply(0, o, i, 11);
    Iterator<K> it = m.keySet().iterator();
    m.put(k(1), v(1));
    for (V x : m.values()) x.hashCode();
  }
  void run() throws Exception {
    if (param("m", 0) == 0) {
      hashes = new int[4];
      int how = rng.below(3);
      for (int i = 0; i < 4; ++i)
        hashes[i] = how == 0 ? HASHES[rng.below(HASHES.length)] : how == 1 ? 7 : i * 16;
      single();
    } else
      owners();
  }
}

package w;

import sim.Sim;
import java.lang.ref.*;
import java.lang.reflect.*;
import java.util.*;

/**
 * String.intern: equal strings have one representative for as long as anybody has it; literals of all classes are
 * representatives; the table holds nothing back.
 */
public class Intern extends W {
  static int names;
  /** what the threads hold: by name, the representative and how many hold it */
  static String[] held;
  static int[] holders;
  static Object lock = new Object();

  static String text(int i) {
    StringBuilder sb = new StringBuilder(i % 3 == 0 ? "in" : i % 3 == 1 ? "tern" : "\u00e9");
    sb.append(i * 37 % 101);
    for (int k = 0; k < i % 7; ++k) sb.append((char) ('a' + k));
    if (i % 5 == 4) sb.append('\u4e2d');
    return sb.toString();
  }
  /** an equal string, made in one of several ways */
  static String make(int i, int how) {
    String s = text(i);
    switch (how) {
    case 0: return s;
    case 1: return new String(s.toCharArray());
    case 2: return ("x" + s + "y").substring(1, 1 + s.length());
    case 3: return new StringBuffer().append(s).toString();
    default: return s.concat("");
    }
  }
  static final String[] LITERALS = {"in0", "literal", "", "tern37", "\u00e974b\u4e2d".substring(0, 0) + "a", "in", "t"};
  static String literal(int k) {
    switch (k) {
    case 0: return "in0";
    case 1: return "literal";
    case 2: return "";
    case 3: return "another literal";
    case 4: return "\u4e2d\u6587";
    default: return "x";
    }
  }
  static class More {
    static String literal(int k) {
      switch (k) {
      case 0: return "in0";
      case 1: return "literal";
      case 2: return "";
      case 3: return "another literal";
      case 4: return "\u4e2d\u6587";
      default: return "x";
      }
    }
  }

  static void take(int i, String s, String r) {
    if (!r.equals(s)) fail("intern of " + s + " gave " + r);
    synchronized (lock) {
      if (held[i] == null) held[i] = r;
      else if (held[i] != r) fail("two representatives of " + s);
      ++holders[i];
    }
  }
  static void drop(int i) {
    synchronized (lock) {
      if (--holders[i] == 0) held[i] = null;
    }
  }

  void run() throws Exception {
    names = rng.between(1, 40);
    held = new String[names];
    holders = new int[names];
    // names in use that the threads give up meanwhile: first all together fill the table
    final String[] filled = new String[rng.chance(40) ? rng.between(10, 150) : 0];
    for (int i = 0; i < filled.length; ++i) filled[i] = ("fill" + i).intern();
    int nt = rng.between(2, 5);
    final int[][][] todo = new int[nt][][];
    for (int i = 0; i < nt; ++i) {
      todo[i] = new int[rng.between(1, 30)][];
      for (int s = 0; s < todo[i].length; ++s)
        todo[i][s] = new int[] {step(), rng.below(names), rng.below(100), rng.below(5), rng.below(3)};
    }
    T[] ts = new T[nt];
    for (int i = 0; i < nt; ++i) {
      final int id = i;
      ts[i] = new T(i) {
        public void go() throws Exception {
          String[] mine = new String[names];
          for (int s = 0; s < todo[id].length; ++s) {
            int[] q = todo[id][s];
            if (skipped(q[0])) continue;
            int i = q[1], op = q[2];
            if (op < 60) {
              String x = make(i, q[3]);
              Sim.hot(true);
              String r = x.intern();
              Sim.hot(false);
              take(i, x, r);
              if (mine[i] != null) {
                if (mine[i] != r) fail("intern gave a second object for " + x);
                drop(i);
              }
              mine[i] = r;
              if (r.intern() != r) fail("a representative is not its own");
              if (q[4] == 0) {
                mine[i] = null;
                x = null;
                r = null;
                drop(i);
              }
            } else if (op < 75) {
              if (mine[i] != null) {
                mine[i] = null;
                drop(i);
              }
            } else if (op < 90) {
              int k = i % 6;
              String l = literal(k);
              if (l != More.literal(k)) fail("literals of two classes differ: " + l);
              if (new String(l.toCharArray()).intern() != l) fail("a literal is not the representative: " + l);
            } else if (op < 96) {
              for (int k = q[3]; k < filled.length; k += 3) filled[k] = null;
            } else {
              // another thread's string
              String h;
              synchronized (lock) {
                h = held[i];
              }
              if (h != null && make(i, q[3]).intern() != h) fail("a held representative was replaced: " + h);
            }
          }
          for (int i = 0; i < names; ++i) if (mine[i] != null && mine[i] != make(i, i % 5).intern()) fail("a representative changed: " + mine[i]);
        }
      };
    }
    runAll(ts);
    for (int i = 0; i < filled.length; ++i)
      if (filled[i] != null && filled[i] != ("fil" + "l".charAt(0) + i).intern()) fail("a representative changed: " + filled[i]);
    // nothing is held back
    if (rng.chance(30)) {
      WeakReference<String>[] w = new WeakReference[5];
      for (int i = 0; i < w.length; ++i) w[i] = new WeakReference<String>(new String(("weak" + i).toCharArray()).intern());
      int left = w.length;
      for (int i = 0; i < 4 && left > 0; ++i) {
        System.gc();
        left = 0;
        for (int k = 0; k < w.length; ++k) if (w[k].get() != null) ++left;
      }
      if (left > 1) fail(left + " strings are held by the table alone");
    }
  }
}

package w;
/* generated by tools/genlink.py */
import java.lang.reflect.*;

public class L {
  interface Fn<T> { T f(T x); }
  interface Both<T extends Number> { T f(T x); }
  interface F1 { long f(int x); }
  interface Gn<A, B> { B f(A a); }
  interface Gn2<A, B, C> { C f(A a, B b); }
  interface ToL<A> { long f(A a); }
  interface ToD<A> { double f(A a); }
  interface IntL { long f(int x); }
  static long il(int x) { return x * 5000000007L; }
  static long wide(long x) { return x * 3; }
  static double dbl(double x) { return x / 7; }
  static int cube(int x) { return x * x * x; }
  static boolean not(boolean x) { return ! x; }
  static int bump(Integer... x) { return x.length * 100 + x[0]; }
  static long fn(F1 f, int p) { return f.f(p) ^ f.f(p + 1); }
  static long h(Object o) { return o.hashCode(); }
  static long name(Class c) { return c.getName().hashCode(); }
  static long len(Object[][] a) { return a.length * 10 + (a.length > 0 ? a[0].length : 9); }
  static long sw(int p) {
    switch (p) {
    case 0: return 3;
    case 1: return 4;
    case 2: return 50;
    case 4: return 7;
    case 1000: return 1;
    case -5: return 2;
    default: return p * 2;
    }
  }
  static long reflect(Object o, String m, int p) {
    try {
      Class c = o.getClass();
      while (true) {
        try {
          Method x = c.getDeclaredMethod(m, int.class);
          x.setAccessible(true);
          return (Long) x.invoke(o, p);
        } catch (NoSuchMethodException e) {
          c = c.getSuperclass();
        }
      }
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }
  static long construct(Class c, int p) {
    try {
      Constructor k = c.getDeclaredConstructor(int.class);
      k.setAccessible(true);
      return k.newInstance(p).getClass() == c ? 1 : 2;
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }
  static Object proxy(Class c) {
    return Proxy.newProxyInstance(L.class.getClassLoader(), new Class[] {c}, new InvocationHandler() {
      public Object invoke(Object proxy, Method m, Object[] a) {
        return (long) (m.getName().hashCode() + (Integer) a[0]);
      }
    });
  }
  static class Odd extends RuntimeException {
    final long v;
    Odd(long v) { this.v = v; }
  }
  static long v(byte x) { return x; }
  static long v(char x) { return x + 1; }
  static long v(short x) { return x + 2; }
  static long v(int x) { return x + 3; }
  static long v(long x) { return x + 4; }
  static long v(float x) { return Float.floatToIntBits(x); }
  static long v(double x) { return Double.doubleToLongBits(x); }
  static long v(boolean x) { return x ? 11 : 12; }
  static long v(String x) { return x == null ? 13 : x.hashCode(); }
  static long v(int[] x) { return x == null ? 15 : x.length * 100 + x[0]; }
  static long v(Object x) {
    if (x == null) return 16;
    if (x instanceof int[]) return v((int[]) x);
    // (hash codes of these differ between class libraries)
    if (x instanceof Boolean) return (Boolean) x ? 17 : 18;
    if (x instanceof Long) return (Long) x + 19;
    if (x instanceof Double) return Double.doubleToLongBits((Double) x) + 20;
    return x.hashCode() + x.getClass().getName().hashCode();
  }
  /** by reflection: a method of an object, or a static one of a class */
  static long call(Object o, String name, Object... a) {
    Class c = o instanceof Class ? (Class) o : o.getClass();
    for (Method m : c.getDeclaredMethods()) {
      if (! m.getName().equals(name) || m.isSynthetic()) continue;
      try {
        m.setAccessible(true);
        Object r = m.invoke(o instanceof Class ? null : o, a);
        return (r == null ? 16 : v(r)) + m.getParameterTypes().length;
      } catch (InvocationTargetException e) {
        if (e.getCause() instanceof Odd) throw (Odd) e.getCause();
        throw new RuntimeException(e);
      } catch (IllegalAccessException e) {
        throw new RuntimeException(e);
      }
    }
    throw new RuntimeException(name);
  }
  static long make(Class c, Object... a) {
    try {
      Constructor k = c.getDeclaredConstructors()[0];
      k.setAccessible(true);
      Object o = k.newInstance(a);
      Field f = c.getSuperclass().getDeclaredField("base");
      f.setAccessible(true);
      return f.getLong(o);
    } catch (InvocationTargetException e) {
      if (e.getCause() instanceof Odd) throw (Odd) e.getCause();
      throw new RuntimeException(e);
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }
  static long get(Object o, String name) {
    try {
      Field f = (o instanceof Class ? (Class) o : o.getClass()).getDeclaredField(name);
      f.setAccessible(true);
      return v(f.get(o instanceof Class ? null : o)) + f.getType().getName().hashCode();
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }
  static long set(Object o, String name, Object v) {
    try {
      Field f = o.getClass().getDeclaredField(name);
      f.setAccessible(true);
      f.set(o, v);
      return v(f.get(o)) + (f.getModifiers() & Modifier.VOLATILE);
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }
  static Object full(Class c) {
    return Proxy.newProxyInstance(L.class.getClassLoader(), new Class[] {c}, new InvocationHandler() {
      public Object invoke(Object proxy, Method m, Object[] a) {
        long r = m.getName().hashCode();
        if (a != null) for (Object x : a) r = r * 31 + v(x);
        if ((r & 15) == 5) throw new Odd(r);
        Class t = m.getReturnType();
        return t == void.class ? null : t == byte.class ? (Object) (byte) r : t == char.class ? (Object) (char) r : t == short.class ? (Object) (short) r
          : t == int.class ? (Object) (int) r : t == long.class ? (Object) r : t == float.class ? (Object) (float) r : t == double.class ? (Object) (double) r
          : t == boolean.class ? (Object) (r > 0) : t == String.class ? "p" + r : t == int[].class ? new int[] {(int) r} : (Object) r;
      }
    });
  }
  static long kind(LinkageError e) {
    return e instanceof NoSuchMethodError ? 11 : e instanceof NoSuchFieldError ? 13 : e instanceof IncompatibleClassChangeError ? 17
      : e instanceof NoClassDefFoundError ? 19 : 23;
  }
  static final int GROUPS = 40, ENTRIES = 8;
  static long run(int g, int e, int p) {
    switch (g) {
    case 0: return G0.run(e, p);
    case 1: return G1.run(e, p);
    case 2: return G2.run(e, p);
    case 3: return G3.run(e, p);
    case 4: return G4.run(e, p);
    case 5: return G5.run(e, p);
    case 6: return G6.run(e, p);
    case 7: return G7.run(e, p);
    case 8: return G8.run(e, p);
    case 9: return G9.run(e, p);
    case 10: return G10.run(e, p);
    case 11: return G11.run(e, p);
    case 12: return G12.run(e, p);
    case 13: return G13.run(e, p);
    case 14: return G14.run(e, p);
    case 15: return G15.run(e, p);
    case 16: return G16.run(e, p);
    case 17: return G17.run(e, p);
    case 18: return G18.run(e, p);
    case 19: return G19.run(e, p);
    case 20: return G20.run(e, p);
    case 21: return G21.run(e, p);
    case 22: return G22.run(e, p);
    case 23: return G23.run(e, p);
    case 24: return G24.run(e, p);
    case 25: return G25.run(e, p);
    case 26: return G26.run(e, p);
    case 27: return G27.run(e, p);
    case 28: return G28.run(e, p);
    case 29: return G29.run(e, p);
    case 30: return G30.run(e, p);
    case 31: return G31.run(e, p);
    case 32: return G32.run(e, p);
    case 33: return G33.run(e, p);
    case 34: return G34.run(e, p);
    case 35: return G35.run(e, p);
    case 36: return G36.run(e, p);
    case 37: return G37.run(e, p);
    case 38: return G38.run(e, p);
    case 39: return G39.run(e, p);
    default: throw new IllegalArgumentException();
    }
  }
  public static void main(String[] a) {
    for (int g = 0; g < GROUPS; ++g)
      for (int e = 0; e < ENTRIES; ++e)
        for (int p = 0; p < Integer.parseInt(a[0]); ++p) System.out.println(g + " " + e + " " + p + " " + out(g, e, p));
  }
  static Object out(int g, int e, int p) {
    try {
      return run(g, e, p);
    } catch (Throwable x) {
      x.printStackTrace();
      return x;
    }
  }

}

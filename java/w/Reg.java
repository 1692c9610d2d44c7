package w;

import sim.Sim;
import java.util.concurrent.atomic.*;
import sun.misc.Unsafe;

/** Atomic variables, volatile fields and Unsafe accesses as registers. */
public class Reg extends LinW {
  // operations: 0 get, 1 set, 2 compareAndSet(a, b), 3 getAndSet, 4 getAndAdd, 5 addAndGet,
  // 6 getAndIncrement, 7 decrementAndGet, 8 incrementAndGet, 9 getAndDecrement, 10 lazySet, 11 weakCompareAndSet
  static final long[] INTS = {0, 1, -1, Integer.MIN_VALUE, Integer.MAX_VALUE, 0x12345678};
  static final long[] LONGS = {0, 1, -1, Long.MIN_VALUE, Long.MAX_VALUE, 0x100000000L, 0x1234567800000000L,
                               0xffffffffL, -0x100000000L};
  static final Unsafe unsafe = Unsafe.getUnsafe();

  static class Box {
    final int id;
    int check;
    Box next;
    Box(int id) { this.id = id; check = id * 31 + 7; }
  }
  static Box[] boxes;
  static Box box(long v) {
    // sometimes a new object every time would break identity: objects are interned by number
    return v == 0 ? null : boxes[(int) v];
  }
  static long id(Object o) {
    if (o == null) return 0;
    Box b = (Box) o;
    if (b.check != b.id * 31 + 7) fail("object " + b.id + " damaged");
    if (boxes[b.id] != b) fail("another object with number " + b.id);
    return b.id;
  }

  static class Fields {
    char before = 0x5a5a;
    volatile byte vb;
    volatile boolean vz;
    volatile short vs;
    volatile char vc;
    byte guard1 = 0x33;
    volatile int vi;
    int guard2 = 0x44444444;
    volatile float vf;
    volatile long vl;
    volatile double vd;
    volatile Object vo;
    int guard3 = 0x55555555;
    void check() {
      if (before != 0x5a5a || guard1 != 0x33 || guard2 != 0x44444444 || guard3 != 0x55555555)
        fail("a neighbour of a volatile field changed");
    }
  }
  static volatile int svi;
  static volatile long svl;
  static volatile Object svo;
  static volatile byte svb;
  static volatile double svd;
  static volatile char svc;

  static Fields f;
  static AtomicInteger ai;
  static AtomicLong al;
  static AtomicBoolean ab;
  static AtomicReference<Box> ar;
  static AtomicReferenceArray<Box> aa;
  static int slots, slot;
  static int[] ia;
  static long[] la;
  static Object[] oa;
  static long ibase, lbase, obase, iscale, lscale, oscale;
  static long vbo, vzo, vso, vco, vio, vfo, vlo, vdo, voo;
  static int kind;

  static long off(String n) throws Exception {
    return unsafe.objectFieldOffset(Fields.class.getDeclaredField(n));
  }

  static boolean isRef(int k) {
    return k == 3 || k == 4 || k == 14 || k == 17 || k == 25 || k == 33;
  }
  static boolean rich(int k) {
    return k <= 1;
  }
  static boolean cas(int k) {
    return k <= 4 || k >= 23 && k <= 25 || k >= 31 && k <= 33;
  }
  static boolean isLong(int k) {
    return k == 1 || k == 12 || k == 16 || k == 24 || k == 32 || k == 13 || k == 19 || k == 29;
  }
  static int width(int k) {
    switch (k) {
    case 2: case 7: case 35: return 1;
    case 5: case 18: case 26: return 8;
    case 6: case 27: return 16;
    case 8: case 20: case 28: return 17;
    }
    return 32;
  }
  static final int[] KINDS = {
    0, 0, 1, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35};

  long value(int k) {
    if (isRef(k)) return rng.below(4);
    if (m == 1 && width(k) > 1) return rng.between(-1, 2);
    if (width(k) == 1) return rng.below(2);
    if (k == 9 || k == 30) return rng.between(-3, 3);
    if (isLong(k)) return rng.chance(60) ? LONGS[rng.below(LONGS.length)] : rng.between(-2, 2);
    long v = rng.chance(50) ? INTS[rng.below(INTS.length)] : rng.between(-2, 2);
    if (width(k) == 8) return (byte) v;
    if (width(k) == 16) return (short) v;
    if (width(k) == 17) return (char) v;
    return v;
  }

  long[] op(int thread, int k) {
    int o;
    if (m == 1)
      o = rich(kind) ? new int[] {2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11}[rng.below(11)] : new int[] {2, 2, 3, 3, 11}[rng.below(5)];
    else if (rich(kind))
      o = rng.below(12);
    else if (cas(kind)) {
      o = new int[] {0, 0, 1, 2, 2, 3, 10, 11}[rng.below(8)];
      if (kind >= 5 && (o == 3 || o == 11 || o == 10)) o = 2;
    } else
      o = rng.chance(50) ? 0 : 1;
    long a = value(kind), b = value(kind);
    if (rng.chance(30)) a = initial;
    return o(o, a | 0, b);
  }
  static long initial;
  static int m;

  static boolean z(long v) {
    return v != 0;
  }
  static long n(boolean v) {
    return v ? 1 : 0;
  }

  long apply(int me, int op, long a, long b) throws Exception {
    switch (kind) {
    case 0: {
      int x = (int) a, y = (int) b;
      switch (op) {
      case 0: return ai.get();
      case 1: ai.set(x); return 0;
      case 2: return n(ai.compareAndSet(x, y));
      case 3: return ai.getAndSet(x);
      case 4: return ai.getAndAdd(x);
      case 5: return ai.addAndGet(x);
      case 6: return ai.getAndIncrement();
      case 7: return ai.decrementAndGet();
      case 8: return ai.incrementAndGet();
      case 9: return ai.getAndDecrement();
      case 10: ai.lazySet(x); return 0;
      default: return n(ai.weakCompareAndSet(x, y));
      }
    }
    case 1:
      switch (op) {
      case 0: return al.get();
      case 1: al.set(a); return 0;
      case 2: return n(al.compareAndSet(a, b));
      case 3: return al.getAndSet(a);
      case 4: return al.getAndAdd(a);
      case 5: return al.addAndGet(a);
      case 6: return al.getAndIncrement();
      case 7: return al.decrementAndGet();
      case 8: return al.incrementAndGet();
      case 9: return al.getAndDecrement();
      case 10: al.lazySet(a); return 0;
      default: return n(al.weakCompareAndSet(a, b));
      }
    case 2:
      switch (op) {
      case 0: return n(ab.get());
      case 1: ab.set(z(a)); return 0;
      case 2: return n(ab.compareAndSet(z(a), z(b)));
      case 3: return n(ab.getAndSet(z(a)));
      case 10: ab.lazySet(z(a)); return 0;
      default: return n(ab.weakCompareAndSet(z(a), z(b)));
      }
    case 3:
      switch (op) {
      case 0: return id(ar.get());
      case 1: ar.set(box(a)); return 0;
      case 2: return n(ar.compareAndSet(box(a), box(b)));
      case 3: return id(ar.getAndSet(box(a)));
      case 10: ar.lazySet(box(a)); return 0;
      default: return n(ar.weakCompareAndSet(box(a), box(b)));
      }
    case 4:
      switch (op) {
      case 0: return id(aa.get(slot));
      case 1: aa.set(slot, box(a)); return 0;
      case 2: return n(aa.compareAndSet(slot, box(a), box(b)));
      case 3: return id(aa.getAndSet(slot, box(a)));
      case 10: aa.lazySet(slot, box(a)); return 0;
      default: return n(aa.weakCompareAndSet(slot, box(a), box(b)));
      }
    }
    boolean get = op == 0;
    switch (kind) {
    case 5: if (get) return f.vb; f.vb = (byte) a; return 0;
    case 6: if (get) return f.vs; f.vs = (short) a; return 0;
    case 7: if (get) return n(f.vz); f.vz = z(a); return 0;
    case 8: if (get) return f.vc; f.vc = (char) a; return 0;
    case 9: if (get) return (long) f.vf; f.vf = a; return 0;
    case 10: if (get) return f.vi; f.vi = (int) a; return 0;
    case 12: if (get) return f.vl; f.vl = a; return 0;
    case 13: if (get) return Double.doubleToRawLongBits(f.vd); f.vd = Double.longBitsToDouble(a); return 0;
    case 14: if (get) return id(f.vo); f.vo = box(a); return 0;
    case 15: if (get) return svi; svi = (int) a; return 0;
    case 16: if (get) return svl; svl = a; return 0;
    case 17: if (get) return id(svo); svo = box(a); return 0;
    case 18: if (get) return svb; svb = (byte) a; return 0;
    case 19: if (get) return Double.doubleToRawLongBits(svd); svd = Double.longBitsToDouble(a); return 0;
    case 20: if (get) return svc; svc = (char) a; return 0;
    case 23: {
      long o = ibase + slot * iscale;
      if (op == 2) return n(unsafe.compareAndSwapInt(ia, o, (int) a, (int) b));
      if (get) return unsafe.getIntVolatile(ia, o);
      unsafe.putIntVolatile(ia, o, (int) a);
      return 0;
    }
    case 24: {
      long o = lbase + slot * lscale;
      if (op == 2) return n(unsafe.compareAndSwapLong(la, o, a, b));
      if (get) return unsafe.getLongVolatile(la, o);
      unsafe.putLongVolatile(la, o, a);
      return 0;
    }
    case 25: {
      long o = obase + slot * oscale;
      if (op == 2) return n(unsafe.compareAndSwapObject(oa, o, box(a), box(b)));
      if (get) return id(unsafe.getObjectVolatile(oa, o));
      unsafe.putObjectVolatile(oa, o, box(a));
      return 0;
    }
    case 26: if (get) return unsafe.getByteVolatile(f, vbo); unsafe.putByteVolatile(f, vbo, (byte) a); return 0;
    case 27: if (get) return unsafe.getShortVolatile(f, vso); unsafe.putShortVolatile(f, vso, (short) a); return 0;
    case 28: if (get) return unsafe.getCharVolatile(f, vco); unsafe.putCharVolatile(f, vco, (char) a); return 0;
    case 29:
      if (get) return Double.doubleToRawLongBits(unsafe.getDoubleVolatile(f, vdo));
      unsafe.putDoubleVolatile(f, vdo, Double.longBitsToDouble(a));
      return 0;
    case 30: if (get) return (long) unsafe.getFloatVolatile(f, vfo); unsafe.putFloatVolatile(f, vfo, a); return 0;
    case 31:
      if (op == 2) return n(unsafe.compareAndSwapInt(f, vio, (int) a, (int) b));
      if (get) return f.vi;
      unsafe.putOrderedInt(f, vio, (int) a);
      return 0;
    case 32:
      if (op == 2) return n(unsafe.compareAndSwapLong(f, vlo, a, b));
      if (get) return f.vl;
      unsafe.putOrderedLong(f, vlo, a);
      return 0;
    case 33:
      if (op == 2) return n(unsafe.compareAndSwapObject(f, voo, box(a), box(b)));
      if (get) return id(f.vo);
      unsafe.putOrderedObject(f, voo, box(a));
      return 0;
    case 34: if (get) return unsafe.getIntVolatile(f, vio); f.vi = (int) a; return 0;
    case 35: if (get) return n(unsafe.getBooleanVolatile(f, vzo)); unsafe.putBooleanVolatile(f, vzo, z(a)); return 0;
    }
    throw new IllegalStateException();
  }

  void make() throws Exception {
    f = new Fields();
    ia = new int[slots];
    la = new long[slots];
    oa = new Object[slots];
    for (int i = 0; i < slots; ++i) {
      ia[i] = 77;
      la[i] = 77;
      oa[i] = boxes[5];
    }
    int i = (int) initial;
    ai = new AtomicInteger(i);
    al = new AtomicLong(initial);
    ab = new AtomicBoolean(z(initial));
    if (isRef(kind)) {
      ar = new AtomicReference<Box>(box(initial));
      aa = new AtomicReferenceArray<Box>(slots);
      for (int k = 0; k < slots; ++k) aa.set(k, boxes[5]);
    } else {
      ar = new AtomicReference<Box>();
      aa = new AtomicReferenceArray<Box>(1);
    }
    if (kind == 4) aa.set(slot, box(initial));
    else if (kind == 31) f.vi = i;
    else if (kind == 32) f.vl = initial;
    else if (kind == 33) f.vo = box(initial);
    else if (kind > 4) apply(0, 1, initial, 0);
  }

  static void unsafeOffsets() throws Exception {
    vbo = off("vb");
    vzo = off("vz");
    vso = off("vs");
    vco = off("vc");
    vio = off("vi");
    vfo = off("vf");
    vlo = off("vl");
    vdo = off("vd");
    voo = off("vo");
    ibase = unsafe.arrayBaseOffset(int[].class);
    iscale = unsafe.arrayIndexScale(int[].class);
    lbase = unsafe.arrayBaseOffset(long[].class);
    lscale = unsafe.arrayIndexScale(long[].class);
    obase = unsafe.arrayBaseOffset(Object[].class);
    oscale = unsafe.arrayIndexScale(Object[].class);
  }
  void warm() throws Exception {
    boxes = new Box[8];
    for (int i = 0; i < 8; ++i) boxes[i] = new Box(i);
    unsafeOffsets();
    slots = 3;
    for (int k = 0; k < 36; ++k) {
      kind = k;
      if (k == 11 || k == 21 || k == 22) continue;
      make();
      for (int o = 0; o < (rich(k) ? 12 : cas(k) ? 3 : 2); ++o) apply(0, o, 1, 1);
    }
  }

  void run() throws Exception {
    m = param("m", 0);
    kind = m == 1 ? rng.below(5) : KINDS[rng.below(KINDS.length)];
    slots = rng.between(1, 5);
    slot = rng.below(slots);
    initial = value(kind);
    make();
    int n = rng.between(2, 4);
    Sim.log("cfg reg " + initial + " " + (isLong(kind) ? 64 : 32) + " kind" + kind);
    final long[][][] ops = plan(n, 2, n > 3 ? 5 : 7);
    T[] ts = threads(ops);
    runAll(ts);
    record(n, 0, 0, 0);
    f.check();
    for (int k = 0; k < slots; ++k)
      if (k != slot && (ia[k] != 77 || la[k] != 77 || oa[k] != boxes[5] || kind == 4 && aa.get(k) != boxes[5]))
        fail("a neighbouring array element changed");
  }
}

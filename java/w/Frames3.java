package w;

/** Generated by tools/genframes.py. */
class Frames3 extends Frames {
  static long m75(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 29, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = -916997424L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 ^= Frames2.m73(c, i3, new Nd(three(c, (i0 ^ i2), new Nd2((int) -253719596685L, r3, (j1 % (j1 | 1L))), i3), r0));
    j0 ^= Frames2.m70(c, ((i0 & i3) + (i0 & i3)), link(c, new Nd((i0 <= (i0 << i3) ? i0 : (i2 + i1)), r1), r0));
    L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
      r0 = new Nd(i3, r3);
      synchronized (lk(c, r0)) {
        synchronized (lk(c, r1)) {
          a0[mk(c, i0, r0).get(i2) & 7] = (i3 - 7);
          i1 = i1;
          b0[i2 & 3] = left(r1);
          j0 ^= Frames2.m72(c, (a0[i0 & 7] << (int) j1), left(r2));
        }
      }
    }
    b0[(i3 + i0) & 3] = new Nd(i0, r0);
    i3 = i3;
    o0 = new int[] {i0, 3};
    L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
      j0 = (j0 ^ j0);
      synchronized (lk(c, r3)) {
        switch (100 & 7) {
        case 0:
          a0[sh(c, 31).get(i2) & 7] = i0;
        case 5:
          if ((r1 == null && r3 == r0)) break;
          s0 = cut(s0 + (char) (65 + (i1 & 15)));
          try {
            i1 = i1;
          } catch (RuntimeException e1) {
            i2 = i3 ^ code(e1);
            i0 = (((i1 >>> i0) * (i3 % (i3 | 1))) >> ((i1 + i1) <= i3 ? 7 : (i0 << i1)));
            i1 += -1;
            i2 += (i3 * i2);
          } finally {
            i0 = ((-1 << three(c, i0, r0, i2)) + ((short) s0.length()));
            i3 += i0;
            c.point();
            i1 = (i3 >>> i3);
          }
        case 4:
          r1 = r0;
        case 6:
          i1 += i2;
          i0 += v(r0);
          b0[1000 & 3] = new Nd(((i0 & i2) % (i2 | 1)), r3);
          break;
        }
      }
      i2 = i2;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m76(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 54, i2 = c.fuel & 15, i3 = 9;
    long j0 = p * 1000003L, j1 = -439944911L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      {
        Nd t2_0 = mk(c, (o0 instanceof Nd ? i3 : v(r3)), r3);
        Nd t2_1 = new Nd2((int) j0, r0, ((j1 - j0) + (j0 & j1)));
        j0 = j0 * 31 + t2_0.lg(c, (j1 & j1), left(r0));
        t2_0.v = r2 != null ? 1 : 0;
        t2_1.l = link(c, new Nd(((i3 ^ i3) % ((int) j0 | 1)), r2), new Nd2(i2, r2, (j1 ^ j1)));
        t2_0.l = link(c, left(r2), left(r3));
        i1 ^= chain(t2_0);
        i3 ^= chain(t2_1);
      }
      a0[(i0 & i0) & 7] = ((int) j0 & (int) j1);
    }
    c.point();
    i3 = i1;
    i1 = i0;
    f0 = f0 * 0.5f + (float) ((i0 % (i3 | 1)) & 1023);
    try {
      d1 = d0;
    } catch (RuntimeException e1) {
      i1 = i1 ^ code(e1);
      L3: for (int q3 = 0; q3 < 3 && --c.fuel > 0; ++q3) {
        j1 = (long) i3;
        i0 = 5;
      }
      L4: for (int q4 = 0; q4 < 3 && --c.fuel > 0; ++q4) {
        j1 = ((-736413237975L + 332375031497L) % (j1 | 1L));
        synchronized (lk(c, r0)) {
          o0 = new int[] {(i0 + 31), 3};
          d0 = d1;
          i0 = (int) j0;
          s0 = cut(s0 + (char) (65 + (i2 & 15)));
        }
        r3 = new Nd(v(new Nd2(i1, r3, j1)), r3);
      }
      j0 ^= Frames3.m75(c, i1, r3);
      i2 += (i0 ^ i3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m77(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 75, i2 = c.fuel & 15, i3 = -7;
    long j0 = p * 1000003L, j1 = 649562453L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    a0[v(r1) & 7] = -2147483647;
    j0 = (long) (int) j0;
    o0 = s0;
    j1 = (-323738806202L & (sl(c, r3, j0, 7) - j0));
    j1 = (mk(c, v(r3), r2).lg(c, (j1 - j0), null) - (long) (i3 >> i1));
    c.point();
    b0[(i0 / (i0 | 1)) & 3] = new Nd(((char) ((byte) i0)), r1);
    r0 = new Nd2((1 - mk(c, i1, r2).get(i1)), r0, j1);
    j0 = j1;
    switch (i3) {
    case 100000:
      r2 = r1;
      r2 = new Nd2(7, null, j0);
      {
        Nd t1_0 = new Nd(((i0 >> i3) >>> (int) j0), r3);
        Nd t1_1 = mk(c, ((i0 - i2) % (sh(c, i0).get(i3) | 1)), r0);
        i3 += three(c, (i3 ^ i2), t1_0, t1_0.get((i3 & i2)));
        i1 += three(c, i1, t1_1, t1_0.get(i3));
        i3 ^= chain(t1_0);
        i3 ^= chain(t1_1);
      }
      a0[v(r2) & 7] = i2;
      break;
    case -5:
      {
        Nd t2_0 = mk(c, ((i1 >> i0) ^ i1), r2);
        Nd t2_1 = new Nd(i3, null);
        j1 = j1 * 31 + sl(c, t2_1, (long) i2, (i2 + (i1 % (i1 | 1))));
        r3 = link(c, r1, new Nd(t2_0.v, r2));
        j1 = j1 * 31 + sl(c, t2_0, j1, 2147483647);
        d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, (j1 % (j0 | 1L)), r3));
        j1 = j1 * 31 + sl(c, t2_1, (long) a0[i2 & 7], ((r1 == null ? i2 : i1) & i3));
        i0 ^= chain(t2_0);
        i1 ^= chain(t2_1);
      }
      break;
    case 0:
      f0 = f0 * 0.5f + (float) ((i0 / (i2 | 1)) & 1023);
      a0[(i0 - i2) & 7] = i0;
      if ((i1 / (i0 | 1)) > (i0 / (i1 | 1))) return fin(c, j1, i0, r3);
      break;
    default:
      c.point();
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m78(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 23, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = 616670168L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r0 = new Nd(v(((true && 7 < 100) ? r3 : r1)), r2);
    try {
      r1 = new Nd2((a0[i0 & 7] + i0), r3, (j1 - sl(c, new Nd2(v(((i2 + i2) == v(r0) ? r2 : r0)), r0, j1), j1, (i2 & i1))));
    } catch (RuntimeException e1) {
      i0 = i2 ^ code(e1);
      r3 = new Nd(0, null);
    }
    r3 = r3;
    a0[-9125 & 7] = ((i1 ^ i0) + (int) j1);
    i2 = 100;
    d1 = ((d0 * d0) * (d0 * d0));
    r1 = r1;
    i0 = 5;
    L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
      h0 = sh(c, i0);
    }
    i2 = (int) j0;
    c.point();
    i1 = (int) j0;
    L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
      synchronized (lk(c, r2)) {
        r0 = new Nd2(h0.get((i2 >> i1)), r2, j0);
      }
      i0 = (i2 / (31 | 1));
      switch (i1) {
      case 0:
        b0[i3 & 3] = null;
        break;
      case 1000:
        {
          Nd t3_0 = new Nd(s0.length(), r1);
          j0 = j0 * 31 + sl(c, t3_0, (j1 / (j1 | 1L)), (i0 << v(r0)));
          j0 = j0 * 31 + t3_0.lg(c, (j1 + j0), new Nd(i2, null));
          i2 += three(c, (i1 + i2), t3_0, t3_0.get(100));
          r2 = link(c, r3, new Nd(t3_0.v, r1));
          t3_0.v = r2 == null ? 1 : 0;
          i0 ^= chain(t3_0);
        }
        b0[(int) j0 & 3] = new Nd(i3, r0);
        i3 = (int) j0;
        i2 += mk(c, i2, r3).get(i0);
        break;
      case -100:
        i2 += ((j0 - j0) <= (j1 - j0) ? i0 : i0);
        i3 = i0;
        break;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m79(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 64, i2 = c.fuel & 15, i3 = -6;
    long j0 = p * 1000003L, j1 = -909281452L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    d1 = (double) (i0 & i2);
    d0 = (double) s0.length();
    {
      Nd t1_0 = mk(c, v(new Nd((i2 / (i0 | 1)), r3)), null);
      Nd t1_1 = new Nd(i0, r1);
      i1 += three(c, 65535, t1_1, t1_0.get((i3 % (i1 | 1))));
      r2 = link(c, r3, new Nd(t1_0.v, r3));
      r0 = link(c, r1, new Nd(t1_0.v, r3));
      i2 ^= chain(t1_0);
      i2 ^= chain(t1_1);
    }
    j0 ^= Frames2.m72(c, i1, null);
    i0 = (i1 - i0);
    j1 = -438035997614L;
    i0 = (i1 ^ ((int) j0 - (i2 << i1)));
    L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
      i2 = (int) 189263968254L;
      synchronized (lk(c, r1)) {
        o0 = new int[] {sh(c, a0[i0 & 7]).get((i3 % (i2 | 1))), 3};
        if ((r0 == null && (i3 >>> i0) > i1)) break L2;
        if (d0 < d0) continue L2;
      }
    }
    r0 = b0[i2 & 3];
    i3 = (three(c, a0[i1 & 7], left(r1), (i1 + i2)) >> mk(c, h0.get(i1), r1).get((i2 >> i3)));
    j0 = ((i0 / (i0 | 1)) <= (-1 == i0 ? i2 : i0) ? j1 : ((j0 ^ j1) >>> (i2 - i3)));
    r0 = new Nd(v(new Nd2((i3 ^ -1), r2, j0)), null);
    switch (i0) {
    case 77:
      b0[i1 & 3] = r1;
      j0 ^= Frames3.m78(c, s0.length(), r2);
      L3: for (int q3 = 0; q3 < 3 && --c.fuel > 0; ++q3) {
        j0 ^= Frames2.m72(c, (i0 << (i0 - i3)), new Nd(three(c, a0[i2 & 7], new Nd(h0.get((i0 ^ i2)), null), 3), r2));
        s0 = cut(s0 + j1);
        s0 = cut(s0 + (char) (65 + (i1 & 15)));
      }
      i0 = i1;
    case 100000:
      r2 = b0[i0 & 3];
      r3 = r1;
      L4: for (int q4 = 0; q4 < 2 && --c.fuel > 0; ++q4) {
        {
          Nd t5_0 = mk(c, (int) (j1 - sl(c, null, j1, (i2 >>> i2))), r0);
          Nd t5_1 = mk(c, i0, r3);
          j1 = j1 * 31 + sl(c, t5_0, (j1 - j1), s0.length());
          t5_1.v = r0 == r0 ? 1 : 0;
          i1 ^= chain(t5_0);
          i2 ^= chain(t5_1);
        }
        b0[i0 & 3] = new Nd2(((i2 & i2) - (i0 - i0)), r1, (j0 >>> (i3 / (i0 | 1))));
        s0 = cut(s0 + "x");
      }
      r1 = new Nd(i2, null);
    case 1000:
      i0 = ((i3 + s0.length()) - s0.length());
      j0 ^= Frames2.m69(c, 2147483647, new Nd((i1 - i0), null));
      break;
    default:
      if ((r1 == null || (r2 != r2 && (i2 == (i0 >> i1) ? i1 : i1) > (i1 + i3)))) return fin(c, j1, i0, r3);
      if (j1 != (j0 / (j0 | 1L))) return fin(c, j1, i0, r2);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m80(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 40, i2 = c.fuel & 15, i3 = 6;
    long j0 = p * 1000003L, j1 = -373416554L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    s0 = cut(s0 + (mk(c, i3, r3).get(i1) ^ mk(c, i1, r2).get(i0)));
    r1 = r2;
    j0 ^= Frames3.m76(c, 3, r1);
    d1 = (double) v(r3);
    synchronized (lk(c, r0)) {
      if ((j0 + sl(c, link(c, r1, r1), j0, ((char) i2))) != (long) (i0 + i1)) {
        j1 = ((j0 / ((j1 - sl(c, left(r3), j1, (i3 * i0))) | 1L)) << i2);
        j0 ^= Frames2.m71(c, v(r3), r3);
        j0 ^= Frames3.m75(c, (((j0 - j1) > j1 ? i0 : i3) * (i3 * i0)), new Nd(i0, null));
        L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
          try {
            i0 += ((char) i3);
          } catch (Ex e1) {
            i1 = i2 ^ code(e1);
            i1 += i1;
            h0 = sh(c, i2);
            i2 += i3;
          } catch (NegativeArraySizeException e2) {
            i1 = i3 ^ code(e2);
            j0 = (((j1 * j0) * j1) + j0);
            i2 += v(r0);
          } catch (ClassCastException e3) {
            i3 = i1 ^ code(e3);
            j0 = mk(c, (i3 - i1), r0).lg(c, (long) d0, r1);
            i2 += v(r2);
            j1 = ((j0 - (j1 ^ sl(c, r1, j0, a0[i1 & 7]))) >>> (i0 & i0));
            s0 = cut(s0 + "x");
          } finally {
            i0 += i3;
            a0[0 & 7] = i2;
            i0 += (i1 % (i2 | 1));
          }
          if ((r2 instanceof Nd || r2 != null)) break;
          i0 = 100;
        }
      }
      i2 = (int) 165614006520L;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m81(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 31, i2 = c.fuel & 15, i3 = 1;
    long j0 = p * 1000003L, j1 = 1084686L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    s0 = cut(s0 + (j1 - j1));
    {
      Nd t1_0 = new Nd2(i0, r2, j0);
      i2 += three(c, i0, t1_0, t1_0.get((i1 & i1)));
      r3 = link(c, r2, new Nd(t1_0.v, r3));
      i2 ^= chain(t1_0);
    }
    d1 = d1;
    j1 = -108302701936L;
    j0 = (long) d0;
    j1 = (j1 % ((long) (i0 >> i3) | 1L));
    L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
      switch (i2) {
      case 77:
        i1 = a0[7 & 7];
        i1 = a0[i1 & 7];
        break;
      case 0:
        c.point();
        {
          Nd t3_0 = new Nd2(i1, r0, j0);
          j0 = j0 * 31 + sl(c, t3_0, j0, ((i2 >> i1) - (int) j1));
          i2 = (d0 <= d0 ? t3_0 : t3_0).get(i2) + v(t3_0);
          i0 ^= chain(t3_0);
        }
      case -5:
        r0 = new Nd(i0, r1);
        r1 = new Nd(((i0 + i2) >>> s0.length()), r1);
        d1 = ((double) 0 * (d0 - d1));
        break;
      case -100:
        i2 = (int) j0;
        r2 = r3;
        break;
      case 1000:
        try {
          r1 = (j0 != j1 ? new Nd(v(new Nd2((i0 << i0), r2, mk(c, (int) j1, r2).lg(c, j0, new Nd((i2 << i0), r3)))), null) : null);
        } catch (ClassCastException e1) {
          i2 = i2 ^ code(e1);
          i3 = (a0[7 & 7] + i3);
          {
            Nd t4_0 = new Nd((int) j1, r1);
            Nd t4_1 = new Nd(((i3 + i0) >> s0.length()), r2);
            j0 = j0 * 31 + t4_0.lg(c, (j0 - j0), (i3 != i0 ? r3 : r2));
            d1 = d1 * 0.5 + dl(c, t4_0, d0, t4_0.lg(c, -654222566877L, r1));
            j1 = j1 * 31 + t4_0.lg(c, j1, (r3 == r3 ? r3 : r2));
            i3 ^= chain(t4_0);
            i2 ^= chain(t4_1);
          }
        } catch (NullPointerException e2) {
          i0 = i1 ^ code(e2);
          h0 = sh(c, (mk(c, i1, r0).get(i3) + (i2 << i1)));
          try {
            r2 = r2;
            i1 += three(c, i3, r0, i0);
          } catch (ClassCastException e3) {
            i3 = i2 ^ code(e3);
            r3 = b0[i0 & 3];
            i0 += i0;
            i1 += 100;
            i2 += (i0 ^ i1);
          } catch (ArrayIndexOutOfBoundsException e4) {
            i0 = i2 ^ code(e4);
            i3 = ((char) (int) j1);
            r1 = ((r1 != r0 && r3 == r3) ? r0 : r0);
            i0 += -1;
          } catch (NegativeArraySizeException e5) {
            i3 = i1 ^ code(e5);
            b0[(i2 - i1) & 3] = new Nd(s0.length(), r3);
            i2 += (i0 / (i3 | 1));
          } finally {
            i1 += (i0 >> i3);
            i0 = i0;
            i0 += i0;
          }
          s0 = cut(s0 + i1);
          i3 += (i3 + i1);
        } catch (NegativeArraySizeException e6) {
          i3 = i1 ^ code(e6);
          i0 = (((i1 / (i1 | 1)) >>> (i3 ^ i0)) + ((i1 + i2) + i2));
          i0 += (i1 << i2);
          i3 += s0.length();
          f0 = f0 * 0.5f + (float) (i1 & 1023);
        } catch (RuntimeException e7) {
          i2 = i0 ^ code(e7);
          i0 += ((byte) i1);
          i0 += (i1 >>> i2);
        } finally {
          i3 = 65535;
          i3 += 0;
          i1 = s0.length();
        }
        h0 = sh(c, v(r2));
        a0[i0 & 7] = ((i0 * i2) / ((i1 & i0) | 1));
        break;
      default:
        i0 = (i2 / ((i1 + (i0 + i1)) | 1));
        if ((r2 == null || i0 < (i1 >> i1))) break L2;
        b0[7 & 3] = r3;
        s0 = cut(s0 + -4172);
      }
      j0 = ((r0 != null ? j1 : -985439190181L) + ((j1 - j1) - (j0 ^ j1)));
      r2 = new Nd(((i2 * i0) ^ i3), null);
      r1 = left(r2);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m82(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 73, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = -60152379L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    r1 = r2;
    r2 = left(r2);
    synchronized (lk(c, r0)) {
      a0[(i1 & i0) & 7] = i1;
      j0 = j0;
      j0 = 206440603308L;
      if ((d1 >= d0 || ((j0 + j0) != (j1 ^ j1) || r0 == r1))) {
        r2 = new Nd((int) j0, r1);
        r2 = link(c, r3, left(r3));
        j1 = j0;
        a0[v(r2) & 7] = ((int) j0 - i1);
      } else {
        b0[(i2 >> i1) & 3] = r1;
        switch (mk(c, (i0 << i0), r3).get(i1) & 7) {
        case 4:
          a0[mk(c, i1, r0).get(i3) & 7] = ((i3 + i0) * (i2 / (i3 | 1)));
          switch (i3) {
          case 3:
            j1 = sl(c, (r2 != null ? r1 : r2), ((long) i0 ^ (j1 >>> (i0 - i1))), v(r0));
            i3 += 3;
            o0 = new int[] {a0[i2 & 7], 3};
            r3 = null;
            break;
          case 100000:
            r0 = new Nd2(mk(c, (i1 & i2), r2).get(i1), null, (j0 + j0));
            if (65535 >= (i3 + i1)) return fin(c, j1, i0, r1);
          case 1000:
            a0[i1 & 7] = i2;
          case 0:
            i3 = (-1 % (-2147483647 | 1));
            i1 += (i3 ^ i2);
            break;
          case -100:
            i0 = a0[65535 & 7];
            r0 = b0[a0[i1 & 7] & 3];
            j0 = (long) (i0 << i3);
            b0[i1 & 3] = r0;
          default:
            i1 = (int) (true ? (long) mk(c, i0, r3).get(i1) : (j0 - j1));
            j0 ^= Frames3.m77(c, 5, null);
          }
          j1 = (((long) (int) j0 >>> i1) + (long) (i3 ^ i2));
          break;
        case 6:
          i0 = ((int) j1 + (100 << i1));
          if ((i3 % (i3 | 1)) < -1) return fin(c, j1, i0, r2);
          i0 += (i0 >> i3);
          break;
        default:
          i2 = ((i0 >> (i0 + i2)) / (((i2 + i1) != ((byte) i3) ? s0.length() : (i0 - i3)) | 1));
        }
        j0 ^= Frames2.m71(c, 1, new Nd2((i1 / ((i0 * i3) | 1)), r0, (j0 << (i0 + i0))));
        i2 += i1;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m83(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 30, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = 873024615L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i1 = (((i0 - i0) * (i3 - i3)) << a0[(i1 ^ i2) & 7]);
    if (r1 != null) {
      {
        Nd t1_0 = new Nd2(i3, r3, ((j1 % (j1 | 1L)) >>> i2));
        j1 = j1 * 31 + sl(c, t1_0, -27368868572L, 3);
        i1 = (65535 == (i1 + i0) ? t1_0 : t1_0).get((i1 & i0)) + v(t1_0);
        t1_0.v = r2 == null ? 1 : 0;
        i3 ^= chain(t1_0);
      }
      i3 = i3;
    }
    a0[(i2 >> i0) & 7] = (s0.length() + mk(c, i1, r0).get(i2));
    i0 = s0.length();
    b0[s0.length() & 3] = new Nd2(v(new Nd(v(r3), r1)), r1, j0);
    r2 = left(r0);
    b0[s0.length() & 3] = (r3 instanceof Nd2 ? b0[i0 & 3] : r1);
    c.point();
    j0 ^= Frames2.m74(c, (h0.get(i1) - (int) j0), new Nd(i1, r0));
    try {
      {
        Nd t2_0 = new Nd2((i1 >> i1), r2, mk(c, 31, r2).lg(c, 341766153879L, new Nd(i1, null)));
        Nd t2_1 = new Nd2((i0 * i1), r0, (j0 / mk(c, (i1 >>> i0), r3).lg(c, j0, r1.l)));
        t2_1.v = -1 != i3 ? 1 : 0;
        t2_0.v = r0 == null ? 1 : 0;
        d1 = d1 * 0.5 + dl(c, t2_1, d1, t2_0.lg(c, (j1 >>> i0), r2));
        t2_0.l = link(c, r1, new Nd2(1000, r3, 77283992080L));
        i1 ^= chain(t2_0);
        i2 ^= chain(t2_1);
      }
      i2 = (a0[i1 & 7] >> 0);
      j1 = (long) v(r2);
      i3 = v(null);
    } catch (ArithmeticException e1) {
      i2 = i1 ^ code(e1);
      if (r3 != null) {
        i1 = ((byte) v(link(c, r1, r1)));
      } else {
        r1 = ((i0 ^ i0) != i3 ? null : link(c, new Nd(((char) i3), r1), r1));
        a0[i2 & 7] = ((i2 >>> i1) >> (i2 / (i2 | 1)));
      }
      L3: for (int q3 = 0; q3 < 4 && --c.fuel > 0; ++q3) {
        i1 = i3;
      }
      r1 = left(r1);
    } catch (ClassCastException e2) {
      i3 = i1 ^ code(e2);
      r2 = link(c, new Nd((h0.get(i1) - (i1 / (i1 | 1))), r3), (r3 != r1 ? link(c, r0, r0) : r1));
      {
        Nd t4_0 = new Nd2((i3 & i1), r0, j0);
        t4_0.v = r2 == r3 ? 1 : 0;
        i0 = (-1 < ((short) i2) ? t4_0 : t4_0).get(i0) + v(t4_0);
        i0 ^= chain(t4_0);
      }
      h0 = sh(c, ((short) (i3 / (i3 | 1))));
      if ((i0 - i1) == v(r3)) return fin(c, j1, i0, r1);
    } catch (ArrayIndexOutOfBoundsException e3) {
      i2 = i0 ^ code(e3);
      j0 = ((858105987567L % ((j0 & j1) | 1L)) * 533022466011L);
      r0 = new Nd((i0 / (s0.length() | 1)), r1);
      if (r2 != null) return fin(c, j1, i0, r3);
    } catch (RuntimeException e4) {
      i0 = i2 ^ code(e4);
      r1 = new Nd((v(r2) % (mk(c, i1, r2).get(i1) | 1)), r0);
      {
        Nd t5_0 = mk(c, (5 ^ (r1 != null ? i3 : i0)), new Nd(((i2 + i3) << (i0 / (i3 | 1))), null));
        Nd t5_1 = new Nd((i1 >> (i3 << i3)), r0);
        j0 = j0 * 31 + t5_1.lg(c, (j0 * j0), b0[(i1 - i1) & 3]);
        t5_0.v += v(r0) + -1;
        d1 = d1 * 0.5 + dl(c, t5_1, d0, t5_0.lg(c, (j1 ^ sl(c, r1, j1, i3)), r0));
        i3 ^= chain(t5_0);
        i1 ^= chain(t5_1);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m84(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 67, i2 = c.fuel & 15, i3 = 9;
    long j0 = p * 1000003L, j1 = 682382144L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i0 = (int) j1;
    if (r0 instanceof Nd2) {
      if ((i0 < (i2 - i2) || r1 instanceof Nd)) return fin(c, j1, i0, r0);
    }
    {
      Nd t1_0 = new Nd((v(r1) & i2), r0);
      j1 = j1 * 31 + sl(c, t1_0, j1, (int) j0);
      t1_0.l = link(c, new Nd(i1, null), new Nd((s0.length() & (i1 % (i3 | 1))), r1));
      t1_0.v += v(new Nd((v(r2) / (i1 | 1)), r2)) + v(r2);
      i2 ^= chain(t1_0);
    }
    r3 = link(c, r2, r2);
    r3 = null;
    f0 = f0 * 0.5f + (float) (v(r1) & 1023);
    c.point();
    try {
      o0 = Integer.valueOf(h0.get(i1));
    } catch (NegativeArraySizeException e1) {
      i2 = i0 ^ code(e1);
      i1 = 2;
      try {
        L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
          i3 += s0.length();
        }
        i0 = ((i2 + a0[i1 & 7]) - ((i1 + i1) >>> i1));
        i3 += (i0 >>> i1);
        j0 ^= Frames2.m73(c, i3, (i0 == (i1 & i2) ? new Nd2(i0, r0, j0) : left(r3)));
      } catch (ClassCastException e2) {
        i1 = i0 ^ code(e2);
        b0[(i1 / (i0 | 1)) & 3] = r0;
        f0 = f0 * 0.5f + (float) (h0.get(i0) & 1023);
      } catch (NullPointerException e3) {
        i3 = i2 ^ code(e3);
        h0 = sh(c, ((i2 / (i1 | 1)) != a0[i1 & 7] ? i3 : (i0 - i3)));
        i0 += (i2 >> i3);
      } catch (RuntimeException e4) {
        i2 = i2 ^ code(e4);
        c.point();
      } finally {
        i2 += (i2 / (i2 | 1));
        i2 = ((i3 / ((i3 + i0) | 1)) + (1 - sh(c, v(r0)).get(i1)));
      }
    } catch (ClassCastException e5) {
      i2 = i3 ^ code(e5);
      i0 += (r1 != r0 ? i2 : i3);
      {
        Nd t3_0 = new Nd2(mk(c, i3, r0).get(i2), r1, (j1 + sl(c, null, 218870315677L, (i3 + i0))));
        Nd t3_1 = new Nd2((i0 + i0), r2, mk(c, (i2 >> i2), r2).lg(c, (true ? j1 : j1), null));
        j0 = j0 * 31 + t3_0.lg(c, (j1 & j1), b0[a0[i0 & 7] & 3]);
        t3_1.v += v(left(r0)) + ((int) j1 / (1 | 1));
        j1 = j1 * 31 + t3_1.lg(c, j0, new Nd2(v(left(r2)), r3, (j0 ^ j0)));
        i3 += three(c, i0, t3_0, t3_0.get(a0[i3 & 7]));
        i2 ^= chain(t3_0);
        i0 ^= chain(t3_1);
      }
      if (r3 == null) return fin(c, j1, i0, r2);
      i0 += v(r2);
    } catch (RuntimeException e6) {
      i1 = i3 ^ code(e6);
      i0 = ((int) j1 / ((7 / ((int) j1 | 1)) | 1));
      a0[(i0 ^ i3) & 7] = ((i1 & i3) - (i2 & i2));
      i2 += (i3 / (i0 | 1));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m85(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 47, i2 = c.fuel & 15, i3 = -8;
    long j0 = p * 1000003L, j1 = 549954615L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r1 = new Nd((i0 & (i1 + i2)), null);
    r0 = null;
    j1 = ((long) v(r1) >>> (i2 >> i1));
    j1 = (j0 % ((j1 ^ (j1 & j1)) | 1L));
    synchronized (lk(c, r0)) {
      if (r0 instanceof Nd2) {
        synchronized (lk(c, r2)) {
          s0 = cut(s0 + j1);
          a0[s0.length() & 7] = ((i1 * i2) + i3);
          L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
            {
              Nd t2_0 = new Nd2(i1, r2, (j0 % ((j1 + j0) | 1L)));
              r3 = link(c, r2, new Nd(t2_0.v, r2));
              d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, -412660379880L, r0));
              t2_0.l = link(c, new Nd2(5, r2, j0), link(c, r2, r2));
              t2_0.v += v((j0 <= 759844919726L ? new Nd(v(r3), r0) : left(r2))) + a0[i1 & 7];
              i1 ^= chain(t2_0);
            }
            j0 ^= Frames3.m82(c, 7, left(r2));
          }
        }
        if (r0 != r2) {
          j0 = (long) 31;
          try {
            {
              Nd t3_0 = new Nd2(mk(c, i1, r2).get(i2), r2, (j1 - (j0 >>> i3)));
              t3_0.v = v(r0) > (int) j0 ? 1 : 0;
              t3_0.v += v(r1) + ((i3 >>> i3) + three(c, i2, r2, i1));
              t3_0.l = link(c, r0, new Nd(a0[(i3 + i3) & 7], r0));
              j0 = j0 * 31 + sl(c, t3_0, j0, i3);
              i0 ^= chain(t3_0);
            }
          } catch (RuntimeException e1) {
            i2 = i3 ^ code(e1);
            a0[i3 & 7] = h0.get((i1 * i2));
          } finally {
            i2 += (i1 + i1);
          }
        } else {
          i0 = (((int) j0 * i0) / (i3 | 1));
          b0[((byte) i2) & 3] = r0;
        }
      } else {
        h0 = sh(c, (int) (long) 100);
        j0 = ((long) v(r1) ^ sl(c, ((true || d0 >= d0) ? r3 : r3), (j1 * j0), ((i0 + i2) < i0 ? i1 : i0)));
      }
      i3 = ((h0.get(i2) >>> (i2 + i1)) & ((i0 << i2) & i1));
      if ((i3 + i1) < i1) return fin(c, j1, i0, r3);
      c.point();
    }
    a0[(i1 - i3) & 7] = ((int) j1 ^ 2147483647);
    s0 = cut(s0 + 3);
    switch (i2) {
    case 100000:
      i2 = ((r0 == r3 ? (i3 >> i3) : (i1 - i1)) >> 1);
      if ((d0 == d0 || (j0 >>> (i0 - i3)) != j0)) return fin(c, j1, i0, r1);
      break;
    case -5:
      i1 += (i2 - i1);
      r3 = r1;
      j0 ^= Frames3.m78(c, ((i1 << i3) >> v(r3)), new Nd2(i2, r1, mk(c, v(r0), r0).lg(c, j0, left(r2))));
      if (r1 instanceof Nd2) return fin(c, j1, i0, r0);
      break;
    case 3:
      r2 = r3;
      i3 += i3;
      break;
    default:
      i2 += a0[i0 & 7];
      {
        Nd t4_0 = mk(c, (i0 + (i0 >> i2)), new Nd(i0, r1));
        j0 = j0 * 31 + t4_0.lg(c, (long) d1, b0[-1 & 3]);
        i0 += three(c, v(r1), t4_0, t4_0.get((i0 - i1)));
        i2 ^= chain(t4_0);
      }
      if ((i1 + i1) > i3) return fin(c, j1, i0, r1);
      i0 = i1;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m86(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 70, i2 = c.fuel & 15, i3 = 9;
    long j0 = p * 1000003L, j1 = -376495843L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    a0[i0 & 7] = h0.get(i0);
    r3 = link(c, r3, r2);
    synchronized (lk(c, r0)) {
      try {
        if (d1 < d1) {
          d0 = (d0 + (d1 + d0));
          try {
            r2 = r3.l;
          } catch (NegativeArraySizeException e1) {
            i3 = i3 ^ code(e1);
            j0 = j1;
            r2 = b0[(i0 - i0) & 3];
          } catch (RuntimeException e2) {
            i2 = i1 ^ code(e2);
            i2 = i0;
            i0 = mk(c, ((i0 / i0) >>> ((short) i2)), r2).get((i1 + (i1 - i2)));
            i1 += (i3 >>> i0);
            i3 = v(r1);
          }
        } else {
          r3 = b0[(i1 >>> i1) & 3];
        }
        r0 = new Nd((three(c, i0, r1, i2) + (i3 - i3)), r3);
        j0 = (j1 ^ sl(c, (r2 != r3 ? r0 : r0), (long) -2147483647, mk(c, i1, r1).get(i2)));
        r3 = r3.l;
      } catch (NegativeArraySizeException e3) {
        i0 = i3 ^ code(e3);
        i0 = ((5 - 65535) & i1);
      } catch (RuntimeException e4) {
        i0 = i2 ^ code(e4);
        i2 = (sh(c, (int) j0).get((i3 * i0)) << v(r1));
        try {
          r1 = new Nd2((mk(c, i3, r3).get(i2) - i1), r0, (j1 << (i3 - i0)));
          i1 += 7;
        } catch (NullPointerException e5) {
          i3 = i2 ^ code(e5);
          i3 += 5;
          {
            Nd t1_0 = new Nd(i2, null);
            Nd t1_1 = mk(c, i2, (o0 instanceof Nd2 ? r2 : r3));
            t1_0.v += v(new Nd2(((int) j0 + three(c, i2, r1, i0)), null, (j1 - j0))) + i0;
            r1 = link(c, r2, new Nd(t1_0.v, r0));
            j1 = j1 * 31 + sl(c, t1_0, (r2 instanceof Nd ? j0 : j1), three(c, (int) j0, r0, (d1 > d1 ? i1 : i2)));
            i1 = ((r0 != null && r0 == r3) ? t1_0 : t1_0).get((i0 + i0)) + v(t1_0);
            j0 = j0 * 31 + t1_1.lg(c, (j0 - j0), null);
            i2 ^= chain(t1_0);
            i0 ^= chain(t1_1);
          }
        } catch (Ex e6) {
          i2 = i2 ^ code(e6);
          i2 += i3;
          i2 = i0;
          i1 += (i2 % (i1 | 1));
        } catch (ClassCastException e7) {
          i0 = i0 ^ code(e7);
          i1 += (i3 ^ i0);
          j0 ^= Frames3.m77(c, ((char) (i0 >> i0)), new Nd(i3, r0));
          i3 += (i0 + i0);
          i2 = i3;
        } catch (RuntimeException e8) {
          i1 = i3 ^ code(e8);
          a0[(i3 ^ i1) & 7] = (i2 & (i3 * i2));
          h0 = sh(c, h0.get((i3 << i2)));
          if (h0.get(i3) >= (i2 + i1)) return fin(c, j1, i0, r2);
          j0 ^= Frames3.m77(c, (a0[i1 & 7] & (i1 + i1)), link(c, new Nd((int) j0, null), r0));
        }
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m87(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 73, i2 = c.fuel & 15, i3 = -8;
    long j0 = p * 1000003L, j1 = -603669997L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    if ((r3 != null || r3 == null)) {
      j0 = -593748465857L;
      i2 = i3;
    }
    b0[65535 & 3] = r3;
    j1 = -476277985178L;
    o0 = new Object[] {r0, r1, o0};
    j0 = j0;
    s0 = cut(s0 + "x");
    switch (i3) {
    case 3:
      i2 = (i1 + i0);
    case 0:
      i2 = a0[((i1 << i1) + 0) & 7];
      if (r1 == r2) return fin(c, j1, i0, r0);
      j0 ^= Frames3.m81(c, sh(c, (i2 - i2)).get((i0 << i0)), new Nd2(-1, r0, j1));
    case 100000:
      {
        Nd t1_0 = new Nd2((i2 >>> i2), r0, (j1 - (j1 << 2147483647)));
        d1 = d1 * 0.5 + dl(c, t1_0, d0, t1_0.lg(c, j0, r1));
        i2 += three(c, s0.length(), t1_0, t1_0.get((i2 + i3)));
        i3 += three(c, i1, t1_0, t1_0.get((i3 * i2)));
        d1 = d1 * 0.5 + dl(c, t1_0, d1, t1_0.lg(c, (r2 == null ? j0 : j1), r3));
        i2 ^= chain(t1_0);
      }
    case 1000:
      if (((r0 != r2 || (i0 >>> i2) >= (int) j1) && r1 != null)) {
        L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
          i3 = a0[((i1 * i2) >> (i2 - i2)) & 7];
          i1 = three(c, (mk(c, i3, r1).get(i1) ^ three(c, i0, r2, i3)), r3, h0.get(a0[i0 & 7]));
          if (d1 > d0) {
            i1 += i0;
          }
          a0[(i0 << i2) & 7] = ((byte) three(c, i2, r0, i3));
        }
        i3 += v(r1);
        i3 += (i3 << i0);
      }
      i3 += i0;
    case 77:
      a0[(i2 ^ i0) & 7] = (i3 / (i3 | 1));
      {
        Nd t3_0 = mk(c, (i1 % (a0[i2 & 7] | 1)), r1);
        Nd t3_1 = new Nd((1000 / (((byte) i1) | 1)), null);
        t3_0.v = r0 != null ? 1 : 0;
        t3_1.v = j0 != mk(c, i2, r3).lg(c, j1, link(c, r1, r1)) ? 1 : 0;
        i2 ^= chain(t3_0);
        i2 ^= chain(t3_1);
      }
      i0 = s0.length();
      r2 = link(c, r0, new Nd((i1 - (i0 + i2)), r2));
      break;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m88(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 3, i2 = c.fuel & 15, i3 = -7;
    long j0 = p * 1000003L, j1 = -593556554L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 ^= Frames3.m82(c, v(r1), new Nd((v(r0) + (i1 / (i1 | 1))), r1));
    r0 = r1;
    s0 = cut(s0 + "x");
    r1 = left(r2);
    r3 = ((j1 + j1) != j1 ? new Nd((i0 - (i2 >> i1)), r0) : (r2 instanceof Nd2 ? new Nd((i1 + (i2 >>> i3)), null) : r1));
    r2 = null;
    r3 = new Nd(i1, r0);
    a0[(i2 != mk(c, i1, r1).get(i1) ? i2 : i0) & 7] = ((i2 + i1) + i3);
    switch (i3) {
    case 1000:
      if (r0 == null) {
        try {
          r1 = r2.l;
        } catch (ArrayIndexOutOfBoundsException e1) {
          i3 = i1 ^ code(e1);
          if (((r2 != r3 && r2 != r2) && s0.length() <= (i3 - i1))) return fin(c, j1, i0, r3);
          if ((i2 != i0 || (i0 - i3) >= i1)) return fin(c, j1, i0, r3);
          i1 = 0;
          L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
            i0 += i3;
            i2 = (((i1 ^ i2) + (int) j0) + (int) j1);
            h0 = sh(c, ((i2 & i2) * (int) j1));
            {
              Nd t2_0 = new Nd((int) j0, null);
              t2_0.l = link(c, new Nd((i0 * (i0 + i0)), null), left(r2));
              j0 = j0 * 31 + t2_0.lg(c, (long) d0, new Nd(i3, r1));
              i0 = (r3 instanceof Nd ? t2_0 : t2_0).get((int) j1) + v(t2_0);
              t2_0.l = link(c, r3, left(r3));
              i2 ^= chain(t2_0);
            }
          }
        } catch (RuntimeException e2) {
          i2 = i1 ^ code(e2);
          i2 += (i2 * i3);
          o0 = Integer.valueOf(i0);
          f0 = f0 * 0.5f + (float) (v(r0) & 1023);
          i1 += 100;
        }
      }
      i3 += (i1 + i0);
      i2 += i1;
      r3 = link(c, new Nd2(2, r2, (j0 / (j0 | 1L))), r1);
    case 100000:
      r0 = left(r3);
      i2 = a0[(i1 >> (i1 + i2)) & 7];
      i2 = (r1 != r3 ? ((int) j0 + i0) : ((i1 % (i1 | 1)) >>> (i1 * i1)));
      a0[i2 & 7] = ((i0 ^ i0) * (i1 * i1));
      break;
    case 3:
      i1 += (i2 % (i0 | 1));
      d1 = ((d0 + d1) - d0);
      r2 = new Nd(i1, r2);
      break;
    case 77:
      j0 ^= Frames3.m80(c, i2, new Nd((r3 instanceof Nd ? (i3 >>> i3) : (i1 + i0)), r2));
      i2 += a0[i2 & 7];
      i1 = (r0 instanceof Nd ? ((i3 ^ i1) - (i2 ^ i3)) : i3);
      i2 += (i0 + i2);
      break;
    default:
      i1 = i2;
      i3 += ((short) i1);
      r2 = new Nd(i3, r2);
      b0[-1 & 3] = link(c, b0[(i2 % (i3 | 1)) & 3], left(r0));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m89(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 43, i2 = c.fuel & 15, i3 = -6;
    long j0 = p * 1000003L, j1 = -142382056L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      j0 ^= Frames3.m79(c, i2, r1);
      synchronized (lk(c, r0)) {
        switch (i2) {
        case 0:
          i1 = 5;
          L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
            {
              Nd t3_0 = new Nd((s0.length() >> (i1 - i2)), r3);
              Nd t3_1 = mk(c, (2147483647 + i0), null);
              j1 = j1 * 31 + sl(c, t3_1, (j0 % (j0 | 1L)), (int) j1);
              t3_0.v = (j0 < (j1 - j0) && r1 != null) ? 1 : 0;
              i2 += three(c, ((short) i1), t3_1, t3_0.get((i1 % (i0 | 1))));
              j1 = j1 * 31 + sl(c, t3_0, (j0 * j0), (a0[i1 & 7] * i1));
              i2 = ((j1 + j1) <= (j0 * j1) ? t3_0 : t3_0).get(mk(c, i2, r3).get(i0)) + v(t3_0);
              i0 ^= chain(t3_0);
              i1 ^= chain(t3_1);
            }
            {
              Nd t4_0 = mk(c, ((i3 + i1) - (i0 >> i1)), new Nd2(((i2 / (i2 | 1)) / (((i0 + i2) > v(r0) ? i0 : i3) | 1)), r1, j1));
              t4_0.v += v((r0 != null ? new Nd((3 - i3), r0) : new Nd(s0.length(), r0))) + (mk(c, i2, r2).get(i3) * i1);
              t4_0.l = link(c, new Nd2(i1, r1, (j0 & j0)), link(c, r0, r2));
              t4_0.l = link(c, new Nd((i1 - a0[i2 & 7]), r1), null);
              i3 ^= chain(t4_0);
            }
            r2 = new Nd(i1, r0);
          }
          d1 = ((double) i0 + d1);
          break;
        case -5:
          L5: for (int q5 = 0; q5 < 1 && --c.fuel > 0; ++q5) {
            j0 = (((j0 + j0) - (j0 / (j0 | 1L))) % (((j0 % (j1 | 1L)) & j1) | 1L));
            i3 += (i3 <= i1 ? i1 : i0);
            if ((i3 >= i1 && r3 != r0)) break;
            j0 ^= Frames3.m77(c, (int) (long) (int) j1, r3);
          }
          i3 += (int) j1;
          i2 += (i3 - i2);
          r1 = link(c, link(c, r0, new Nd2(v(r2), r3, (j0 + j1))), left(r0));
        case 100000:
          r2 = left(r2);
          h0 = sh(c, (i1 >>> a0[i2 & 7]));
          o0 = r0;
          i2 += (i1 >>> i0);
          break;
        case 1000:
          j0 ^= Frames3.m88(c, i1, new Nd(((char) i1), null));
          break;
        }
        r1 = new Nd((i2 >>> (int) j1), r3);
      }
      i0 = (i1 << -2147483647);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m90(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 20, i2 = c.fuel & 15, i3 = -5;
    long j0 = p * 1000003L, j1 = 389646494L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 = ((j1 & j1) & (sl(c, b0[(int) j1 & 3], j1, ((byte) i3)) >>> (i3 + i0)));
    switch (i2 & 7) {
    case 2:
      L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
        i1 = i3;
        i3 = i0;
        try {
          j0 ^= Frames3.m85(c, 3616, r0);
          j0 = (-130104560224L + (long) h0.get(i0));
          try {
            j0 ^= Frames3.m86(c, ((int) j1 + i1), r1.l);
            i0 = ((1 - a0[i0 & 7]) - i0);
          } catch (RuntimeException e1) {
            i0 = i0 ^ code(e1);
            r1 = (7 != i2 ? r3 : r2);
            i1 += 5;
            i1 += (i2 >> i1);
          }
          i2 = three(c, mk(c, i1, r1).get(three(c, i1, r3, i2)), new Nd((i3 << (i0 / i1)), r3), ((i0 % i0) + (i2 * i3)));
        } catch (NegativeArraySizeException e2) {
          i0 = i3 ^ code(e2);
          i0 += 1;
        } catch (ArithmeticException e3) {
          i1 = i1 ^ code(e3);
          {
            Nd t2_0 = new Nd2(i2, r0, -712523264842L);
            j1 = j1 * 31 + t2_0.lg(c, (j0 & j1), new Nd(((i2 - i0) % (i2 | 1)), null));
            r3 = link(c, r1, new Nd(t2_0.v, r0));
            i3 ^= chain(t2_0);
          }
          if (r2 != r1) continue;
          i0 += (i0 << i0);
          i1 += (i1 >>> i0);
        } catch (RuntimeException e4) {
          i1 = i1 ^ code(e4);
          i0 = i2;
          r3 = new Nd2(i1, r3, j1);
          h0 = sh(c, ((int) j0 - (i1 + i3)));
        } finally {
          i2 += (i2 >>> i2);
        }
      }
    case 6:
      r0 = left(r2);
      j0 = (long) i1;
      j1 = (((j0 * j0) ^ (j1 << (i0 + i0))) + (j0 == (j0 + j1) ? (long) d1 : j1));
      break;
    case 1:
      i0 = (((i2 + i0) + s0.length()) - i2);
      j1 = (long) (i2 & i3);
      j1 = j1;
    case 0:
      a0[(i0 + i3) & 7] = mk(c, (i2 >>> i0), r2).get(i3);
      j0 = (((j0 & j1) / (j0 | 1L)) % (j0 | 1L));
      b0[(int) j1 & 3] = r3;
      i2 += (i0 & i2);
      break;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m91(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 69, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = -641822472L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i1 = sh(c, (i3 * i1)).get(i0);
    if (r1 instanceof Nd) {
      a0[mk(c, i1, r1).get(i3) & 7] = i1;
      try {
        if ((i2 ^ i0) <= 1) return fin(c, j1, i0, r2);
        i1 = three(c, (three(c, i3, r2, i1) + a0[i1 & 7]), r1, (int) j1);
      } catch (RuntimeException e1) {
        i1 = i1 ^ code(e1);
        i1 = v(new Nd(i3, r3));
        r3 = left(r3);
        try {
          if (r2 instanceof Nd2) throw new RuntimeException(s0);
          L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
            i0 += i3;
          }
          c.point();
        } catch (ClassCastException e2) {
          i0 = i1 ^ code(e2);
          if (mk(c, i2, r1).get(i1) >= three(c, i0, r2, i0)) {
            if (5 <= three(c, i2, r1, i3)) return fin(c, j1, i0, r0);
            i3 = (i3 - i3);
            b0[(int) j1 & 3] = r1;
          } else {
            r1 = r1;
          }
          j0 = (j1 >>> (i2 + i1));
          f0 = f0 * 0.5f + (float) (((byte) i3) & 1023);
          i3 += (i2 ^ i0);
        } catch (ArrayIndexOutOfBoundsException e3) {
          i0 = i2 ^ code(e3);
          i0 += i1;
        } catch (RuntimeException e4) {
          i1 = i1 ^ code(e4);
          i2 += i1;
        }
        i1 += i2;
      }
      {
        Nd t2_0 = mk(c, i2, new Nd(((i2 << i1) / (mk(c, i1, r1).get(i2) | 1)), r2));
        i2 += three(c, i2, t2_0, t2_0.get(v(r1)));
        i3 += three(c, i1, t2_0, t2_0.get((i3 + i1)));
        t2_0.v += v(left(r1)) + a0[-1 & 7];
        d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, (long) i2, r3));
        i1 ^= chain(t2_0);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m92(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 5, i2 = c.fuel & 15, i3 = 5;
    long j0 = p * 1000003L, j1 = 795104522L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    {
      Nd t1_0 = new Nd2(i0, r3, j0);
      Nd t1_1 = new Nd2(v(r1), r3, (j0 + (j1 + sl(c, null, j1, (i1 >>> i0)))));
      t1_1.v += v(r0) + ((i0 % (i2 | 1)) + i3);
      j1 = j1 * 31 + t1_1.lg(c, sl(c, new Nd(i3, r2), j1, v(r1)), new Nd(1, r2));
      j0 = j0 * 31 + sl(c, t1_1, 804582074925L, h0.get((i0 + i2)));
      d1 = d1 * 0.5 + dl(c, t1_1, d1, t1_0.lg(c, (j1 << (i2 + i1)), r2));
      i0 ^= chain(t1_0);
      i1 ^= chain(t1_1);
    }
    L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
      if (d1 > d0) {
        o0 = new Object[] {r0, r1, o0};
        j0 ^= Frames3.m91(c, ((i0 + i3) % ((i2 + i1) | 1)), b0[(i2 + i2) & 3]);
        if ((int) j0 == i1) return fin(c, j1, i0, r3);
        s0 = cut(s0 + (char) (65 + (i1 & 15)));
      }
      i0 = sh(c, (i3 >>> i1)).get(i2);
      r3 = left(r0);
    }
    r3 = left(r1);
    b0[i0 & 3] = left(r0);
    r1 = new Nd((i0 + (i2 * i0)), r0);
    i3 = s0.length();
    if (i1 != 2147483647) {
      if ((d1 == d0 || r3 == r0)) return fin(c, j1, i0, r2);
      if ((i3 + i1) > (i2 - i3)) {
        if ((i1 << i3) != s0.length()) {
          a0[(i1 + i3) & 7] = three(c, h0.get(i0), r1, a0[i1 & 7]);
          i3 += 2147483647;
        } else {
          j0 = mk(c, (i0 >> i3), r1).lg(c, (long) i1, left(r1));
          s0 = cut(s0 + (char) (65 + (i2 & 15)));
          {
            Nd t3_0 = new Nd2(2147483647, r3, (long) (i0 << i1));
            r2 = link(c, r1, new Nd(t3_0.v, r0));
            t3_0.v += v(r1) + ((i1 % (i3 | 1)) >> mk(c, i3, r2).get(i3));
            i3 ^= chain(t3_0);
          }
        }
        if ((j1 - sl(c, new Nd2(i1, r2, (j1 / (j0 | 1L))), j1, s0.length())) <= (long) i1) return fin(c, j1, i0, r3);
        i3 += (i3 ^ i2);
      } else {
        r3 = new Nd2((i3 + (i3 * i2)), r0, j1);
        i2 += (i3 * i0);
      }
      i1 += h0.get(i2);
    } else {
      i3 = ((((byte) i1) - i1) - v(r2));
      d0 = dl(c, new Nd(v(r1), r2), (d0 * d0), (long) i2);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m93(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 88, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = 145811403L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    a0[(i0 & i1) & 7] = (i0 - (r2 instanceof Nd2 ? i3 : i3));
    r1 = new Nd2((int) (j1 + j1), r2, (j0 ^ j1));
    synchronized (lk(c, r1)) {
      i1 = 3;
      o0 = r0;
    }
    r3 = left(r2);
    a0[a0[i1 & 7] & 7] = ((byte) 2);
    if (d0 <= d0) {
      try {
        L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
          if (r3 != null) throw new Ex2(i1, r2);
          try {
            i0 += (i0 - i2);
            i0 = (((i1 + i0) - (j0 < (j0 % (j0 | 1L)) ? i3 : i0)) - i3);
            i3 += (i3 / i2);
          } catch (ArrayIndexOutOfBoundsException e1) {
            i1 = i3 ^ code(e1);
            r2 = (Nd) o0;
          } catch (NegativeArraySizeException e2) {
            i2 = i2 ^ code(e2);
            i2 = ((int) (j1 / j0) - (v(r0) + ((byte) i1)));
          }
          s0 = cut(s0 + (char) (65 + (i0 & 15)));
          if ((i2 / i3) == 31) break;
        }
        if (d0 == d1) throw new Ex((-1 ^ (i2 * i2)));
        i3 = i2;
        try {
          try {
            i3 = i1;
            if (d1 == d0) return fin(c, j1, i0, r3);
            r0 = new Nd2(-2147483647, r2, (j1 * j1));
            i1 += i1;
          } catch (ArithmeticException e3) {
            i3 = i3 ^ code(e3);
            i2 = i2;
          } catch (NullPointerException e4) {
            i0 = i3 ^ code(e4);
            i2 += (int) j1;
            r2 = new Nd(i3, r0);
            b0[s0.length() & 3] = r0;
          } catch (NegativeArraySizeException e5) {
            i0 = i0 ^ code(e5);
            i0 += i0;
          } catch (RuntimeException e6) {
            i3 = i1 ^ code(e6);
            i2 += mk(c, i0, r0).get(i0);
            r0 = left(r0);
            r2 = r2;
          }
          r0 = r0;
        } catch (ArithmeticException e7) {
          i3 = i3 ^ code(e7);
          i3 += (i0 + i2);
          j0 = j1;
          i2 += 5;
        } catch (NullPointerException e8) {
          i3 = i0 ^ code(e8);
          i1 = a0[i2];
          i2 = a0[three(c, (i2 >= i2 ? i0 : i2), b0[100 & 3], (i0 >>> i1)) & 7];
        } finally {
          {
            Nd t2_0 = mk(c, 2, left(r1));
            Nd t2_1 = new Nd((2147483647 - (i1 * i0)), r3);
            t2_1.v = r0 != r3 ? 1 : 0;
            t2_1.v = r0 instanceof Nd2 ? 1 : 0;
            t2_0.v += v(new Nd2(((i0 + i0) << i0), r2, (long) (i0 * i0))) + ((i1 * i2) + (i1 ^ i1));
            i3 ^= chain(t2_0);
            i3 ^= chain(t2_1);
          }
          i1 = h0.get(((i1 + i0) + s0.length()));
          j1 = j0;
          i2 += i1;
        }
      } catch (NullPointerException e9) {
        i0 = i0 ^ code(e9);
        b0[(i1 ^ i1) & 3] = left(r2);
        a0[(i1 % (i0 | 1)) & 7] = ((i3 - i0) ^ a0[i3 & 7]);
        c.point();
      } catch (ClassCastException e10) {
        i3 = i3 ^ code(e10);
        i1 = (int) j1;
      } catch (NegativeArraySizeException e11) {
        i3 = i3 ^ code(e11);
        i0 += (i3 % (i2 | 1));
      } catch (RuntimeException e12) {
        i3 = i2 ^ code(e12);
        a0[v(r1) & 7] = i3;
        j0 ^= Frames3.m82(c, h0.get(((j0 << (i3 >>> i1)) > 933570253783L ? i0 : i2)), r1);
        i0 += (int) j1;
      }
      i3 = (i0 - i1);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m94(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 78, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = -219999219L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    switch (i1 & 7) {
    case 6:
      j0 ^= Frames3.m86(c, (d1 > d0 ? (i1 << i1) : -4960), new Nd(i0, null));
    case 3:
      j0 = (((j0 - j0) + (long) d1) - (long) 1);
      break;
    case 2:
      r1 = new Nd2(i0, r0, (j1 + sl(c, r1, j0, mk(c, i3, r1).get(i2))));
      d1 = ((d0 - d1) - d1);
      if (r0 == null) {
        r0 = new Nd((int) (j1 - j0), r0);
      }
    case 4:
      try {
        r3 = new Nd2(mk(c, 1000, r3).get(i3), r2, (j0 * j0));
        b0[i1 & 3] = r2;
        try {
          r1 = new Nd2(i1, r2, j0);
        } catch (ClassCastException e1) {
          i3 = i1 ^ code(e1);
          synchronized (lk(c, r1)) {
            s0 = cut(s0 + (j1 ^ j0));
            i2 = i0;
            i1 = i2;
          }
          i1 = i3;
          try {
            r2 = new Nd((100 + (i0 >>> i1)), r2);
            r2 = r1;
          } catch (RuntimeException e2) {
            i3 = i1 ^ code(e2);
            r2 = (Nd2) r3;
          }
        } catch (NegativeArraySizeException e3) {
          i3 = i1 ^ code(e3);
          {
            Nd t1_0 = new Nd(i3, r3);
            Nd t1_1 = mk(c, (((short) i1) % (i3 + i1)), r0);
            j1 = j1 * 31 + t1_0.lg(c, (j1 >>> (r2 != r2 ? i1 : i1)), r3.l);
            t1_0.v = i0 >= v(r2) ? 1 : 0;
            i2 += three(c, 65535, t1_1, t1_0.get((i1 % i2)));
            j1 = j1 * 31 + sl(c, t1_1, (j0 % (j0 | 1L)), (933 + i3));
            i1 ^= chain(t1_0);
            i0 ^= chain(t1_1);
          }
          r1 = new Nd((i2 << (i0 + i3)), r3);
        } catch (NullPointerException e4) {
          i3 = i2 ^ code(e4);
          h0 = sh(c, ((int) j0 + (i3 / i1)));
          if (r0 == null) throw new Ex(((i1 % i3) & sh(c, 2147483647).get(i1)));
          a0[v(r3) & 7] = ((i2 ^ i2) & i0);
          i2 += (int) j0;
        } catch (RuntimeException e5) {
          i3 = i2 ^ code(e5);
          r3 = r0;
          r3 = b0[i1 & 3];
          i2 += i1;
          i1 = mk(c, (i2 + (i3 >> i1)), r1).get(7);
        }
        i1 = h0.get(65535);
      } catch (NullPointerException e6) {
        i3 = i3 ^ code(e6);
        if ((r1 instanceof Nd2 && (r1 != null || d1 <= d1))) return fin(c, j1, i0, r0);
        i3 = i2;
        i3 += i0;
      } catch (ClassCastException e7) {
        i3 = i3 ^ code(e7);
        i1 = (i0 + i3);
        r3 = left(r0);
        r1 = new Nd2(2147483647, null, (j1 + j1));
        if (r3 == r1) return fin(c, j1, i0, r0);
      } catch (NegativeArraySizeException e8) {
        i3 = i2 ^ code(e8);
        i2 = i3;
        {
          Nd t2_0 = new Nd2((int) j0, r2, 744289308252L);
          Nd t2_1 = new Nd2(mk(c, i1, r0).get(i1), r0, ((j1 * j0) - sl(c, new Nd(a0[i0 & 7], r2), (j0 * j1), (i2 - i1))));
          t2_1.l = link(c, left(r0), r2);
          i0 = (r2 == null ? t2_1 : t2_1).get(i1) + v(t2_1);
          i1 ^= chain(t2_0);
          i3 ^= chain(t2_1);
        }
        i0 += 65535;
        i3 = (i2 <= three(c, i2, r3, i3) ? ((i1 - i2) * (i2 ^ i1)) : v(r1));
      } catch (RuntimeException e9) {
        i2 = i0 ^ code(e9);
        i2 += (true ? i2 : i1);
        r1 = link(c, r1, r2);
        i3 += 2147483647;
      }
      break;
    case 7:
      o0 = new Object[] {r0, r1, o0};
      r0 = new Nd(((i3 ^ i0) ^ s0.length()), null);
      i2 = (int) j0;
      break;
    default:
      {
        Nd t3_0 = new Nd((int) (j1 + j0), r2);
        i1 = (d1 > d1 ? t3_0 : t3_0).get(i2) + v(t3_0);
        i1 = (31 > (i1 ^ i2) ? t3_0 : t3_0).get((i2 ^ i2)) + v(t3_0);
        i0 ^= chain(t3_0);
      }
      j1 = (j1 + (j0 & sl(c, r0, j0, (i2 + i3))));
      i0 = i0;
      h0 = sh(c, (int) j1);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m95(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 19, i2 = c.fuel & 15, i3 = 7;
    long j0 = p * 1000003L, j1 = -308835828L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    c.point();
    j1 = (long) (i3 * i1);
    j0 = (long) (i1 + i3);
    r3 = new Nd((a0[i0 & 7] / (31 | 1)), r0);
    r2 = new Nd(((short) i1), null);
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      i2 = ((65535 - three(c, i2, r0, i3)) + (three(c, i1, r2, i3) << i3));
      try {
        a0[a0[i3 & 7] & 7] = mk(c, (i3 & i1), r3).get(i0);
        r3 = r0.l;
        o0 = new int[] {((i0 << i0) ^ (i3 << i0)), 3};
        o0 = new Object[] {r0, r1, o0};
      } catch (NullPointerException e1) {
        i3 = i3 ^ code(e1);
        f0 = f0 * 0.5f + (float) (s0.length() & 1023);
        r0 = new Nd(((i1 >> i3) >>> three(c, i2, r3, i1)), r3);
        r1 = b0[(i0 ^ i2) & 3];
      } catch (ArrayIndexOutOfBoundsException e2) {
        i1 = i3 ^ code(e2);
        r3 = null;
        i3 = 3;
      } catch (RuntimeException e3) {
        i1 = i0 ^ code(e3);
        if (r3 == null) {
          r3 = new Nd(v(new Nd(three(c, 5, left(r2), (i0 - i3)), null)), r2);
          if ((i3 >> i0) < (i2 & i1)) break L1;
          s0 = cut(s0 + (char) (65 + (i0 & 15)));
          try {
            if (r0 instanceof Nd) return fin(c, j1, i0, r1);
            r0 = new Nd2((i2 & ((byte) i0)), r3, (j1 + j1));
            j0 = (long) (int) j1;
            i3 = i1;
          } catch (NegativeArraySizeException e4) {
            i0 = i3 ^ code(e4);
            if (r3 != null) break L1;
            {
              Nd t2_0 = new Nd((int) (r3 != r3 ? j0 : j1), r2);
              Nd t2_1 = mk(c, (h0.get(i2) < (i2 + i1) ? (i0 + i1) : (i2 - i2)), new Nd((-9717 - i2), r3));
              t2_0.v += v(new Nd2(mk(c, (i2 * i2), r1).get(451), r0, (long) (r0 instanceof Nd ? i3 : i3))) + ((int) j0 - (i2 + i2));
              j0 = j0 * 31 + t2_1.lg(c, (long) i1, b0[2147483647 & 3]);
              j1 = j1 * 31 + t2_1.lg(c, sl(c, r2, j1, i3), link(c, r1, r2));
              i0 ^= chain(t2_0);
              i2 ^= chain(t2_1);
            }
          } catch (RuntimeException e5) {
            i2 = i2 ^ code(e5);
            i1 = (v((-763702216550L < 147366548062L ? r2 : r2)) + s0.length());
          }
        } else {
          j0 = (long) d0;
          o0 = s0;
          r3 = r0;
        }
        j0 ^= Frames3.m85(c, 9110, left(r0));
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m96(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 63, i2 = c.fuel & 15, i3 = 6;
    long j0 = p * 1000003L, j1 = -470713744L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    if (r3 instanceof Nd2) {
      r1 = b0[(i2 ^ i3) & 3];
      d1 = ((d1 * d0) - (double) (int) j1);
      if (7 > three(c, i3, r3, i1)) return fin(c, j1, i0, r1);
      r1 = new Nd2((i1 * v(r3)), r0, j0);
    } else {
      i0 = 2;
      i1 = ((int) j0 + (a0[i3 & 7] + i0));
      j1 = ((j0 + (j1 + j0)) << (i3 / (i1 | 1)));
    }
    r0 = new Nd((d0 < d1 ? (i2 ^ i2) : (int) j1), r2);
    o0 = new int[] {(i0 << v(r0)), 3};
    {
      Nd t1_0 = mk(c, s0.length(), left(r3));
      t1_0.l = link(c, new Nd((int) -975142138521L, r3), null);
      t1_0.v += v(r1) + a0[(i3 << i2) & 7];
      i1 ^= chain(t1_0);
    }
    a0[three(c, i1, r3, i2) & 7] = (i0 - (i1 * i2));
    try {
      try {
        i1 = a0[1000];
        j0 = ((-787534931536L << 31) / -578274119318L);
        j0 ^= Frames3.m84(c, i3, new Nd(i1, null));
      } catch (ClassCastException e1) {
        i0 = i2 ^ code(e1);
        j0 = ((long) 2 - sl(c, new Nd((three(c, i1, r1, i3) * (i0 & i1)), null), (-872694091015L << (int) j1), s0.length()));
        i3 += (i1 ^ i3);
        i3 += (i3 - i1);
      } catch (Ex e2) {
        i0 = i0 ^ code(e2);
        a0[i1 & 7] = (v(r1) * (i0 - i2));
        i0 = i2;
      } catch (RuntimeException e3) {
        i3 = i1 ^ code(e3);
        i0 = 5;
      }
      r3 = r1;
    } catch (Ex e4) {
      i3 = i2 ^ code(e4);
      r2 = new Nd(i0, r0);
    } catch (RuntimeException e5) {
      i3 = i1 ^ code(e5);
      i0 = -1;
      j1 = 537790566904L;
      i2 += (i3 * i0);
      i1 += a0[i0 & 7];
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m97(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 44, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = 253957284L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r1 = left(r0);
    r1 = left(r1);
    i0 = v(link(c, link(c, r2, r1), ((j0 - j0) <= (long) d1 ? r2 : r0)));
    i3 = i1;
    try {
      c.point();
      L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
        a0[v(r2) & 7] = v(r3);
      }
      j0 ^= Frames3.m88(c, -1, r2);
    } catch (RuntimeException e1) {
      i0 = i3 ^ code(e1);
      synchronized (lk(c, r1)) {
        j1 = (j1 - sl(c, null, j1, i2));
        if ((i0 << i1) != mk(c, i1, r2).get(i1)) {
          try {
            i2 += i2;
          } catch (ArithmeticException e2) {
            i0 = i3 ^ code(e2);
            r2 = left(r1);
          }
          i2 = ((100 - i3) % ((v(r1) % ((i0 / (i1 | 1)) | 1)) | 1));
          {
            Nd t2_0 = mk(c, v(r0), r0);
            t2_0.v += v(link(c, new Nd(((i0 - i1) + ((byte) i1)), r0), null)) + (int) j0;
            i0 = (((i3 + i2) < (r1 != null ? i0 : i0) && r0 == null) ? t2_0 : t2_0).get((i0 & i0)) + v(t2_0);
            r0 = link(c, r2, new Nd(t2_0.v, r3));
            j1 = j1 * 31 + t2_0.lg(c, sl(c, r3, j1, (i0 & i3)), new Nd(i2, null));
            i2 ^= chain(t2_0);
          }
          try {
            i1 += mk(c, i2, r3).get(i3);
            i0 += three(c, i3, r2, i2);
            r3 = new Nd(((i2 + i3) + i0), r2);
            r0 = r0;
          } catch (ArrayIndexOutOfBoundsException e3) {
            i1 = i2 ^ code(e3);
            {
              Nd t3_0 = new Nd2(65535, r1, j1);
              Nd t3_1 = new Nd(((int) j0 << i2), r1);
              r2 = link(c, r1, new Nd(t3_0.v, r1));
              j1 = j1 * 31 + sl(c, t3_0, ((i2 + i3) != (i1 + i0) ? j1 : j0), (((short) i2) << i1));
              t3_1.l = link(c, null, left(r2));
              i1 = (three(c, i0, r1, i1) <= i0 ? t3_1 : t3_1).get((i0 / (i1 | 1))) + v(t3_1);
              j0 = j0 * 31 + sl(c, t3_0, (j1 - j1), mk(c, v(r1), r1).get((r2 != null ? i1 : i2)));
              i3 ^= chain(t3_0);
              i3 ^= chain(t3_1);
            }
          } catch (RuntimeException e4) {
            i3 = i1 ^ code(e4);
            i3 += (i2 + i0);
          } finally {
            i3 = i3;
            i2 = (v(r1) & i2);
          }
        }
        i3 = i3;
        i3 += 5;
      }
      i1 = (i2 ^ sh(c, i2).get(three(c, i0, r3, i2)));
      i2 += i0;
    } finally {
      r0 = b0[((byte) i2) & 3];
      i2 += (i0 >> i3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m98(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 74, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = 115314331L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    s0 = cut(s0 + (char) (65 + (i1 & 15)));
    if (((short) i2) != i2) {
      synchronized (lk(c, r1)) {
        j0 = ((j1 + j1) + ((j1 ^ j1) * j0));
        a0[(i3 - i3) & 7] = v(r3);
        r2 = left(r2);
      }
      a0[2 & 7] = i3;
    } else {
      d1 = (double) (i1 ^ i3);
      j0 = ((long) d0 >>> mk(c, i2, r2).get(i2));
      a0[v(r2) & 7] = (-2147483647 << (i2 + i3));
      b0[(i2 + i3) & 3] = r2;
    }
    synchronized (lk(c, r1)) {
      h0 = sh(c, i0);
      try {
        i0 = i0;
        d1 = d1;
        i0 += (i3 + i3);
        if (r1 != r0) return fin(c, j1, i0, r1);
      } catch (ClassCastException e1) {
        i3 = i0 ^ code(e1);
        i3 = (i1 * -2147483647);
        i1 = i2;
      } catch (RuntimeException e2) {
        i2 = i0 ^ code(e2);
        if (sh(c, i3).get(i3) <= (i1 & i3)) return fin(c, j1, i0, r2);
        r0 = left(r2);
        i3 += (int) j1;
      } finally {
        j0 ^= Frames3.m97(c, (((char) i2) >> (i1 + i0)), left(r3));
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m99(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 69, i2 = c.fuel & 15, i3 = -3;
    long j0 = p * 1000003L, j1 = 722531225L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r2 = new Nd(a0[(i2 >>> i0) & 7], r3);
    i1 = i3;
    i3 = mk(c, ((i2 / (i0 | 1)) + (i0 * i3)), r3).get((v(r0) * (int) j1));
    i1 = i1;
    i0 = (31 << v(r0));
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
        if (r3 != null) break L1;
      }
      try {
        switch (i3) {
        case 0:
          switch (((r0 != null ? i1 : i3) + (int) j0) & 7) {
          case -5:
            i0 = 2;
            i1 += i1;
            break;
          case -100:
            i1 = i2;
            i1 = (((i0 << i0) % (int) j1) % v(b0[(i2 + i3) & 3]));
            break;
          default:
            i0 = i3;
            i2 += (i3 * i1);
            r3 = link(c, new Nd(mk(c, (i1 & i3), r0).get((i1 >>> i1)), null), r2.l);
            r1 = r2;
          }
          i3 = (int) (long) (i1 - i0);
          r1 = ((i3 >>> i1) == s0.length() ? r1 : ((r0 == r2 || three(c, i3, r1, i1) != a0[i1 & 7]) ? new Nd2((65535 - i0), null, (j1 - j0)) : ((i0 >> i2) <= i3 ? r3 : r1)));
          if ((i2 & i1) < i0) return fin(c, j1, i0, r1);
        case 77:
          j1 = ((j1 - (r1 == null ? j0 : j0)) + j0);
          i1 = (((i0 + i0) / i2) + i2);
          break;
        case -100:
          r1.v = v((Nd) o0);
        case -5:
          i1 += mk(c, i3, r1).get(i3);
          b0[(i0 % i3) & 3] = new Nd(i0, null);
        }
        i2 += (int) j1;
        {
          Nd t3_0 = new Nd2(0, r1, ((long) 3 * (j0 - j1)));
          j0 = j0 * 31 + t3_0.lg(c, j0, new Nd(((i0 & i1) / 65535), r2));
          t3_0.v = (r0 instanceof Nd2 || (j0 / j0) < ((j1 % (j1 | 1L)) > j1 ? j1 : j0)) ? 1 : 0;
          i0 ^= chain(t3_0);
        }
      } catch (NegativeArraySizeException e1) {
        i1 = i1 ^ code(e1);
        i3 = (a0[3 & 7] - 2147483647);
        j0 = -567605996619L;
        i2 += (i1 ^ i3);
      } catch (RuntimeException e2) {
        i3 = i3 ^ code(e2);
        b0[(int) j1 & 3] = new Nd2(h0.get((i1 >> i1)), null, (j0 + sl(c, r0, j1, (int) j0)));
        {
          Nd t4_0 = new Nd2(three(c, i2, r3, i1), r3, (176147627455L * (long) d0));
          Nd t4_1 = mk(c, ((int) j0 << (i2 ^ i1)), null);
          d1 = d1 * 0.5 + dl(c, t4_0, d1, t4_1.lg(c, j0, r0));
          j1 = j1 * 31 + sl(c, t4_1, (long) (int) j0, ((int) j0 - ((byte) i1)));
          i1 ^= chain(t4_0);
          i3 ^= chain(t4_1);
        }
        r1 = (r0 != null ? r2 : r3);
        i3 += (i0 / (i2 | 1));
      }
      i2 += (i2 >>> i3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }
}

package w;

/** Generated by tools/genframes.py. */
class Frames1 extends Frames {
  static long m25(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 57, i2 = c.fuel & 15, i3 = -3;
    long j0 = p * 1000003L, j1 = -982999898L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i1 = ((char) i1);
    try {
      i1 = s0.length();
      d0 = (d1 * d1);
      L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
        if ((i2 << i0) == -1) {
          i2 = i1;
          i3 = (mk(c, i2, r2).get(0) * (i0 + (i0 / i0)));
        } else {
          i2 = (v(r3) + i2);
          r1 = r3;
          i3 = v(r2);
          if (r1 instanceof Nd) {
            r1 = r2.l;
          } else {
            b0[i1 & 3] = new Nd(s0.length(), r1);
          }
        }
        i3 = 5;
        s0 = cut(s0 + j0);
        j0 ^= Frames0.m15(c, i2, r1);
      }
      s0 = cut(s0 + "x");
    } catch (Ex e1) {
      i1 = i1 ^ code(e1);
      r3 = new Nd((int) j1, r3);
    } catch (ArithmeticException e2) {
      i2 = i1 ^ code(e2);
      if (d0 < d0) return fin(c, j1, i0, r3);
    } catch (ClassCastException e3) {
      i1 = i1 ^ code(e3);
      b0[(i1 >> i2) & 3] = left(r2);
      r3 = new Nd2(h0.get((i3 + i2)), r0, (long) (i3 - i2));
      d1 = d0;
    } catch (RuntimeException e4) {
      i0 = i1 ^ code(e4);
      a0[i3 & 7] = a0[(i2 * i2) & 7];
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m26(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 21, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = -72727175L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    switch ((i0 >>> i2) & 7) {
    case 7:
      synchronized (lk(c, r3)) {
        switch (i3) {
        case 100000:
          if (r1 == r2) {
            i0 += s0.length();
            r3 = left(r2);
          } else {
            i3 = mk(c, v(r1), r3).get(100);
          }
          a0[v(r2) & 7] = 0;
          r0 = r0;
          break;
        case 0:
          switch (i2 & 7) {
          case 2:
            j1 = ((j1 - (j1 ^ j0)) * j1);
            d0 = ((d0 * d1) - d0);
            i3 += (i3 / (i3 | 1));
            break;
          case 0:
            r3 = left(r3);
            b0[(i3 & i1) & 3] = null;
            break;
          }
          i3 = i2;
          break;
        case -100:
          L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
            r3 = r3;
          }
          try {
            i3 = (r2 instanceof Nd ? (r1 != r3 ? (i3 & i0) : (i3 * i0)) : (d1 <= d0 ? (int) j1 : 31));
          } catch (ArithmeticException e1) {
            i0 = i2 ^ code(e1);
            d0 = d0;
            r2 = b0[sh(c, v(r2)).get(i2) & 3];
            a0[(i2 * i1) & 7] = i1;
            r2 = (r3 instanceof Nd2 ? link(c, new Nd(three(c, (int) j0, null, i1), null), new Nd2(i1, null, (r2 != null ? j1 : j0))) : r2);
          } catch (Ex e2) {
            i0 = i1 ^ code(e2);
            i1 = 2;
          } catch (RuntimeException e3) {
            i2 = i3 ^ code(e3);
            j0 ^= Frames0.m15(c, ((i2 - i1) ^ i3), new Nd2(((i0 & i0) % (i2 | 1)), null, (j0 + j1)));
            i2 += (i1 ^ i3);
          }
          i0 = i0;
          i1 = (h0.get(mk(c, i1, r3).get(i1)) ^ ((i3 + i0) + ((i1 + i0) == i3 ? i2 : i1)));
          break;
        case 1000:
          i0 = i1;
          break;
        case 3:
          o0 = new Object[] {r0, r1, o0};
          break;
        }
        b0[(int) j1 & 3] = left(r1);
        b0[(i2 ^ i0) & 3] = r0;
      }
      break;
    case 5:
      i2 += three(c, i0, r3, i2);
      i0 += i3;
      if (r0 != null) return fin(c, j1, i0, r3);
      break;
    default:
      if (((i0 ^ i1) != (r2 == null ? i1 : i0) || (((char) i2) >= (int) j1 || r2 != r3))) return fin(c, j1, i0, r3);
      i0 = a0[(i2 + 2147483647) & 7];
      i0 = 5;
      f0 = f0 * 0.5f + (float) ((r2 != null ? i0 : i1) & 1023);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m27(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 62, i2 = c.fuel & 15, i3 = -5;
    long j0 = p * 1000003L, j1 = 322659096L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    a0[mk(c, i3, r3).get(i3) & 7] = (1000 + three(c, i2, r0, i2));
    i3 = (((i1 + i3) >>> v(r3)) >> h0.get(i2));
    {
      Nd t1_0 = mk(c, (i3 == h0.get(i1) ? (r2 instanceof Nd2 ? i1 : i2) : a0[i3 & 7]), b0[(i2 - i2) & 3]);
      t1_0.v = i1 > (i3 + i1) ? 1 : 0;
      i3 += three(c, -2147483647, t1_0, t1_0.get((i1 * i0)));
      i2 += three(c, (i1 + i2), t1_0, t1_0.get(((char) i1)));
      i0 ^= chain(t1_0);
    }
    if (i0 <= mk(c, i2, r3).get(i3)) {
      f0 = f0 * 0.5f + (float) ((i0 >>> i0) & 1023);
      i3 = i2;
    } else {
      if (r2 == null) return fin(c, j1, i0, r1);
      switch (a0[(d0 > d0 ? i0 : i0) & 7] & 7) {
      case 5:
        if ((i1 - i2) != a0[i1 & 7]) return fin(c, j1, i0, r1);
        i1 = (100 - h0.get(((char) i1)));
        j0 = 566109307604L;
        i0 = (((short) i0) >> ((i1 << i0) - h0.get(i0)));
        break;
      case 2:
        j0 ^= Frames0.m16(c, (o0 instanceof Nd2 ? i2 : ((j1 + j1) > (j0 >>> i3) ? i3 : i3)), r3);
        b0[100 & 3] = left(r1);
        L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
          o0 = new int[] {(int) j1, 3};
        }
        a0[i1 & 7] = ((i2 << i2) / (-3759 | 1));
        break;
      case 6:
        o0 = new Object[] {r0, r1, o0};
        r3 = (d1 < d1 ? new Nd2(2147483647, r1, (r3 != r1 ? j0 : j1)) : link(c, new Nd((a0[i1 & 7] & i2), r1), r0));
        i3 = (((byte) mk(c, i2, r1).get(i1)) % (((i2 - i0) >>> 7) | 1));
        break;
      default:
        L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
          i2 = ((v(r0) - 5) % ((d1 < d0 ? 1000 : (i0 & i3)) | 1));
          synchronized (lk(c, r2)) {
            i0 += i2;
            r1 = new Nd2(((r0 == null ? i1 : i3) + (i2 + i0)), r1, sl(c, new Nd(((three(c, i1, r3, i2) >= a0[i2 & 7] ? i2 : i0) + (i2 + i3)), r2), j1, (i1 / (i0 | 1))));
            i3 = v(r2);
            i2 += 5758;
          }
          i1 += (i0 & i2);
          i3 = a0[31 & 7];
        }
        j1 = (((long) (i3 + i2) + mk(c, -2147483647, r1).lg(c, j0, new Nd(i0, r2))) + (long) d0);
        r3 = null;
      }
      j0 = (j1 & (long) d1);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m28(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 55, i2 = c.fuel & 15, i3 = 9;
    long j0 = p * 1000003L, j1 = 492662496L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r2 = left(r1);
    L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
      s0 = cut(s0 + (char) (65 + (i3 & 15)));
      d0 = (d0 + dl(c, new Nd(v(r1), r1), d1, j1));
    }
    try {
      if (d1 < d0) return fin(c, j1, i0, r0);
      a0[i2 & 7] = (int) j0;
    } catch (RuntimeException e1) {
      i3 = i1 ^ code(e1);
      h0 = sh(c, ((i3 + i3) % (v(r0) | 1)));
    } finally {
      if (d0 >= d0) j0 ^= fin(c, j1, i0, r1);
      if (s0.length() >= i2) {
        synchronized (lk(c, r0)) {
          r3 = null;
          d0 = (double) (i1 * i1);
          if ((r2 == null || r0 != null)) {
            j0 ^= Frames0.m17(c, (i1 % (i0 | 1)), r3);
          }
        }
        r2 = null;
      } else {
        synchronized (lk(c, r0)) {
          b0[(i0 - i1) & 3] = r1;
          {
            Nd t2_0 = new Nd2((i1 ^ i1), r2, (long) (i3 >> i1));
            Nd t2_1 = new Nd(((i2 - i2) * three(c, i3, r3, i1)), null);
            j1 = j1 * 31 + t2_1.lg(c, j1, new Nd2(i0, null, (j0 + j0)));
            t2_1.v = (0 == i2 && i1 > (int) j1) ? 1 : 0;
            i1 ^= chain(t2_0);
            i1 ^= chain(t2_1);
          }
          r1 = link(c, link(c, ((a0[i0 & 7] == (i2 % (i3 | 1)) ? i2 : i3) >= (i3 / (i3 | 1)) ? r3 : r0), b0[(i2 & i3) & 3]), new Nd(i3, r2));
        }
        L3: for (int q3 = 0; q3 < 3 && --c.fuel > 0; ++q3) {
          i2 = (int) j1;
        }
        try {
          i0 += i0;
          if ((long) d0 > j1) j0 ^= fin(c, j1, i0, r0);
          i2 += sh(c, i0).get(i2);
          i3 += (i1 & i3);
        } catch (ArrayIndexOutOfBoundsException e2) {
          i1 = i1 ^ code(e2);
          d1 = (double) (i1 - i2);
        } catch (ClassCastException e3) {
          i0 = i0 ^ code(e3);
          r1 = new Nd((r1 != null ? i1 : (i2 >>> i1)), r0);
          {
            Nd t4_0 = mk(c, i0, new Nd(i0, r2));
            t4_0.v = (j0 + j1) <= j1 ? 1 : 0;
            t4_0.l = link(c, (((r0 instanceof Nd2 ? j1 : j1) > (j0 & j1) && r2 instanceof Nd) ? r1 : r2), r3);
            i1 = ((i3 + i0) != 0 ? t4_0 : t4_0).get(((char) i3)) + v(t4_0);
            t4_0.v += v(null) + (-2147483647 + (int) j1);
            i3 ^= chain(t4_0);
          }
        } catch (Ex e4) {
          i1 = i0 ^ code(e4);
          {
            Nd t5_0 = new Nd2((r3 == null ? i0 : i1), r3, (j0 - j0));
            t5_0.v += v(r1) + (i3 ^ s0.length());
            t5_0.l = link(c, left(r1), left(r0));
            t5_0.v += v(new Nd2(a0[(i2 - i2) & 7], r3, (j0 - j1))) + a0[31 & 7];
            d1 = d1 * 0.5 + dl(c, t5_0, d1, t5_0.lg(c, mk(c, (int) j1, r0).lg(c, j1, r0), r2));
            i0 ^= chain(t5_0);
          }
          r3 = new Nd(i2, r2);
        } finally {
          i3 += (i3 << i0);
          r2 = new Nd(((i3 & i0) << i0), r0);
        }
        i0 += (i0 * i1);
      }
      s0 = cut(s0 + (((char) i3) + a0[i2 & 7]));
      r1 = r3;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m29(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 18, i2 = c.fuel & 15, i3 = 4;
    long j0 = p * 1000003L, j1 = -423329912L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i0 = ((r1 != null ? j0 : j1) <= (j0 & j0) ? ((short) (j1 > (long) (i0 >> i2) ? i0 : i3)) : (s0.length() >= (i1 + i1) ? i2 : i2));
    r0 = link(c, left(r2), new Nd(i2, r1));
    try {
      j1 = j0;
      synchronized (lk(c, r1)) {
        b0[(d0 >= d0 ? i2 : i0) & 3] = r1;
      }
      j0 = j1;
      {
        Nd t1_0 = mk(c, ((i0 + i0) >> (i1 + i3)), r3);
        Nd t1_1 = new Nd((int) (j0 + j0), r1);
        i1 += three(c, a0[i1 & 7], t1_0, t1_0.get(i1));
        r2 = link(c, r2, new Nd(t1_1.v, r1));
        j0 = j0 * 31 + sl(c, t1_0, (j0 - j0), (d0 >= d0 ? 3 : (i3 / i2)));
        j0 = j0 * 31 + t1_0.lg(c, (j0 % (j1 | 1L)), r2);
        i2 ^= chain(t1_0);
        i1 ^= chain(t1_1);
      }
    } catch (ArithmeticException e1) {
      i0 = i1 ^ code(e1);
      if (5 == (i2 & i1)) return fin(c, j1, i0, r1);
      i0 = (1000 - ((i1 / (i3 | 1)) / (i1 | 1)));
    } catch (RuntimeException e2) {
      i3 = i1 ^ code(e2);
      r1 = new Nd(i3, r3);
      a0[(i1 >> i2) & 7] = i3;
      r2 = link(c, new Nd(i1, r3), null);
    } finally {
      if (r1 == null) j0 ^= fin(c, j1, i0, r0);
    }
    s0 = cut(s0 + (char) (65 + (i1 & 15)));
    i3 += (i1 % (i2 | 1));
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m30(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 46, i2 = c.fuel & 15, i3 = -7;
    long j0 = p * 1000003L, j1 = -597194765L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r3 = link(c, (r0 == r1 ? null : left(r3)), new Nd2((i3 % ((i1 + i1) | 1)), r0, -601639337716L));
    if ((r0 == r1 && (d1 == d1 && true))) {
      switch ((i3 + i1) & 7) {
      case 1:
        L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
          j0 = (j1 << a0[i2 & 7]);
          r3 = r1;
        }
        j0 = (long) (i0 - i1);
        d0 = (d1 + d1);
        i3 = i0;
        break;
      case 7:
        if (r2 == null) return fin(c, j1, i0, r1);
      case 6:
        L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
          {
            Nd t3_0 = new Nd(((i2 * i3) + i0), r1);
            Nd t3_1 = new Nd2((i1 >>> i2), r2, (long) i2);
            t3_1.v = i2 <= 5 ? 1 : 0;
            t3_1.v = r1 == r3 ? 1 : 0;
            j0 = j0 * 31 + sl(c, t3_1, ((i3 % (i2 | 1)) < (i3 + i1) ? j1 : j0), (s0.length() & v(r3)));
            i0 = (r2 != r0 ? t3_1 : t3_0).get((i3 + i0)) + v(t3_1);
            i3 ^= chain(t3_0);
            i2 ^= chain(t3_1);
          }
        }
        r0 = new Nd(i2, r1);
        try {
          i3 = three(c, v(new Nd(a0[-2147483647 & 7], r0)), (r1 == r3 ? r2 : r2.l), i1);
        } catch (ArrayIndexOutOfBoundsException e1) {
          i3 = i3 ^ code(e1);
          i0 = (int) j1;
          i0 = (((i0 + i2) ^ -2147483647) << i3);
          a0[i1 & 7] = i0;
        } catch (NullPointerException e2) {
          i2 = i1 ^ code(e2);
          i1 += (i2 + i0);
        } catch (ArithmeticException e3) {
          i1 = i1 ^ code(e3);
          i0 += (i1 >> i2);
          h0 = sh(c, (int) j0);
        } finally {
          b0[i1 & 3] = r1;
          i3 = i2;
          i1 = (int) j0;
        }
      }
      a0[v(r1) & 7] = (three(c, i1, r3, i3) + i2);
      h0 = sh(c, ((int) j1 & (i3 >>> i0)));
      i2 += v(r3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m31(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 28, i2 = c.fuel & 15, i3 = 5;
    long j0 = p * 1000003L, j1 = 223411669L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
        switch (i1) {
        case 100000:
          j0 ^= Frames1.m25(c, (i0 << -2147483647), new Nd(s0.length(), r0));
          i1 = (int) j1;
          j0 = j0;
          break;
        case 3:
          c.point();
          {
            Nd t2_0 = mk(c, ((byte) (i3 & i3)), r3);
            Nd t2_1 = new Nd2((i0 - i1), r2, (j1 - (long) (i1 & i3)));
            t2_1.v = (i3 * i2) > v(r1) ? 1 : 0;
            t2_1.v += v(link(c, left(r0), r3.l)) + i2;
            t2_0.l = link(c, ((j1 >>> i2) < (j1 + j1) ? r2 : r1), new Nd2(65535, r2, (j1 % (j1 | 1L))));
            i0 = ((j1 * j1) <= (j1 ^ j1) ? t2_1 : t2_0).get(three(c, i1, r0, i3)) + v(t2_1);
            i3 ^= chain(t2_0);
            i2 ^= chain(t2_1);
          }
          i2 = 100;
          break;
        case 1000:
          j1 = j1;
          j0 ^= Frames0.m20(c, (i2 % i2), new Nd((i3 - 5), r1));
          i0 = i1;
          break;
        default:
          if ((r1 == r0 || (i0 - i3) < i1)) {
            r2 = r1;
            j0 = (r1 == r3 ? 610931057886L : -625661756822L);
            d0 = (d0 + (double) i2);
          } else {
            {
              Nd t3_0 = mk(c, (s0.length() + v(r0)), null);
              Nd t3_1 = new Nd2((int) j0, r3, (mk(c, (i0 + i3), r2).lg(c, j0, link(c, r2, r1)) & (j1 % (j1 | 1L))));
              t3_0.v = (i2 << i1) < i1 ? 1 : 0;
              t3_1.v = r1 instanceof Nd ? 1 : 0;
              t3_0.v = (int) j1 <= v(r1) ? 1 : 0;
              i1 ^= chain(t3_0);
              i3 ^= chain(t3_1);
            }
          }
          h0 = sh(c, (i2 + (i3 - i1)));
          r0 = b0[sh(c, i3).get(i0) & 3];
        }
        j1 = ((j0 >>> i0) - sl(c, new Nd(((byte) 31), r3), -835008844738L, (i2 + i1)));
      }
    } catch (RuntimeException e1) {
      i2 = i3 ^ code(e1);
      i3 += a0[i2 & 7];
      j0 ^= Frames1.m25(c, 2, b0[(i2 + i0) & 3]);
      r0 = new Nd2(i1, r0, (j1 * j0));
    } finally {
      i1 += i0;
      i1 = i3;
      h0 = sh(c, (i2 + (i1 + i2)));
      i3 = i2;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m32(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 39, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = 581560710L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i2 = i0;
    j0 = 863086786110L;
    try {
      {
        Nd t1_0 = new Nd2((i3 * i2), r3, j1);
        t1_0.l = link(c, new Nd(((i3 + i3) % (i1 & i3)), r0), new Nd(i1, r0));
        i3 = ((i0 & i1) < (int) j1 ? t1_0 : t1_0).get(5) + v(t1_0);
        i2 += three(c, (i1 - i2), t1_0, t1_0.get(1000));
        d1 = d1 * 0.5 + dl(c, t1_0, d1, t1_0.lg(c, (j0 & j1), r2));
        i0 ^= chain(t1_0);
      }
      j1 = j0;
    } catch (ArithmeticException e1) {
      i0 = i2 ^ code(e1);
      j1 = ((j0 - sl(c, new Nd(((i1 + i0) + (i1 ^ i2)), r1), (j1 << i0), (i0 + i3))) & ((j1 << ((short) i0)) - sl(c, r3, 428415409110L, v(r0))));
    } catch (Ex e2) {
      i1 = i0 ^ code(e2);
      i2 = i3;
      i1 = (1000 & ((i3 ^ i2) / ((i3 - i3) | 1)));
      h0 = sh(c, i3);
      if (j1 == j0) {
        L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
          f0 = f0 * 0.5f + (float) (h0.get(i1) & 1023);
          if ((i1 - i2) <= v(r0)) {
            a0[(i3 >> i1) & 7] = (v(r0) & (i3 + i0));
            if ((r1 instanceof Nd || r1 == r2)) continue L2;
            i3 = (i0 >>> i2);
          } else {
            i3 += s0.length();
            i1 += 31;
            s0 = cut(s0 + j0);
            i0 += three(c, i3, r1, i1);
          }
          d0 = d1;
          r3 = r0;
        }
        i2 += (i2 + i2);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m33(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 33, i2 = c.fuel & 15, i3 = -2;
    long j0 = p * 1000003L, j1 = 341502466L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    d0 = (double) i1;
    s0 = cut(s0 + "x");
    r1 = left(r1);
    i2 = (s0.length() % (((i3 ^ i0) - v(r3)) | 1));
    j0 ^= Frames1.m31(c, i3, (j0 < j1 ? link(c, r2, r2) : new Nd((int) (j1 - sl(c, new Nd(2147483647, r1), j1, mk(c, i3, r3).get(i0))), r1)));
    h0 = sh(c, three(c, three(c, i2, r0, i2), new Nd2(1, r1, (j0 % (j1 | 1L))), (i1 & i0)));
    c.point();
    c.point();
    try {
      if (r0 == r3) return fin(c, j1, i0, r0);
      o0 = r0;
      try {
        r0 = r1;
        f0 = f0 * 0.5f + (float) (i3 & 1023);
      } catch (Ex e1) {
        i3 = i0 ^ code(e1);
        i1 = i2;
        L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
          switch (i1) {
          case -100:
            r2 = b0[2 & 3];
            break;
          case -5:
            f0 = f0 * 0.5f + (float) ((int) j0 & 1023);
          case 100000:
            r3 = ((i1 + i2) != ((short) i3) ? new Nd((i2 ^ (i0 - i1)), r2) : r0);
          case 1000:
            r0 = r2.l;
            i2 = v(r1);
            f0 = f0 * 0.5f + (float) (7 & 1023);
            j0 ^= Frames1.m26(c, i1, link(c, link(c, r1, r2), new Nd2(v(new Nd(h0.get(a0[i3 & 7]), r0)), r0, (j0 % (j1 | 1L)))));
          case 3:
            i0 += (i0 + i3);
            i1 += (i3 >>> i0);
          default:
            i2 += i3;
            r1 = new Nd2(i2, r0, j0);
            i0 = 100;
          }
          s0 = cut(s0 + (int) (j0 + sl(c, new Nd((i0 >> (i1 + i2)), r3), j1, i2)));
          i2 = i1;
        }
        i3 += i1;
        o0 = b0[3 & 3];
      } catch (ArithmeticException e2) {
        i0 = i2 ^ code(e2);
        i0 += i1;
        i1 += 100;
        i2 += (i3 >>> i1);
      } catch (RuntimeException e3) {
        i3 = i3 ^ code(e3);
        i2 += (i3 >>> i3);
      }
    } catch (Ex e4) {
      i2 = i2 ^ code(e4);
      d0 = (double) (i0 % (i1 | 1));
      r0 = null;
      i1 += h0.get(i3);
    } catch (RuntimeException e5) {
      i3 = i2 ^ code(e5);
      s0 = cut(s0 + j1);
      j0 ^= Frames1.m31(c, i1, new Nd2(((i2 + i2) << (i0 + i0)), null, sl(c, link(c, r0, r3), j1, 2)));
      o0 = Integer.valueOf((i3 * ((i3 ^ i0) == i2 ? i0 : i1)));
      i2 += i0;
    } finally {
      {
        Nd t2_0 = new Nd((1 + (i1 + i0)), r1);
        t2_0.l = link(c, new Nd2(((i3 + i3) >>> (i1 - i3)), r2, (j0 & j0)), r1);
        d1 = d1 * 0.5 + dl(c, t2_0, d1, t2_0.lg(c, j0, r1));
        i1 ^= chain(t2_0);
      }
      if (s0.length() == i2) j0 ^= fin(c, j1, i0, r2);
      if (j0 > sl(c, left(r2), j1, (i0 & i2))) j0 ^= fin(c, j1, i0, r2);
      {
        Nd t3_0 = new Nd2(v(r1), r0, j0);
        d1 = d1 * 0.5 + dl(c, t3_0, d1, t3_0.lg(c, (j1 + j1), r2));
        d1 = d1 * 0.5 + dl(c, t3_0, d0, t3_0.lg(c, (long) (i2 * i0), r3));
        d1 = d1 * 0.5 + dl(c, t3_0, d0, t3_0.lg(c, (long) i1, r2));
        t3_0.l = link(c, r1, null);
        i2 ^= chain(t3_0);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m34(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 81, i2 = c.fuel & 15, i3 = -7;
    long j0 = p * 1000003L, j1 = 954886454L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    switch (i2) {
    case 100000:
      {
        Nd t1_0 = mk(c, h0.get((i3 ^ i3)), null);
        t1_0.v += v(new Nd(((i2 % (i2 | 1)) % ((i1 ^ i1) | 1)), r3)) + i0;
        r1 = link(c, r0, new Nd(t1_0.v, r2));
        r2 = link(c, r0, new Nd(t1_0.v, r0));
        i2 ^= chain(t1_0);
      }
      L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
        try {
          L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
            c.point();
            if (r0 instanceof Nd2) throw new RuntimeException(s0);
          }
          b0[i2 & 3] = new Nd2(((char) (r2 instanceof Nd ? i2 : i1)), r3, j0);
          i0 = three(c, i0, new Nd2(3, r3, -576547760402L), i1);
        } catch (ArrayIndexOutOfBoundsException e1) {
          i3 = i3 ^ code(e1);
          try {
            a0[(int) j0 & 7] = ((char) 1);
            i3 += i3;
          } catch (ArrayIndexOutOfBoundsException e2) {
            i0 = i2 ^ code(e2);
            s0 = cut(s0 + (char) (65 + (i1 & 15)));
            a0[i0 & 7] = i1;
          } catch (RuntimeException e3) {
            i1 = i0 ^ code(e3);
            h0 = sh(c, sh(c, (i3 << i2)).get(i1));
            {
              Nd t4_0 = new Nd((v(r2) * (i1 + i0)), r1);
              Nd t4_1 = new Nd(i0, r2);
              t4_1.v = (i0 < i2 && (i1 + i3) > i0) ? 1 : 0;
              t4_1.v += v(new Nd(1, r0)) + -2147483647;
              i2 ^= chain(t4_0);
              i3 ^= chain(t4_1);
            }
          }
          try {
            o0 = b0[i3 & 3];
            h0 = sh(c, h0.get(i1));
            r3 = left(r2);
          } catch (RuntimeException e4) {
            i0 = i3 ^ code(e4);
            i2 += a0[i0 & 7];
            s0 = cut(s0 + j1);
            i2 = ((short) s0.length());
            j0 = (long) i0;
          } finally {
            i2 += (int) j0;
          }
          o0 = new Object[] {r0, r1, o0};
          switch (((short) i1) & 7) {
          case 5:
            i3 += v(r1);
            r3 = r3;
          case 7:
            {
              Nd t5_0 = mk(c, i1, left(r1));
              Nd t5_1 = new Nd(2, r3);
              r3 = link(c, r1, new Nd(t5_1.v, r2));
              t5_1.l = link(c, new Nd2(i0, r3, j0), r1);
              i2 += three(c, (i3 + i1), t5_1, t5_0.get(v(r2)));
              i3 += three(c, (i1 >> i3), t5_0, t5_0.get(sh(c, (i2 >>> i3)).get(i1)));
              i1 = (r3 != null ? t5_0 : t5_0).get((int) j0) + v(t5_0);
              i3 ^= chain(t5_0);
              i2 ^= chain(t5_1);
            }
            i2 += 65535;
            i1 = (v(r3) == (i3 ^ i2) ? 31 : ((i0 + i2) <= (i0 / (i2 | 1)) ? (int) j0 : h0.get(i2)));
            i1 = three(c, i0, null, v(r1));
          case 0:
            i3 += (i0 >> i2);
            o0 = Integer.valueOf((int) j0);
            c.point();
          case 4:
            i1 += 3;
            j0 ^= Frames1.m27(c, i0, left(r1));
            o0 = new Object[] {r0, r1, o0};
            i2 += (i3 + i2);
            break;
          }
        } catch (NegativeArraySizeException e5) {
          i3 = i2 ^ code(e5);
          j0 = (j1 * j1);
          i0 += three(c, i2, r0, i3);
        } catch (ClassCastException e6) {
          i0 = i1 ^ code(e6);
          i2 += h0.get(i1);
          {
            Nd t6_0 = mk(c, s0.length(), r1);
            i3 = (d0 < d0 ? t6_0 : t6_0).get(v(r2)) + v(t6_0);
            t6_0.v = r2 == r1 ? 1 : 0;
            j1 = j1 * 31 + sl(c, t6_0, j0, i0);
            i3 ^= chain(t6_0);
          }
          o0 = s0;
        } catch (RuntimeException e7) {
          i0 = i1 ^ code(e7);
          r2 = r2;
          a0[(i2 & i1) & 7] = v(r3);
          i0 = (s0.length() % (-1 | 1));
          i0 += i3;
        }
      }
      i0 = mk(c, a0[(int) j1 & 7], r1).get((5 - s0.length()));
      break;
    case 3:
      o0 = new int[] {(i1 - three(c, i0, r3, i0)), 3};
      j0 ^= Frames1.m27(c, (v(r3) >>> (true ? i1 : i0)), new Nd((i1 >> (i3 - i2)), r1));
    default:
      r2 = r1;
      r1 = link(c, ((i0 & i1) > (i1 >> i2) ? new Nd(((char) 65535), r0) : new Nd((i1 * 1000), r2)), new Nd((i0 + (i0 % (i1 | 1))), null));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m35(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 30, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = 627053996L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    h0 = sh(c, (i3 * v(r2)));
    try {
      i3 = i0;
      j0 ^= Frames1.m34(c, ((i3 - i3) / ((byte) i2)), b0[-21 & 3]);
    } catch (RuntimeException e1) {
      i1 = i3 ^ code(e1);
      r2 = null;
      s0 = cut(s0 + (char) (65 + (i1 & 15)));
      if ((i3 % (i0 | 1)) >= (i0 + i2)) return fin(c, j1, i0, r0);
      i2 = (((i0 >>> i1) ^ i2) / (65535 | 1));
    } finally {
      try {
        b0[(i3 >> i1) & 3] = new Nd(s0.length(), r1);
        i3 = mk(c, 2, r0).get(mk(c, a0[i2 & 7], r2).get(sh(c, (int) j1).get(i3)));
        try {
          L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
            h0 = sh(c, ((int) j0 - (i1 + i2)));
            r1 = new Nd((a0[i1 & 7] >> (r1 == null ? i1 : i0)), r1);
          }
          i2 = i3;
          i3 = i2;
        } catch (Ex e2) {
          i3 = i1 ^ code(e2);
          j0 ^= Frames1.m28(c, (int) j0, new Nd((i0 - v(r1)), null));
          try {
            i2 += (i1 + i2);
          } catch (NullPointerException e3) {
            i0 = i2 ^ code(e3);
            i3 = ((three(c, i3, r3, i3) - three(c, i0, r3, i0)) >>> a0[(i2 + i1) & 7]);
            i2 = ((int[]) o0)[0];
            i1 += three(c, i0, r1, i0);
            o0 = new Object[] {r0, r1, o0};
          } catch (NegativeArraySizeException e4) {
            i3 = i2 ^ code(e4);
            i0 = (((byte) 7) >>> s0.length());
          } catch (RuntimeException e5) {
            i1 = i2 ^ code(e5);
            i0 += i1;
            i0 += (i3 ^ i1);
            j0 ^= Frames1.m26(c, h0.get((i1 - i2)), (r1 == null ? r3.l : new Nd((i2 % (i3 + i1)), null)));
            b0[(i2 >> i3) & 3] = new Nd2(a0[(i0 >> i3) & 7], r3, j1);
          } finally {
            r1 = new Nd2(((i3 + i0) ^ (i0 << i1)), r2, j0);
            i1 += mk(c, i1, r1).get(i0);
            i3 += (i1 % (i2 | 1));
          }
          r1 = new Nd2(-1, r3, j0);
        } catch (ClassCastException e6) {
          i0 = i0 ^ code(e6);
          r1 = r0;
          i0 += (i1 + i3);
          i3 = ((i1 + 100) + (h0.get(i0) + (i2 >> i0)));
        } catch (ArithmeticException e7) {
          i2 = i3 ^ code(e7);
          {
            Nd t2_0 = new Nd2(three(c, i0, r2, i0), r1, (long) i3);
            Nd t2_1 = new Nd2((i2 % i0), r0, -175983694587L);
            t2_0.v = r0 == r0 ? 1 : 0;
            t2_1.v = sl(c, left(r3), j0, sh(c, v(r0)).get(i2)) <= (j1 + j0) ? 1 : 0;
            r1 = link(c, r0, new Nd(t2_1.v, r0));
            j1 = j1 * 31 + t2_0.lg(c, (j0 / j1), new Nd(65535, r3));
            i2 ^= chain(t2_0);
            i3 ^= chain(t2_1);
          }
        } catch (RuntimeException e8) {
          i3 = i3 ^ code(e8);
          i3 += (i0 - i1);
          if ((d1 >= d1 && ((char) i0) == i2)) throw new RuntimeException(s0);
        }
      } catch (Ex e9) {
        i3 = i3 ^ code(e9);
        j0 ^= Frames1.m26(c, ((i2 + i2) ^ i2), ((i1 < i1 ? j1 : j1) < (long) -1 ? left(r2) : r1));
        i2 = i1;
      } catch (NullPointerException e10) {
        i0 = i1 ^ code(e10);
        i1 += (i3 & i3);
        j0 = (long) sh(c, (i0 + i2)).get(i2);
        i1 = (i2 + ((byte) (r0 == r3 ? i3 : i0)));
        i1 = (i2 - i3);
      } finally {
        i1 += (true ? i1 : i2);
        r0 = left(r0);
        o0 = new int[] {i3, 3};
        i0 += (i0 ^ i2);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m36(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 6, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = -554470021L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      r1 = new Nd(((i0 >>> i0) >> (i0 * i3)), r0);
      switch (i1) {
      case -100:
        r0 = link(c, null, b0[(i2 - i3) & 3]);
      case 77:
        j0 = ((593321577428L * ((r0 == r2 ? i0 : i2) <= i3 ? j0 : j1)) + (j0 >>> (i2 - i0)));
        i3 = a0[(-1 % i3) & 7];
        j1 = j0;
        synchronized (lk(c, r1)) {
          j0 = (long) i1;
          a0[i0 & 7] = (i3 % ((short) i3));
        }
        break;
      case 0:
        if (r1 instanceof Nd) return fin(c, j1, i0, r3);
        try {
          {
            Nd t1_0 = mk(c, i2, left(r3));
            t1_0.v += v(new Nd((i1 & s0.length()), r1)) + v(r2);
            r2 = link(c, r0, new Nd(t1_0.v, r2));
            i2 = ((r1 == null || r0 != r1) ? t1_0 : t1_0).get(i0) + v(t1_0);
            i1 ^= chain(t1_0);
          }
          j0 ^= Frames1.m26(c, i1, r1);
        } catch (ArrayIndexOutOfBoundsException e1) {
          i1 = i1 ^ code(e1);
          i1 = i0;
          b0[(i2 + i1) & 3] = r0.l;
          L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
            i0 += (i1 ^ i2);
          }
        } catch (ArithmeticException e2) {
          i0 = i3 ^ code(e2);
          if (d0 < d1) {
            i2 += three(c, i2, r0, i1);
          } else {
            i1 = (1000 / (three(c, i1, r3, i3) + i2));
          }
        } catch (RuntimeException e3) {
          i0 = i1 ^ code(e3);
          r2 = r1;
        }
        b0[(i2 & i0) & 3] = link(c, new Nd(mk(c, ((byte) i2), r3).get((i2 + i1)), r2), r1);
      case 3:
        i2 += (i3 - i3);
        i2 = (int) j1;
      case 1000:
        i0 += ((short) i2);
        d0 = (double) s0.length();
        break;
      }
      {
        Nd t3_0 = mk(c, 0, r2);
        i2 = (((i1 + i3) > (i2 + i3) || r2 == null) ? t3_0 : t3_0).get((i2 * i3)) + v(t3_0);
        r3 = link(c, r1, new Nd(t3_0.v, r1));
        j1 = j1 * 31 + t3_0.lg(c, (long) h0.get(i2), new Nd(((char) i1), r1));
        i0 ^= chain(t3_0);
      }
    } catch (RuntimeException e4) {
      i2 = i3 ^ code(e4);
      i3 = (((int) j0 - -2147483647) >>> a0[mk(c, i1, r0).get(i2) & 7]);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m37(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 88, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = -240174381L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 = (long) i1;
    i2 = ((d1 == d0 ? mk(c, i1, r0).get(i1) : ((byte) i0)) >>> (i3 + mk(c, i3, r1).get(i1)));
    L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
      L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
        i1 = three(c, i1, left(r0), (i1 - (i3 + i0)));
      }
      j0 ^= Frames1.m33(c, i0, left(r0));
      r2 = new Nd(three(c, (i3 + i0), (o0 instanceof Nd ? r2 : r0), v(r2)), r2);
    }
    L3: for (int q3 = 0; q3 < 1 && --c.fuel > 0; ++q3) {
      synchronized (lk(c, r0)) {
        i1 = i0;
        synchronized (lk(c, r1)) {
          if (r0 != r2) {
            f0 = f0 * 0.5f + (float) (i2 & 1023);
            {
              Nd t4_0 = mk(c, i2, null);
              Nd t4_1 = mk(c, i0, new Nd(i3, r3));
              t4_1.v += v(r0) + s0.length();
              j1 = j1 * 31 + t4_1.lg(c, 654953061093L, left(r1));
              j0 = j0 * 31 + sl(c, t4_0, 645238194122L, 1);
              j0 = j0 * 31 + t4_1.lg(c, j1, new Nd(mk(c, v(r1), r1).get(i2), r1));
              r3 = link(c, r1, new Nd(t4_0.v, r3));
              i1 ^= chain(t4_0);
              i1 ^= chain(t4_1);
            }
          }
          h0 = sh(c, ((i2 + i3) >> h0.get(i2)));
          r0 = null;
        }
        r0 = left(r3);
      }
      j0 ^= Frames1.m35(c, i1, (d1 > d0 ? r1 : ((i2 + i1) >= i1 ? r0 : r3)));
    }
    try {
      if (three(c, i1, r2, i2) <= ((short) i2)) {
        try {
          o0 = r2;
          i1 = ((v(r0) - i2) / 776);
        } catch (RuntimeException e1) {
          i2 = i2 ^ code(e1);
          i3 = ((int) j0 & ((i0 - i1) + v(r1)));
          r2 = (Nd2) r3;
          L5: for (int q5 = 0; q5 < 3 && --c.fuel > 0; ++q5) {
            r2 = null;
            i3 = (i1 ^ sh(c, (i1 ^ i3)).get(mk(c, i0, r3).get(i1)));
          }
        } finally {
          try {
            c.point();
            i2 += 100;
            b0[((short) i0) & 3] = b0[(r1 != null ? i0 : i2) & 3];
            i2 = v(r0);
          } catch (ArrayIndexOutOfBoundsException e2) {
            i3 = i3 ^ code(e2);
            i2 += i2;
            s0 = cut(s0 + j1);
            i3 = ((i2 - i2) + i2);
          } catch (Ex e3) {
            i1 = i2 ^ code(e3);
            r3 = new Nd(100, r2);
            if (r3 != null) j0 ^= fin(c, j1, i0, r3);
            d0 = (double) (i0 % (i1 | 1));
          } catch (RuntimeException e4) {
            i0 = i1 ^ code(e4);
            i0 += s0.length();
            if ((r2 != null || r1 == null)) j0 ^= fin(c, j1, i0, r2);
          } finally {
            {
              Nd t6_0 = new Nd(i3, r1);
              t6_0.v = r1 == r1 ? 1 : 0;
              t6_0.l = link(c, new Nd(i3, r2), null);
              i3 ^= chain(t6_0);
            }
            i2 += s0.length();
            i2 += (int) j1;
            j0 = (j0 & (long) v(r1));
          }
          i2 = mk(c, 2, r0).get((int) (long) a0[i1 & 7]);
          if (r1 == r1) j0 ^= fin(c, j1, i0, r3);
        }
        r2 = r2;
      } else {
        c.point();
        j0 ^= Frames1.m35(c, i3, r1.l);
        i3 += (i1 * i3);
      }
    } catch (ArithmeticException e5) {
      i3 = i3 ^ code(e5);
      i3 += 2147483647;
      r3 = link(c, new Nd(((i2 + i1) % (three(c, i1, r1, i1) | 1)), r0), left(r1));
      i0 += a0[i1 & 7];
    } catch (RuntimeException e6) {
      i2 = i0 ^ code(e6);
      s0 = cut(s0 + three(c, s0.length(), r1, s0.length()));
      i1 = (s0.length() / (a0[(i0 >>> i1) & 7] | 1));
      h0 = sh(c, 7);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m38(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 14, i2 = c.fuel & 15, i3 = -7;
    long j0 = p * 1000003L, j1 = 285243438L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    if ((r1 != null && ((j0 ^ sl(c, r0, j1, (i2 >> i2))) == j1 || r3 == null))) {
      j1 = (long) (i0 & i3);
      try {
        {
          Nd t1_0 = new Nd(((short) v(r0)), r3);
          j1 = j1 * 31 + t1_0.lg(c, (long) (i1 * i1), (j0 < -860000959691L ? r1 : r3));
          j1 = j1 * 31 + sl(c, t1_0, j0, (v(r2) ^ -2147483647));
          j0 = j0 * 31 + sl(c, t1_0, (long) (i3 >> i1), -2147483647);
          r1 = link(c, r3, new Nd(t1_0.v, r2));
          i1 ^= chain(t1_0);
        }
        i1 = ((true && (i2 - i2) >= i1) ? three(c, i3, (i1 > (i3 >>> i0) ? r2 : r0), (i1 + i0)) : (d0 == d1 ? a0[i3 & 7] : 1000));
      } catch (ClassCastException e1) {
        i0 = i3 ^ code(e1);
        if (h0.get(i3) > i0) return fin(c, j1, i0, r1);
        j1 = (((j0 / (j1 | 1L)) - (h0.get(i3) != (int) j1 ? j1 : j0)) >>> v(r2));
        i1 = i3;
      } catch (NegativeArraySizeException e2) {
        i3 = i3 ^ code(e2);
        r2 = left(r2);
        i2 = i2;
        d1 = (d1 * d0);
        i1 = 2;
      } catch (RuntimeException e3) {
        i1 = i3 ^ code(e3);
        f0 = f0 * 0.5f + (float) (i1 & 1023);
        if (r2 != null) return fin(c, j1, i0, r1);
        h0 = sh(c, 100);
        synchronized (lk(c, r2)) {
          i1 = i2;
          i0 += mk(c, i0, r1).get(i3);
        }
      }
      c.point();
      i2 += (i2 + i1);
    } else {
      h0 = sh(c, v(new Nd(three(c, i0, left(r2), s0.length()), null)));
      i2 = (((i2 + i3) << s0.length()) - a0[(i3 - i3) & 7]);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m39(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 19, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = -823764666L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r2 = ((true && i1 == ((char) i1)) ? new Nd(i3, null) : left(r3));
    switch (i3) {
    case 1000:
      b0[v(r2) & 3] = left(r2);
      break;
    case -100:
      j0 ^= Frames1.m33(c, i1, new Nd(i0, null));
      r3 = new Nd(mk(c, i2, r3).get(i2), r0);
      h0 = sh(c, ((i1 - i0) + mk(c, i2, r3).get(i0)));
    default:
      i0 = i3;
    }
    j0 ^= Frames1.m29(c, (i1 >>> three(c, i1, r2, i3)), new Nd(i0, r2));
    if (r2 instanceof Nd) {
      switch (i0) {
      case -100:
        d0 = dl(c, link(c, r2, r2), (double) i2, (j0 % (j1 | 1L)));
        L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
          b0[(i3 & i2) & 3] = r1;
          if (o0 instanceof Nd) break L1;
          i1 = three(c, ((i2 + i2) / (i2 | 1)), r3, (a0[i3 & 7] - v(r3)));
        }
        i2 = 31;
        break;
      case 0:
        r1 = link(c, null, new Nd((i2 / (i3 | 1)), null));
        break;
      case 100000:
        s0 = cut(s0 + "x");
      case 3:
        L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
          a0[mk(c, i0, r3).get(i0) & 7] = ((i1 - i0) - (i1 * i0));
        }
        i2 = i1;
        d1 = (d1 + (d1 + d1));
        break;
      case -5:
        i1 = v(r3);
        r2 = new Nd(i0, r3);
        break;
      }
    } else {
      a0[(i2 + i0) & 7] = 1;
    }
    o0 = s0;
    if (r1 != r0) {
      switch (i1) {
      case 100000:
        i1 = i2;
        i0 += ((short) i3);
      case -5:
        h0 = sh(c, a0[(i2 % (i2 | 1)) & 7]);
        i1 += -2173;
        c.point();
        d0 = d0;
        break;
      case -100:
        i2 += (i0 ^ i2);
        {
          Nd t3_0 = mk(c, ((i0 + i2) + (i2 + i1)), new Nd(i0, r3));
          Nd t3_1 = new Nd(a0[i3 & 7], null);
          r1 = link(c, r0, new Nd(t3_1.v, r0));
          t3_1.v = r0 != null ? 1 : 0;
          i2 ^= chain(t3_0);
          i1 ^= chain(t3_1);
        }
        i1 += (int) j1;
        break;
      case 1000:
        j0 = mk(c, three(c, i0, r2, i3), r3).lg(c, sl(c, left(r2), j0, (i0 ^ i0)), new Nd(three(c, 1000, null, -1410), r1));
        r2 = new Nd(2, r1);
        r2 = new Nd((i2 >>> -9910), r3);
        break;
      }
      i3 += ((char) i3);
    } else {
      i1 += 7;
      j1 = ((j0 - -110984239490L) / ((j1 + j1) | 1L));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m40(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 3, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = 59865699L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    h0 = sh(c, ((i2 >>> i1) - (i0 - i0)));
    i3 = i3;
    i0 = i0;
    a0[v(r2) & 7] = (v(r1) + (int) j1);
    r1 = left(r3);
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      o0 = new int[] {i0, 3};
    }
    {
      Nd t2_0 = new Nd((three(c, i0, r1, i3) >>> 65535), null);
      i1 = ((i2 + i2) <= (i1 * i0) ? t2_0 : t2_0).get((i0 + i1)) + v(t2_0);
      t2_0.v += v(new Nd((a0[i0 & 7] + (d1 <= d0 ? i0 : i3)), r0)) + i3;
      r2 = link(c, r3, new Nd(t2_0.v, r0));
      i2 ^= chain(t2_0);
    }
    L3: for (int q3 = 0; q3 < 4 && --c.fuel > 0; ++q3) {
      r2 = r3;
      if (s0.length() < (int) j0) continue L3;
    }
    i3 = ((i0 + i2) >>> s0.length());
    a0[(i2 * i1) & 7] = (i3 >> (i1 % (i3 | 1)));
    switch ((100 * h0.get(i1)) & 7) {
    case 3:
      j0 ^= Frames1.m33(c, 2147483647, new Nd2((i0 * s0.length()), null, j1));
      a0[(i2 + i1) & 7] = h0.get((i2 % (i2 | 1)));
      break;
    case -5:
      if (r1 == r0) {
        try {
          d0 = ((d0 - d0) * d1);
          {
            Nd t4_0 = mk(c, (((char) i2) + v(r3)), r3.l);
            Nd t4_1 = new Nd((65535 & i0), null);
            t4_0.v = i3 < 31 ? 1 : 0;
            j0 = j0 * 31 + sl(c, t4_1, j1, i3);
            i2 = (r3 != null ? t4_0 : t4_0).get((i3 >> i0)) + v(t4_0);
            j0 = j0 * 31 + sl(c, t4_0, j1, (int) (j0 * j1));
            t4_0.l = link(c, new Nd2((h0.get(i0) << (i3 + i1)), r2, -373708824003L), new Nd2(i2, r1, (long) (int) j1));
            i0 ^= chain(t4_0);
            i0 ^= chain(t4_1);
          }
          {
            Nd t5_0 = mk(c, ((i1 + i2) + (int) j1), b0[i0 & 3]);
            Nd t5_1 = mk(c, i1, link(c, r1, r0));
            t5_1.v += v(new Nd((v(r1) ^ 2), r2)) + (a0[i1 & 7] + ((char) i0));
            i0 += three(c, ((short) i2), t5_1, t5_1.get((i1 >>> i3)));
            i0 ^= chain(t5_0);
            i2 ^= chain(t5_1);
          }
          L6: for (int q6 = 0; q6 < 3 && --c.fuel > 0; ++q6) {
            i3 += i1;
            h0 = sh(c, a0[i0 & 7]);
            j0 ^= Frames1.m38(c, ((i0 - i0) * v(r0)), new Nd((v(r0) >>> i2), r1));
            i3 = (d0 <= d0 ? h0.get(i1) : i3);
          }
        } catch (RuntimeException e1) {
          i1 = i3 ^ code(e1);
          L7: for (int q7 = 0; q7 < 4 && --c.fuel > 0; ++q7) {
            i3 += i2;
          }
          i0 = 3;
          i1 = (int) (long) (i0 - i2);
          o0 = s0;
        } finally {
          c.point();
        }
        {
          Nd t8_0 = new Nd2((i3 - i1), r2, (i3 != ((char) i2) ? sl(c, r2, j1, (i0 % (i2 | 1))) : (j0 << i2)));
          Nd t8_1 = mk(c, (true ? (i3 & i0) : (int) j1), new Nd2(i0, null, (j0 / (j1 | 1L))));
          d1 = d1 * 0.5 + dl(c, t8_0, d1, t8_1.lg(c, -695935658189L, r3));
          i1 += three(c, i0, t8_0, t8_0.get(v(r3)));
          i1 ^= chain(t8_0);
          i2 ^= chain(t8_1);
        }
      } else {
        j1 = (((long) d0 + (j0 - j1)) + -12145274042L);
      }
      i2 += (i3 - i1);
      {
        Nd t9_0 = new Nd(i3, r0);
        Nd t9_1 = new Nd2(a0[i3 & 7], r2, (long) (int) j0);
        t9_0.v = r1 != null ? 1 : 0;
        t9_0.v = r0 != r1 ? 1 : 0;
        j0 = j0 * 31 + sl(c, t9_1, j0, three(c, (i3 / (i1 | 1)), r2, 3));
        i0 ^= chain(t9_0);
        i3 ^= chain(t9_1);
      }
      b0[v(r1) & 3] = (r2 != null ? r2 : b0[(true ? i0 : i1) & 3]);
    case -100:
      r0 = r1;
      i2 += (r0 == null ? i3 : i3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m41(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 91, i2 = c.fuel & 15, i3 = -5;
    long j0 = p * 1000003L, j1 = 161985381L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      i0 = i0;
      i1 = 2;
      i1 = (i1 ^ mk(c, 0, r2).get(i1));
    } catch (Ex e1) {
      i0 = i0 ^ code(e1);
      if (r2 == r0) return fin(c, j1, i0, r3);
      r3 = (r3 != null ? new Nd(i1, r2) : r1);
    } catch (ClassCastException e2) {
      i2 = i1 ^ code(e2);
      try {
        i2 = (s0.length() < h0.get(i0) ? i3 : (((byte) i0) & i2));
      } catch (NegativeArraySizeException e3) {
        i3 = i2 ^ code(e3);
        {
          Nd t1_0 = new Nd(7, r3);
          Nd t1_1 = new Nd(i3, r0);
          d1 = d1 * 0.5 + dl(c, t1_1, d0, t1_1.lg(c, (j0 % (j0 | 1L)), r1));
          i1 = (j1 != j0 ? t1_0 : t1_0).get((i3 - i2)) + v(t1_0);
          d1 = d1 * 0.5 + dl(c, t1_1, d1, t1_1.lg(c, (j1 - j0), r1));
          d1 = d1 * 0.5 + dl(c, t1_0, d0, t1_1.lg(c, -193650842752L, r3));
          i2 ^= chain(t1_0);
          i1 ^= chain(t1_1);
        }
      } catch (RuntimeException e4) {
        i3 = i1 ^ code(e4);
        if (r2 == null) return fin(c, j1, i0, r2);
      }
      d1 = d1;
      i1 = s0.length();
      r1 = link(c, (d1 == d1 ? new Nd(v(left(r2)), r2) : (r2 instanceof Nd ? r2 : r0)), new Nd2(a0[(i1 << i1) & 7], r0, j1));
    } catch (NegativeArraySizeException e5) {
      i1 = i2 ^ code(e5);
      if (r0 instanceof Nd) return fin(c, j1, i0, r2);
      r3 = r3;
      i1 = i1;
      j0 = j0;
    }
    o0 = new int[] {v(r3), 3};
    if ((i2 <= mk(c, i1, r1).get(i3) && d0 <= d0)) {
      j0 = (long) (i2 - i0);
      if (r0 != null) return fin(c, j1, i0, r2);
      j1 = j1;
      j1 = (j1 / ((long) d1 | 1L));
    }
    L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
      d1 = dl(c, new Nd2(100, r3, j0), (d0 - d1), j0);
      switch ((i1 - (i2 - i3)) & 7) {
      case 0:
        try {
          try {
            i3 = v(new Nd2(i1, r0, (j1 & j1)));
            i0 += v(r0);
            a0[(i3 & i2) & 7] = three(c, i0, link(c, r1, r1), (int) j1);
            i2 = ((short) i0);
          } catch (ArrayIndexOutOfBoundsException e6) {
            i2 = i0 ^ code(e6);
            r3 = new Nd((31 + (int) j0), r3);
            i0 = (int) j0;
            i3 = (three(c, (int) j0, (Nd) o0, i2) >>> ((i0 >> i1) + (i0 ^ i0)));
            i2 += (true ? i2 : i3);
          } catch (NullPointerException e7) {
            i2 = i0 ^ code(e7);
            j1 = (j1 + 742865490368L);
            {
              Nd t3_0 = new Nd2(mk(c, i1, r2).get(i1), r1, ((j0 + j1) * j1));
              Nd t3_1 = new Nd(i3, r3);
              i1 = (sl(c, new Nd((mk(c, i2, r2).get(i0) & i3), r0), j1, i0) <= (r3 != null ? j0 : j1) ? t3_0 : t3_0).get((i2 >>> i1)) + v(t3_0);
              t3_1.l = link(c, new Nd(mk(c, (i1 + i1), r3).get((int) j0), r3), new Nd(i3, r0));
              i3 ^= chain(t3_0);
              i2 ^= chain(t3_1);
            }
            r3 = link(c, r1, new Nd2(i1, null, (j0 + j0)));
          } catch (Ex e8) {
            i2 = i0 ^ code(e8);
            i0 += i2;
            i1 += ((char) i3);
            r3 = new Nd(i0, r0);
          } catch (RuntimeException e9) {
            i0 = i1 ^ code(e9);
            i1 += i1;
            i0 += three(c, i1, r0, i2);
          }
          i2 += (i2 + i1);
          b0[i2 & 3] = r0;
          i0 += (i1 >>> i2);
        } catch (ClassCastException e10) {
          i1 = i3 ^ code(e10);
          c.point();
          r2 = link(c, r1, new Nd2(mk(c, i0, r1).get((int) j0), r0, 800698413755L));
        } catch (ArithmeticException e11) {
          i3 = i2 ^ code(e11);
          i3 += i1;
        } catch (ArrayIndexOutOfBoundsException e12) {
          i0 = i0 ^ code(e12);
          i3 += 7;
          i2 = ((d0 <= d0 ? (i2 ^ i1) : a0[i0 & 7]) >>> s0.length());
          s0 = cut(s0 + "x");
        } catch (RuntimeException e13) {
          i0 = i0 ^ code(e13);
          i2 += (int) j1;
        }
      case 1:
        {
          Nd t4_0 = new Nd(s0.length(), r0);
          i2 += three(c, (i2 - i0), t4_0, t4_0.get(i1));
          t4_0.v += v(link(c, r1, b0[i3 & 3])) + ((short) (i3 * i0));
          r1 = link(c, r1, new Nd(t4_0.v, r3));
          d1 = d1 * 0.5 + dl(c, t4_0, d1, t4_0.lg(c, (j0 >>> (i1 * i0)), r1));
          d1 = d1 * 0.5 + dl(c, t4_0, d0, t4_0.lg(c, j0, r1));
          i0 ^= chain(t4_0);
        }
        i2 += 31;
      case 4:
        if ((sl(c, new Nd(((i0 << i0) >> 0), r3), j1, 0) < (j1 / (j1 | 1L)) || three(c, i1, r0, i0) <= (i1 * i1))) break L2;
        i2 = a0[((i3 ^ i1) << s0.length()) & 7];
        i2 += (i1 * i2);
      case 3:
        i2 += v(r2);
      case 2:
        if ((r3 != null || r3 == null)) break L2;
      }
      i0 += 65535;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m42(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 6, i2 = c.fuel & 15, i3 = -6;
    long j0 = p * 1000003L, j1 = -883522880L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i0 = v(r0);
    try {
      s0 = cut(s0 + 2);
    } catch (ArithmeticException e1) {
      i1 = i3 ^ code(e1);
      L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
        i3 = -2147483647;
        b0[v(r2) & 3] = left(r3);
      }
      try {
        if ((r3 == r0 || (j0 << i3) < sl(c, b0[(i0 ^ i0) & 3], j1, (r1 != null ? i0 : i3)))) throw new Ex((2147483647 - (i0 / i3)));
        L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
          j0 ^= Frames1.m30(c, (7 - i0), new Nd2(i1, r0, (long) 100));
          i2 = (i0 - i1);
        }
      } catch (RuntimeException e2) {
        i2 = i3 ^ code(e2);
        switch (i1) {
        case 100000:
          if ((i2 + i2) != 1) {
            d0 = (d0 * (double) i3);
            i2 = ((char) (i3 < (i3 * i2) ? (i0 & i3) : (i1 - i1)));
          }
          d0 = d1;
        case 0:
          o0 = new Object[] {r0, r1, o0};
        case -5:
          switch (mk(c, 100, r3).get((i3 / (i3 | 1))) & 7) {
          case 6:
            i1 += (i0 - i1);
          case 0:
            i3 = mk(c, i0, r3).get(i3);
            i2 = i0;
            j0 = j0;
            break;
          case 2:
            {
              Nd t3_0 = new Nd(i1, r3);
              j1 = j1 * 31 + sl(c, t3_0, (long) (int) j0, (s0.length() >>> h0.get(i3)));
              t3_0.v += v(new Nd((v(r0) >>> 5), r3)) + i2;
              i2 = (784617419138L > j1 ? t3_0 : t3_0).get(i0) + v(t3_0);
              j0 = j0 * 31 + t3_0.lg(c, j0, r1);
              t3_0.l = link(c, new Nd(((i2 * i3) - (i2 & i3)), r0), null);
              i0 ^= chain(t3_0);
            }
            j1 = sl(c, ((int) j0 >= (i2 + i3) ? r2 : r2), j0, v(r2));
            i1 += (i2 - i2);
            j0 ^= Frames1.m34(c, i0, new Nd(((r0 == null ? i2 : i2) << i3), r0));
          }
          break;
        case 3:
          r3 = r2;
          switch (i0) {
          case 100000:
            r2 = r0;
            r0 = new Nd(((i2 + i1) / (0 | 1)), r1);
            r1 = r2;
            break;
          case 0:
            s0 = cut(s0 + j1);
            break;
          case 77:
            i0 += 1;
            i2 = ((i2 * i0) >>> ((short) 1));
          case 1000:
            {
              Nd t4_0 = new Nd(i0, r1);
              Nd t4_1 = new Nd2((int) j1, r0, (j1 + (j1 / (j0 | 1L))));
              i3 += three(c, 5, t4_1, t4_0.get((int) j1));
              t4_0.l = link(c, new Nd(v(r2), r2), r0);
              t4_0.l = link(c, r2, r3);
              j1 = j1 * 31 + sl(c, t4_1, (true ? j0 : j0), 3);
              i3 ^= chain(t4_0);
              i3 ^= chain(t4_1);
            }
            r1 = new Nd(((i0 / (i0 | 1)) & (i3 + i1)), r0);
            r2 = b0[(i2 & i0) & 3];
            break;
          case 3:
            i2 = i3;
            d0 = (double) i2;
            i3 += (i0 << i0);
            break;
          default:
            c.point();
            c.point();
          }
          {
            Nd t5_0 = mk(c, (i1 % ((i0 + i2) | 1)), r0);
            Nd t5_1 = new Nd(s0.length(), r3);
            j0 = j0 * 31 + t5_0.lg(c, j1, r1);
            j0 = j0 * 31 + t5_0.lg(c, (j0 ^ j1), link(c, r0, r0));
            j0 = j0 * 31 + sl(c, t5_0, -821077401697L, sh(c, 5).get((i0 >>> i2)));
            i2 ^= chain(t5_0);
            i2 ^= chain(t5_1);
          }
        }
        r3 = (d1 == d0 ? new Nd2(h0.get((i1 / (i1 | 1))), r1, j1) : r0);
      } finally {
        i0 = i0;
      }
    } catch (RuntimeException e3) {
      i3 = i2 ^ code(e3);
      if (r0 != r3) return fin(c, j1, i0, r3);
      i3 += (int) j1;
      a0[(i3 / (i0 | 1)) & 7] = i1;
      c.point();
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m43(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 29, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = 629523022L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    synchronized (lk(c, r3)) {
      a0[a0[i0 & 7] & 7] = ((i1 & i2) ^ three(c, i3, r1, i2));
    }
    h0 = sh(c, i3);
    try {
      i2 = (mk(c, (i1 ^ i0), r0).get((i2 + i2)) << i2);
      a0[(i0 % i0) & 7] = i0;
      switch (i3) {
      case 100000:
        L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
          j1 = (long) d1;
        }
        j1 = ((long) i0 ^ ((j1 - j0) + j0));
      case -5:
        if (r1 == r3) {
          r3 = r2;
          s0 = cut(s0 + (char) (65 + (i2 & 15)));
          i2 = h0.get(((i2 - i2) + (int) j0));
        }
        j0 ^= Frames1.m41(c, (-1 / (i0 % i3)), new Nd(((i2 * i2) + s0.length()), r1));
        try {
          i1 = (int) j0;
          r3 = new Nd(((char) i2), r0);
        } catch (NegativeArraySizeException e1) {
          i2 = i2 ^ code(e1);
          switch (i2 & 7) {
          case 7:
            c.point();
            b0[(i0 + i2) & 3] = r2.l;
            h0 = sh(c, (i1 - sh(c, 31).get(i1)));
            s0 = cut(s0 + "x");
          case 4:
            i1 += (i1 + i2);
            i3 += (i2 + i2);
            r3 = new Nd(mk(c, i1, r1).get(i0), null);
          case 6:
            i0 = i1;
            i1 += (int) j1;
          }
        } catch (ClassCastException e2) {
          i0 = i3 ^ code(e2);
          b0[i0 & 3] = new Nd(((i1 & i0) + (r2 == r2 ? i1 : i1)), r3);
          r1 = r3.l;
        } catch (RuntimeException e3) {
          i2 = i2 ^ code(e3);
          i1 += 100;
          r0 = null;
          a0[i0 & 7] = i3;
        } finally {
          r3 = (d1 >= d1 ? new Nd2(((i0 + i2) >>> (i1 ^ i3)), r1, j1) : r0);
          i0 = i2;
          r1 = new Nd(h0.get(a0[i3 & 7]), r3);
        }
        i2 += i0;
      case 0:
        i3 += (i0 + i1);
        break;
      case 3:
        i3 += v(r3);
        i1 += i0;
        {
          Nd t2_0 = new Nd2((i2 - i1), r3, j0);
          Nd t2_1 = new Nd2((i2 ^ i0), r2, (long) d0);
          i0 = (r1 == r3 ? t2_1 : t2_0).get(i0) + v(t2_1);
          j0 = j0 * 31 + sl(c, t2_0, j0, three(c, (i1 + i0), link(c, r2, r3), 65535));
          i3 ^= chain(t2_0);
          i1 ^= chain(t2_1);
        }
        break;
      default:
        i0 = (i0 % h0.get(i2));
        i3 += i3;
        {
          Nd t3_0 = mk(c, (int) j1, b0[i0 & 3]);
          Nd t3_1 = new Nd(0, r3);
          i2 = (h0.get(i1) < i1 ? t3_0 : t3_1).get(v(r1)) + v(t3_0);
          r2 = link(c, r1, new Nd(t3_1.v, r1));
          i0 += three(c, i0, t3_1, t3_1.get((i2 / i1)));
          r1 = link(c, r2, new Nd(t3_0.v, r3));
          j0 = j0 * 31 + t3_1.lg(c, j1, r1);
          i1 ^= chain(t3_0);
          i1 ^= chain(t3_1);
        }
      }
    } catch (ArrayIndexOutOfBoundsException e4) {
      i0 = i3 ^ code(e4);
      if (r0 instanceof Nd) return fin(c, j1, i0, r1);
      d0 = d1;
    } catch (NegativeArraySizeException e5) {
      i2 = i0 ^ code(e5);
      i3 = i0;
      i1 += 2147483647;
      if (r2 != r0) return fin(c, j1, i0, r1);
      i0 += (i2 << i3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m44(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 26, i2 = c.fuel & 15, i3 = -7;
    long j0 = p * 1000003L, j1 = 202010955L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 ^= Frames1.m34(c, (int) j1, r2);
    j0 = j1;
    c.point();
    i0 = ((i1 + h0.get(i2)) + i2);
    r0 = new Nd2(mk(c, i2, r3).get((i0 % (i2 | 1))), r3, -685348760904L);
    b0[2 & 3] = new Nd(((short) (i0 + i0)), null);
    L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
      a0[3 & 7] = i2;
    }
    i0 = (i1 % (((i0 + i3) + (i0 * i3)) | 1));
    if (r0 == null) {
      try {
        i2 = a0[(i0 + s0.length()) & 7];
        h0 = sh(c, i3);
        i3 = (v(((i0 & i1) >= (i0 & i0) ? r1 : r1)) - three(c, (i3 - i2), b0[(i3 + i2) & 3], (int) j1));
        synchronized (lk(c, r0)) {
          r1 = r2.l;
        }
      } catch (RuntimeException e1) {
        i3 = i2 ^ code(e1);
        r2 = r2;
      }
      i0 = three(c, v(r3), r2, h0.get((i2 >> i0)));
      i2 = i2;
    } else {
      if (r1 != null) {
        L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
          if (d1 < d0) return fin(c, j1, i0, r1);
        }
      } else {
        j0 ^= Frames1.m38(c, (int) (j0 - j1), r2);
        i3 += (i2 % (i2 | 1));
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m45(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 36, i2 = c.fuel & 15, i3 = -2;
    long j0 = p * 1000003L, j1 = 422754212L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    o0 = Integer.valueOf(v(r3));
    r0 = r3;
    L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
      if (((mk(c, i2, r1).lg(c, j1, r2) != (j1 * j1) || (int) j0 > i0) || r2 != r0)) {
        h0 = sh(c, (-2147483647 / ((i3 & i3) | 1)));
        i1 = (r2 == r1 ? (i3 >>> i0) : ((i0 - i1) >>> i3));
      }
      L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
        d1 = d1;
        r3 = new Nd((int) j1, r2);
        i1 = (((i2 << i1) & s0.length()) * 0);
        a0[i0 & 7] = i2;
      }
      try {
        j0 = (j1 - -250448659898L);
        h0 = sh(c, ((char) (i3 - i1)));
        j1 = j1;
        if (7819 >= h0.get(i2)) {
          h0 = sh(c, i3);
        }
      } catch (Ex e1) {
        i1 = i3 ^ code(e1);
        if (r1 instanceof Nd) continue L1;
        b0[(i0 >>> i1) & 3] = r0;
        try {
          i2 = ((i1 + (i0 ^ i2)) ^ i0);
          r1 = new Nd((((short) i2) << (i1 + i1)), r2);
        } catch (NegativeArraySizeException e2) {
          i1 = i1 ^ code(e2);
          r3 = link(c, new Nd2(three(c, v(r1), new Nd2(((i0 & i3) << (i2 >> i0)), null, (long) (i0 >>> i1)), 2), r0, mk(c, sh(c, (i2 + i3)).get(i2), r2).lg(c, j1, null)), (i2 == i3 ? new Nd(i0, null) : ((r2 != null || d0 <= d0) ? r3 : r1)));
          i3 += (i2 / (i2 | 1));
        } catch (NullPointerException e3) {
          i2 = i0 ^ code(e3);
          i0 = three(c, s0.length(), r2, i1);
          d1 = d0;
          {
            Nd t3_0 = new Nd(i1, r0);
            Nd t3_1 = mk(c, ((i0 - i1) << (i2 & i2)), r3);
            d1 = d1 * 0.5 + dl(c, t3_1, d0, t3_0.lg(c, (j0 >>> ((byte) i0)), r0));
            t3_0.v += v(left(r0)) + 3;
            r2 = link(c, r2, new Nd(t3_1.v, r2));
            j0 = j0 * 31 + t3_0.lg(c, (j0 ^ sl(c, new Nd((i2 & i3), r2), j1, i3)), new Nd2(i3, r0, mk(c, i3, r1).lg(c, j0, null)));
            i3 ^= chain(t3_0);
            i0 ^= chain(t3_1);
          }
        } catch (Ex e4) {
          i3 = i0 ^ code(e4);
          r0 = new Nd((i0 + (i3 << i1)), r3);
          r3 = (r3 == null ? new Nd(mk(c, three(c, i3, r3, i3), r0).get(7), null) : (2 < (i3 - i3) ? new Nd2(i1, r0, (j1 >>> i3)) : r1));
          c.point();
          i1 = a0[(s0.length() * mk(c, i1, r0).get(i1)) & 7];
        } catch (RuntimeException e5) {
          i3 = i3 ^ code(e5);
          b0[(i3 ^ i1) & 3] = new Nd(s0.length(), r1);
          r0 = link(c, new Nd(((i1 >> i2) - (i3 % (i1 | 1))), r0), left(r0));
          i0 += i0;
          i0 += three(c, i0, r2, i3);
        } finally {
          i1 += (i2 + i1);
          b0[i0 & 3] = new Nd(65535, null);
          i0 = a0[2 & 7];
        }
      } catch (RuntimeException e6) {
        i3 = i3 ^ code(e6);
        i1 = mk(c, (((byte) i0) << (i3 * i2)), r1).get(i1);
        i2 = h0.get(v(r2));
      }
      i0 += ((short) i2);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m46(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 70, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = -850927477L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    d1 = d0;
    o0 = Integer.valueOf(((int) j1 + -2147483647));
    synchronized (lk(c, r0)) {
      r1 = link(c, new Nd2(1000, r3, j1), new Nd(i3, r0));
      c.point();
      s0 = cut(s0 + (i1 * (i0 - i0)));
      j0 ^= Frames1.m38(c, i2, new Nd(v(r2), r2));
    }
    j0 ^= Frames1.m42(c, mk(c, (i1 & i1), r2).get(31), (r2 != null ? r0 : new Nd2(v(new Nd2(i0, r3, j1)), r3, (j0 - j1))));
    r2 = r0;
    r3 = b0[(i0 << i1) & 3];
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      j0 ^= Frames1.m34(c, i1, null);
      if (d0 >= d0) {
        j1 = sl(c, link(c, r3, r2), (long) d1, i2);
      } else {
        a0[(i3 >> i2) & 7] = (h0.get(i0) / (i0 | 1));
      }
      if (r0 instanceof Nd2) break L1;
    }
    c.point();
    h0 = sh(c, i3);
    try {
      j1 = (long) (i0 << i0);
      i2 += (i2 >>> i3);
    } catch (NullPointerException e1) {
      i3 = i1 ^ code(e1);
      i2 = ((true ? (i0 % (i1 | 1)) : three(c, i1, r3, i1)) ^ i0);
      j1 = (mk(c, i0, r1).lg(c, (j0 - j1), left(r3)) % (mk(c, i3, r0).lg(c, mk(c, 100, r3).lg(c, j0, null), r0) | 1L));
      i1 = i1;
      o0 = new Object[] {r0, r1, o0};
    } catch (ClassCastException e2) {
      i2 = i0 ^ code(e2);
      i1 += i2;
      i1 = (i2 - (i3 * i1));
      i1 = (i3 - (h0.get(i2) + (i1 >>> i0)));
      i3 += i1;
    } catch (RuntimeException e3) {
      i3 = i1 ^ code(e3);
      r1 = link(c, (r2 != null ? new Nd2(i2, null, (long) (r2 != null ? i2 : i3)) : left(r0)), left(r3));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m47(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 7, i2 = c.fuel & 15, i3 = 5;
    long j0 = p * 1000003L, j1 = -53815062L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 ^= Frames1.m37(c, (int) j1, new Nd(a0[a0[i3 & 7] & 7], r2));
    r2 = r0;
    i2 = (int) (long) d1;
    i0 = (mk(c, (i2 >> i0), r0).get(-2147483647) >> (r3 != null ? (i0 & i1) : i0));
    b0[(i1 << i0) & 3] = left(r3);
    i0 = (((i0 >> i2) / ((i3 * i0) | 1)) >> (i1 / ((i0 / (i0 | 1)) | 1)));
    r2 = link(c, new Nd(s0.length(), r3), new Nd((i2 << i3), r3));
    {
      Nd t1_0 = new Nd((3 + i3), r0);
      Nd t1_1 = new Nd(h0.get((int) j1), r2);
      d1 = d1 * 0.5 + dl(c, t1_0, d1, t1_1.lg(c, sl(c, left(r0), j0, 100), r1));
      j1 = j1 * 31 + sl(c, t1_1, sl(c, new Nd((int) (j0 << three(c, i2, r2, i1)), null), j1, v(r0)), ((byte) i0));
      d1 = d1 * 0.5 + dl(c, t1_0, d0, t1_1.lg(c, (j0 & j0), r2));
      i1 ^= chain(t1_0);
      i0 ^= chain(t1_1);
    }
    i2 = ((v(r2) * (i0 << i1)) + ((int) j0 - (i3 % (i3 | 1))));
    i2 = ((i3 + (i3 ^ i1)) ^ ((i2 * i2) << -1));
    b0[(i2 + i3) & 3] = r0;
    try {
      try {
        i3 = -1;
        i3 = v(r3);
        if (r1 == r0) {
          s0 = cut(s0 + sl(c, new Nd(i2, r1), j0, a0[i0 & 7]));
          i3 = 5;
        } else {
          i3 += i2;
          i3 += (d0 > d0 ? i2 : i3);
        }
      } catch (RuntimeException e1) {
        i0 = i0 ^ code(e1);
        i2 = ((int[]) o0)[0];
        d0 = ((double) (int) j0 * (d1 + d1));
      }
      i1 = (a0[(i0 + i0) & 7] % ((i1 >> i0) >>> (i3 % i2)));
      a0[(d1 < d0 ? i3 : i1) & 7] = (int) j1;
    } catch (RuntimeException e2) {
      i0 = i1 ^ code(e2);
      f0 = f0 * 0.5f + (float) (i3 & 1023);
      i0 += i0;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m48(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 18, i2 = c.fuel & 15, i3 = -1;
    long j0 = p * 1000003L, j1 = 101202783L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i3 = (i2 + mk(c, i3, r2).get((i2 >> i0)));
    c.point();
    synchronized (lk(c, r1)) {
      if (r1 == null) return fin(c, j1, i0, r2);
      f0 = f0 * 0.5f + (float) (31 & 1023);
      r1 = new Nd(3, r0);
    }
    j0 = (-107234332875L / ((long) v(r3) | 1L));
    L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
      try {
        b0[(d0 <= d0 ? i3 : i2) & 3] = r3;
        {
          Nd t2_0 = new Nd(h0.get(v(r1)), null);
          Nd t2_1 = mk(c, i3, new Nd((a0[i0 & 7] & (i2 << i0)), r2));
          d1 = d1 * 0.5 + dl(c, t2_1, d1, t2_1.lg(c, (j0 & j0), r3));
          r3 = link(c, r3, new Nd(t2_1.v, r1));
          r2 = link(c, r3, new Nd(t2_0.v, r0));
          t2_0.v = r3 != r0 ? 1 : 0;
          r2 = link(c, r3, new Nd(t2_0.v, r3));
          i2 ^= chain(t2_0);
          i0 ^= chain(t2_1);
        }
        i1 = ((int) (j0 - j1) + a0[1 & 7]);
      } catch (NullPointerException e1) {
        i1 = i2 ^ code(e1);
        r3 = link(c, new Nd(i3, r1), new Nd(i2, r1));
        r1 = new Nd(three(c, (i2 << i0), new Nd(i3, r2), (i2 + i3)), null);
      } catch (ClassCastException e2) {
        i2 = i1 ^ code(e2);
        i0 = i0;
        L3: for (int q3 = 0; q3 < 1 && --c.fuel > 0; ++q3) {
          i1 = a0[(s0.length() + i3) & 7];
          s0 = cut(s0 + i3);
          i3 = v(r0);
        }
        L4: for (int q4 = 0; q4 < 1 && --c.fuel > 0; ++q4) {
          f0 = f0 * 0.5f + (float) (i2 & 1023);
          j0 = ((long) d1 ^ j0);
          i0 = v(new Nd(i1, null));
          c.point();
        }
      } catch (ArrayIndexOutOfBoundsException e3) {
        i3 = i0 ^ code(e3);
        r3 = r1;
        if ((j1 - j1) > (j0 * j0)) continue L1;
        h0 = sh(c, ((i1 >>> i2) << (i0 & i2)));
      } catch (RuntimeException e4) {
        i3 = i1 ^ code(e4);
        i1 += a0[i2 & 7];
        i0 += three(c, i2, r3, i1);
      }
      r3 = r3;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m49(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 45, i2 = c.fuel & 15, i3 = -2;
    long j0 = p * 1000003L, j1 = 16707900L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j1 = ((j0 + j1) - j1);
    i1 = v(null);
    s0 = cut(s0 + "x");
    j1 = (((j1 & j1) ^ (j0 / (j1 | 1L))) + ((long) (int) j1 ^ sl(c, new Nd(i3, r0), (j0 >>> (i1 - i0)), (i2 % (i3 | 1)))));
    c.point();
    c.point();
    {
      Nd t1_0 = mk(c, (i1 / ((i0 & i0) | 1)), new Nd(i0, r1));
      d1 = d1 * 0.5 + dl(c, t1_0, d1, t1_0.lg(c, (long) (i2 / (i0 | 1)), r0));
      t1_0.v += v(link(c, left(r1), link(c, r1, r1))) + i1;
      i2 = ((i1 - i1) < ((char) i1) ? t1_0 : t1_0).get(2147483647) + v(t1_0);
      i0 ^= chain(t1_0);
    }
    c.point();
    i0 = ((h0.get(i3) * (i1 << i1)) + ((i1 + i3) & (i2 << i2)));
    L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
      L3: for (int q3 = 0; q3 < 1 && --c.fuel > 0; ++q3) {
        a0[s0.length() & 7] = ((i0 << i1) & (i1 ^ i2));
        d0 = d1;
        try {
          if (((i3 & i2) == (i1 >>> i1) && d0 < d1)) {
            i1 += (int) j1;
            i2 = i2;
            if (r3 == null) throw new Ex2(i3, r3);
          } else {
            i0 = (r2 == r2 ? ((int) j1 % i1) : (5 << v(r3)));
            if (d0 < d1) throw new RuntimeException(s0);
          }
        } catch (ClassCastException e1) {
          i1 = i1 ^ code(e1);
          i0 = i3;
          r3 = new Nd(i0, r1);
          r1 = ((i0 % (i3 | 1)) >= s0.length() ? new Nd(i0, r0) : r0);
        } catch (NegativeArraySizeException e2) {
          i3 = i0 ^ code(e2);
          try {
            i3 = (a0[i0 & 7] - ((i1 >> i2) + a0[i2 & 7]));
            r2 = new Nd((int) j0, r2);
            i2 += 100;
            f0 = f0 * 0.5f + (float) (i1 & 1023);
          } catch (Ex e3) {
            i1 = i2 ^ code(e3);
            i2 += (i3 & i0);
          } catch (NegativeArraySizeException e4) {
            i0 = i1 ^ code(e4);
            i3 += i0;
            i1 = (int) sl(c, left(r1), (long) three(c, i2, r3, i1), i3);
            o0 = Integer.valueOf((int) (j0 >>> v(r2)));
          } catch (ArrayIndexOutOfBoundsException e5) {
            i0 = i3 ^ code(e5);
            i3 += 2147483647;
            j1 = j0;
          } catch (RuntimeException e6) {
            i2 = i1 ^ code(e6);
            i0 += (i3 - i2);
            {
              Nd t4_0 = mk(c, (h0.get(i2) + three(c, i2, r1, i2)), r1);
              d1 = d1 * 0.5 + dl(c, t4_0, d0, t4_0.lg(c, j1, r1));
              t4_0.l = link(c, left(r3), link(c, r2, r2));
              t4_0.v = r2 == r2 ? 1 : 0;
              t4_0.v += v(new Nd(i1, r2)) + (i2 ^ i1);
              i0 ^= chain(t4_0);
            }
            i3 = (((int) j1 - v(r0)) >> (1 & (int) j0));
            i0 += i3;
          }
          r2 = r3;
          i2 += sh(c, i3).get(i1);
        } catch (ArrayIndexOutOfBoundsException e7) {
          i1 = i0 ^ code(e7);
          i0 += i3;
          j1 = j1;
          {
            Nd t5_0 = mk(c, ((byte) (i0 + i3)), new Nd(i1, r0));
            i3 = (660683971552L != (j1 - j1) ? t5_0 : t5_0).get(100) + v(t5_0);
            j1 = j1 * 31 + sl(c, t5_0, (long) i2, ((i3 << i1) + (i3 + i1)));
            t5_0.l = link(c, new Nd(a0[i1 & 7], r1), (d1 > d0 ? r3 : r0));
            t5_0.v = (j1 - j0) < -673792161500L ? 1 : 0;
            j0 = j0 * 31 + t5_0.lg(c, j1, (237183323451L < j0 ? r3 : r1));
            i1 ^= chain(t5_0);
          }
          i0 += i3;
        } catch (RuntimeException e8) {
          i2 = i1 ^ code(e8);
          i1 = i1;
        }
      }
      i0 += (i1 - i3);
      {
        Nd t6_0 = new Nd2(i2, r3, (j0 << i2));
        j1 = j1 * 31 + t6_0.lg(c, (long) (int) j1, new Nd(-1, r0));
        i3 = (r3 instanceof Nd ? t6_0 : t6_0).get(v(r2)) + v(t6_0);
        d1 = d1 * 0.5 + dl(c, t6_0, d0, t6_0.lg(c, (j1 / (j0 | 1L)), r1));
        i3 ^= chain(t6_0);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }
}

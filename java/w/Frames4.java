package w;

/** Generated by tools/genframes.py. */
class Frames4 extends Frames {
  static long m100(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 16, i2 = c.fuel & 15, i3 = 9;
    long j0 = p * 1000003L, j1 = -619009619L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i1 = (((i1 - i2) + (i2 >= ((short) i0) ? i0 : i2)) << mk(c, 1, r0).get(v(r2)));
    {
      Nd t1_0 = mk(c, i3, left(r3));
      t1_0.l = link(c, new Nd((i0 + i3), r3), (mk(c, i2, r1).get(i3) <= a0[i1 & 7] ? r3 : r0));
      j1 = j1 * 31 + t1_0.lg(c, (true ? j0 : j1), left(r1));
      j1 = j1 * 31 + t1_0.lg(c, 42729089765L, left(r3));
      t1_0.l = link(c, left(r2), new Nd(a0[(i3 >> i2) & 7], r2));
      i0 ^= chain(t1_0);
    }
    c.point();
    L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
      b0[(d1 >= d0 ? i3 : i0) & 3] = link(c, new Nd(v(new Nd(((i0 - i3) & (i0 >= (i2 >>> i3) ? i3 : i0)), r1)), r1), new Nd2(-1, r3, 761355878841L));
      try {
        i2 = ((short) i2);
      } catch (ArithmeticException e1) {
        i0 = i1 ^ code(e1);
        L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
          d1 = dl(c, r3, (d0 * d0), (j1 >>> i1));
          d0 = (double) v(r3);
          j0 ^= Frames3.m95(c, 3, left(r3));
        }
        L4: for (int q4 = 0; q4 < 2 && --c.fuel > 0; ++q4) {
          i1 = (((r2 != r2 ? i1 : i1) * a0[i3 & 7]) << (i0 & 5));
        }
        d1 = (d1 - d1);
      } catch (NegativeArraySizeException e2) {
        i3 = i2 ^ code(e2);
        i3 = (0 % ((i2 >> (i3 << i1)) | 1));
        i2 += (i2 / (i0 | 1));
        {
          Nd t5_0 = new Nd(a0[(int) j0 & 7], r2);
          t5_0.l = link(c, new Nd(i3, r1), new Nd2((int) (long) 5, r2, (j0 / (j1 | 1L))));
          j0 = j0 * 31 + sl(c, t5_0, (j0 / (j1 | 1L)), a0[i1 & 7]);
          r3 = link(c, r3, new Nd(t5_0.v, r3));
          r0 = link(c, r0, new Nd(t5_0.v, r1));
          i3 ^= chain(t5_0);
        }
        i2 += (i1 * i1);
      } catch (Ex e3) {
        i0 = i1 ^ code(e3);
        i0 += (int) j0;
        i2 += i2;
        i2 = -2147483647;
      } catch (RuntimeException e4) {
        i0 = i3 ^ code(e4);
        s0 = cut(s0 + (char) (65 + (i3 & 15)));
      } finally {
        j1 = (long) v(r0);
        b0[(i3 - i2) & 3] = new Nd(i3, r1);
        r0 = new Nd(h0.get((i1 + i0)), r2);
        j1 = (j1 ^ (long) v(r2));
      }
      i0 += -7253;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m101(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 56, i2 = c.fuel & 15, i3 = -9;
    long j0 = p * 1000003L, j1 = -754345852L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    b0[(i1 % (i2 | 1)) & 3] = left(r1);
    r1 = b0[(i2 + i1) & 3];
    c.point();
    h0 = sh(c, i2);
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      r0 = link(c, new Nd2(i1, r3, (j1 + j1)), r3);
    }
    d0 = d0;
    a0[i3 & 7] = mk(c, v(r2), r2).get(i1);
    h0 = sh(c, ((byte) 2147483647));
    j0 = j0;
    try {
      L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
        if (r0 instanceof Nd) {
          b0[(i2 - i0) & 3] = r0;
          i3 = (-1 & i1);
          d1 = (d0 + (d0 - d1));
        } else {
          if (((int) j0 < ((i1 / i0) == a0[i0 & 7] ? i3 : i1) || r2 instanceof Nd2)) {
            r2 = new Nd(((true ? i1 : i1) * h0.get(i2)), r1);
            i1 = 1;
            i3 += (int) j1;
            i0 = 7;
          }
          d0 = (dl(c, r3, d0, j1) - (d1 + d1));
          a0[i0 & 7] = i3;
          i1 = i1;
        }
        if (((i0 + i0) >= i2 && (j1 * j0) < (j0 % (j1 | 1L)))) continue L2;
        r0 = new Nd((int) j0, r3);
      }
      i3 = (sh(c, three(c, i2, r1, i3)).get((r2 instanceof Nd2 ? i3 : i1)) + ((i0 + i3) + a0[i3 & 7]));
      if (r1 == r2) {
        h0 = sh(c, v(null));
        i3 = i3;
      }
    } catch (ClassCastException e1) {
      i1 = i2 ^ code(e1);
      i3 += a0[i3 & 7];
      b0[i1 & 3] = link(c, r3, r1);
      r2 = r0;
    } catch (Ex e2) {
      i2 = i0 ^ code(e2);
      i2 = (s0.length() * (v(r3) + (i3 < (i3 * i2) ? i3 : i1)));
    } catch (RuntimeException e3) {
      i2 = i0 ^ code(e3);
      r0 = new Nd2(s0.length(), null, j0);
      a0[s0.length() & 7] = i3;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m102(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 12, i2 = c.fuel & 15, i3 = 5;
    long j0 = p * 1000003L, j1 = 607928585L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    i1 = i0;
    d0 = d0;
    a0[v(r0) & 7] = 2147483647;
    o0 = new int[] {i1, 3};
    r1 = b0[h0.get(i2) & 3];
    d1 = (d0 + d1);
    if ((r2 != null || v(r3) >= (int) j1)) {
      o0 = new Object[] {r0, r1, o0};
    } else {
      if ((i0 * i3) < (i0 - i2)) {
        i1 = i0;
        synchronized (lk(c, r0)) {
          d1 = (double) (i3 + i0);
          if (r2 instanceof Nd) return fin(c, j1, i0, r2);
          switch (((i1 >> i3) >>> (i2 / (i2 | 1))) & 7) {
          case 5:
            i1 += i2;
            j0 ^= Frames4.m101(c, i3, left(r1));
            i1 += (i3 / (i0 | 1));
            r0 = ((r2 == null && r0 == null) ? new Nd((i1 <= (i1 / (i2 | 1)) ? 1 : i1), null) : r1);
            break;
          case 4:
            r3 = r3;
            i1 += v(r0);
          case 2:
            r1 = left(r2);
            i0 += i1;
            break;
          case 3:
            if ((o0 instanceof Nd || (j0 * j1) != (j0 % (j0 | 1L)))) return fin(c, j1, i0, r0);
            i3 = v(null);
          case 7:
            {
              Nd t1_0 = mk(c, 0, b0[(i0 / (i3 | 1)) & 3]);
              t1_0.l = link(c, new Nd2(31, r3, j1), link(c, r0, r3));
              i3 = (r0 == null ? t1_0 : t1_0).get((i1 / (i1 | 1))) + v(t1_0);
              t1_0.l = link(c, left(r2), link(c, r1, r3));
              i0 = (r0 != null ? t1_0 : t1_0).get(i3) + v(t1_0);
              i0 ^= chain(t1_0);
            }
            i1 += i3;
            i0 += v(r0);
            break;
          }
          f0 = f0 * 0.5f + (float) ((i3 & i1) & 1023);
        }
        r3 = new Nd2(i2, r1, (long) d0);
        i3 = ((s0.length() + mk(c, i3, r0).get(i1)) / (i1 | 1));
      }
      r0 = null;
      try {
        i2 += 1000;
      } catch (RuntimeException e1) {
        i1 = i1 ^ code(e1);
        if (r2 == null) return fin(c, j1, i0, r1);
      }
      o0 = new int[] {s0.length(), 3};
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m103(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 94, i2 = c.fuel & 15, i3 = -6;
    long j0 = p * 1000003L, j1 = 301616709L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r0 = ((j0 < j0 || true) ? link(c, new Nd2(i3, null, (j1 + j1)), new Nd((i2 >>> i2), r2)) : new Nd(mk(c, (i2 % (i2 | 1)), r1).get(-7316), r2));
    switch (i2) {
    case -5:
      j1 = 992680054876L;
      try {
        j1 = ((sl(c, r3, j0, v(r1)) / (long) i2) + ((j0 + j0) ^ sl(c, left(r0), j1, i1)));
      } catch (RuntimeException e1) {
        i0 = i0 ^ code(e1);
        r0 = new Nd(2, r1);
        {
          Nd t1_0 = new Nd2((i3 & i2), r2, ((long) i2 - (j1 - sl(c, left(r1), j1, (i2 + i1)))));
          r1 = link(c, r1, new Nd(t1_0.v, r2));
          t1_0.v = r0 == null ? 1 : 0;
          i0 ^= chain(t1_0);
        }
        i0 = (h0.get(i0) >= (i3 + i2) ? (i2 % (s0.length() | 1)) : ((i1 >> i2) - (i0 / (i2 | 1))));
      } finally {
        try {
          L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
            r1 = r2.l;
            i2 += (i2 >> i1);
            {
              Nd t3_0 = new Nd2((i3 >> i3), r3, -155666138329L);
              Nd t3_1 = new Nd(s0.length(), r1);
              r1 = link(c, r2, new Nd(t3_0.v, r3));
              i1 = ((int) j1 <= 65535 ? t3_1 : t3_1).get(i3) + v(t3_1);
              t3_0.v += v((Nd) o0) + ((int) j1 % i2);
              t3_1.l = link(c, new Nd2(((i1 << i2) + (i1 << i0)), null, (j0 + j1)), link(c, r1, r2));
              i1 ^= chain(t3_0);
              i3 ^= chain(t3_1);
            }
          }
          j0 ^= Frames3.m93(c, s0.length(), r0);
          s0 = cut(s0 + "x");
          b0[i0 & 3] = (r0 instanceof Nd ? r1 : new Nd((i2 >>> i3), r2));
        } catch (NegativeArraySizeException e2) {
          i2 = i0 ^ code(e2);
          i1 += (i3 - i0);
        } catch (ClassCastException e3) {
          i3 = i3 ^ code(e3);
          i2 = a0[i1 & 7];
          r0 = r1;
          i1 += three(c, i1, r1, i3);
          i2 = (i1 + 2);
        } catch (NullPointerException e4) {
          i2 = i3 ^ code(e4);
          {
            Nd t4_0 = new Nd2((i0 % (i0 | 1)), r0, ((j0 * j1) ^ sl(c, left(r2), (j1 & j1), (i1 / (i1 | 1)))));
            r0 = link(c, r2, new Nd(t4_0.v, r0));
            t4_0.l = link(c, null, (r1 instanceof Nd ? r2 : r3));
            j1 = j1 * 31 + t4_0.lg(c, (j0 & j1), r0);
            i1 ^= chain(t4_0);
          }
        } catch (RuntimeException e5) {
          i3 = i2 ^ code(e5);
          i3 += (i3 & i2);
          j0 = j0;
        }
      }
      break;
    case 100000:
      i1 += (int) j1;
      i2 = i1;
      {
        Nd t5_0 = mk(c, i2, b0[(i1 - i1) & 3]);
        Nd t5_1 = mk(c, mk(c, i2, r2).get(three(c, i3, r3, i2)), left(r3));
        t5_1.v += v(null) + 2;
        t5_1.v += v(new Nd(v(null), r0)) + s0.length();
        t5_1.l = link(c, new Nd(i1, r0), new Nd2(65535, null, (r0 != null ? j1 : j1)));
        t5_0.v = r2 == null ? 1 : 0;
        t5_0.v += v(new Nd(sh(c, (int) j0).get((i1 + i1)), r3)) + (1 + (i3 / (i1 | 1)));
        i0 ^= chain(t5_0);
        i1 ^= chain(t5_1);
      }
      i3 += (i0 & i2);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m104(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 79, i2 = c.fuel & 15, i3 = -4;
    long j0 = p * 1000003L, j1 = -805011951L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    {
      Nd t1_0 = mk(c, 2, r1);
      Nd t1_1 = new Nd2(v(r3), r3, (311456045455L >>> mk(c, i2, r0).get(i2)));
      j0 = j0 * 31 + sl(c, t1_1, (j0 * j0), ((i2 - i0) >>> (int) j0));
      j1 = j1 * 31 + sl(c, t1_0, j1, (r3 == r1 ? i1 : i3));
      i3 ^= chain(t1_0);
      i0 ^= chain(t1_1);
    }
    o0 = s0;
    i1 = sh(c, i2).get((mk(c, i3, r2).get(i1) + i0));
    synchronized (lk(c, r3)) {
      j0 = j1;
      switch (((i2 + i2) + i1) & 7) {
      case 1:
        o0 = new Object[] {r0, r1, o0};
        i2 = 31;
        r1 = (r1 == null ? (i2 != (int) j0 ? new Nd(i0, r0) : left(r1)) : r2);
      case 0:
        L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
          r2 = new Nd(sh(c, v(r2)).get(100), null);
          if (r3 != null) break;
          r0 = new Nd(mk(c, v(r1), r2).get(i3), r0);
          L3: for (int q3 = 0; q3 < 3 && --c.fuel > 0; ++q3) {
            j0 = (j0 << i1);
          }
        }
        {
          Nd t4_0 = mk(c, ((i2 % (i1 | 1)) % (i2 | 1)), new Nd2(i2, r1, -132443690258L));
          t4_0.v += v(new Nd2((i2 >>> (i3 ^ i0)), r1, (j0 - j1))) + ((r3 != r3 ? i1 : i1) * s0.length());
          j1 = j1 * 31 + sl(c, t4_0, -999808441593L, h0.get(i3));
          j1 = j1 * 31 + t4_0.lg(c, j0, r0);
          i2 = (((r1 == r2 && (long) (i3 ^ i2) > (j1 >>> mk(c, i3, r1).get(i0))) || 7 != (i2 - i1)) ? t4_0 : t4_0).get(a0[i1 & 7]) + v(t4_0);
          j0 = j0 * 31 + t4_0.lg(c, j0, (r2 != null ? r2 : r1));
          i1 ^= chain(t4_0);
        }
        d0 = ((double) i1 + (double) (i2 + i0));
      case 3:
        d1 = dl(c, new Nd(((char) 65535), r3), d0, (j1 - j0));
        {
          Nd t5_0 = new Nd2(three(c, i1, r2, i2), r3, j0);
          Nd t5_1 = new Nd2((i1 - i2), r1, ((j0 % (j0 | 1L)) - (j1 ^ j1)));
          d1 = d1 * 0.5 + dl(c, t5_0, d1, t5_0.lg(c, mk(c, (int) j1, r0).lg(c, j0, left(r2)), r1));
          i3 = (i3 <= i0 ? t5_0 : t5_1).get(i3) + v(t5_0);
          t5_1.l = link(c, (j0 == mk(c, (i0 << i1), r0).lg(c, j0, r0) ? r3 : r1), (i2 >= (i0 << i3) ? r0 : r1));
          j0 = j0 * 31 + t5_1.lg(c, (long) d1, new Nd((int) j1, r2));
          d1 = d1 * 0.5 + dl(c, t5_0, d1, t5_1.lg(c, (long) i2, r2));
          i2 ^= chain(t5_0);
          i1 ^= chain(t5_1);
        }
        if ((true ? j1 : j0) != (j1 + j1)) return fin(c, j1, i0, r1);
        break;
      case 7:
        d0 = d0;
        h0 = sh(c, three(c, i1, link(c, r3, r0), (int) j0));
        i0 += 100;
        i1 = (i2 + (0 >= (i3 + i2) ? (i3 + i3) : (i3 + i3)));
        break;
      case 6:
        f0 = f0 * 0.5f + (float) ((i0 % (i2 | 1)) & 1023);
        i1 += i3;
        i1 += (i1 - i3);
        if (r2 == null) return fin(c, j1, i0, r2);
      default:
        j0 ^= Frames3.m95(c, (0 >> (i3 << i2)), r1);
        j0 = -315916094047L;
        {
          Nd t6_0 = new Nd(((int) j1 ^ (i1 >>> i2)), r3);
          Nd t6_1 = mk(c, s0.length(), new Nd(((i1 ^ i1) & i1), r3));
          r1 = link(c, r3, new Nd(t6_1.v, r0));
          d1 = d1 * 0.5 + dl(c, t6_0, d0, t6_1.lg(c, (long) d1, r2));
          r0 = link(c, r1, new Nd(t6_0.v, r1));
          t6_0.l = link(c, new Nd(-2147483647, r0), r1);
          i3 ^= chain(t6_0);
          i3 ^= chain(t6_1);
        }
      }
      r0 = r1;
      i0 = ((((char) i0) % ((i2 + i0) | 1)) - h0.get((i3 >> i2)));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m105(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 34, i2 = c.fuel & 15, i3 = 4;
    long j0 = p * 1000003L, j1 = 970176926L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      try {
        i3 = (31 % (int) (long) (i0 + i2));
        {
          Nd t1_0 = new Nd2(i2, r0, (j1 + j1));
          d1 = d1 * 0.5 + dl(c, t1_0, d1, t1_0.lg(c, (j0 ^ j0), r1));
          t1_0.l = link(c, r0, new Nd(((char) (i2 ^ i3)), r1));
          i1 += three(c, 5, t1_0, t1_0.get(i1));
          i0 = (r1 != null ? t1_0 : t1_0).get((int) j1) + v(t1_0);
          i3 += three(c, ((byte) i0), t1_0, t1_0.get((j0 == (r0 != r1 ? j0 : j1) ? i0 : i1)));
          i2 ^= chain(t1_0);
        }
      } catch (ArithmeticException e1) {
        i0 = i0 ^ code(e1);
        synchronized (lk(c, r2)) {
          {
            Nd t2_0 = new Nd(v(r0), r0);
            Nd t2_1 = new Nd(((i3 - i3) - ((byte) i0)), r3);
            i0 = (r3 == null ? t2_1 : t2_0).get(i3) + v(t2_1);
            i2 = (r2 instanceof Nd ? t2_1 : t2_0).get(i3) + v(t2_1);
            j1 = j1 * 31 + t2_0.lg(c, (long) (i3 & i1), new Nd((int) (j1 >>> (i1 + i2)), r3));
            t2_1.l = link(c, link(c, r0, r0), r3);
            t2_0.l = link(c, new Nd(v((Nd) o0), null), ((d0 > d0 && i2 >= 65535) ? r3 : r1));
            i1 ^= chain(t2_0);
            i0 ^= chain(t2_1);
          }
          s0 = cut(s0 + mk(c, mk(c, i3, r1).get(i3), r3).lg(c, j1, r0));
          d1 = d0;
          if ((i0 & i0) > (i2 >>> i3)) return fin(c, j1, i0, r2);
        }
      } catch (RuntimeException e2) {
        i2 = i3 ^ code(e2);
        i1 = i2;
      }
      j0 ^= Frames4.m104(c, (int) j0, new Nd(a0[i3 & 7], r3));
      {
        Nd t3_0 = new Nd2(mk(c, i2, r3).get(i2), r3, (299413129653L + j1));
        Nd t3_1 = new Nd2(-1, r2, (long) d1);
        i2 += three(c, a0[i3 & 7], t3_0, t3_1.get(h0.get(i1)));
        j1 = j1 * 31 + sl(c, t3_1, (long) 5, ((i2 >> i3) >>> i3));
        t3_1.v += v(new Nd((2147483647 << (i1 >>> i1)), r0)) + ((i3 + i2) / (i1 - i1));
        j0 = j0 * 31 + t3_1.lg(c, mk(c, s0.length(), r2).lg(c, j1, link(c, r2, r0)), link(c, r3, r0));
        t3_0.l = link(c, new Nd(((int) j0 << (i2 ^ i3)), r2), new Nd(a0[s0.length() & 7], r2));
        i0 ^= chain(t3_0);
        i2 ^= chain(t3_1);
      }
    } catch (ArrayIndexOutOfBoundsException e3) {
      i0 = i0 ^ code(e3);
      {
        Nd t4_0 = new Nd2((i2 * i2), r3, (-25741428887L & j0));
        Nd t4_1 = mk(c, (i3 >= s0.length() ? (i1 + i0) : (i0 ^ i0)), new Nd(s0.length(), r1));
        j0 = j0 * 31 + t4_1.lg(c, (j1 - sl(c, new Nd(((i3 >> i1) >> three(c, i0, r2, i1)), r0), j0, 0)), null);
        j0 = j0 * 31 + sl(c, t4_0, sl(c, new Nd((i1 + 1000), r0), j0, (i3 ^ i2)), v(r2));
        d1 = d1 * 0.5 + dl(c, t4_0, d0, t4_1.lg(c, sl(c, new Nd(i0, r1), j0, (i1 + i3)), r2));
        t4_1.v = r1 instanceof Nd2 ? 1 : 0;
        i3 ^= chain(t4_0);
        i0 ^= chain(t4_1);
      }
      r1 = left(r3);
    } catch (RuntimeException e4) {
      i0 = i2 ^ code(e4);
      s0 = cut(s0 + (char) (65 + (i1 & 15)));
      if (r2 == r0) return fin(c, j1, i0, r2);
    }
    i3 = (((char) 2) % ((2147483647 / (i0 | 1)) | 1));
    {
      Nd t5_0 = mk(c, (three(c, i1, r1, i3) * (i1 * i3)), new Nd(((i1 - i3) >> i0), r3));
      Nd t5_1 = new Nd(i1, r0);
      r1 = link(c, r2, new Nd(t5_0.v, r0));
      t5_0.v += v(left(r0)) + (v(r2) + (i1 ^ i0));
      i3 ^= chain(t5_0);
      i1 ^= chain(t5_1);
    }
    if (((j1 << (i1 % (i2 | 1))) <= (long) a0[i0 & 7] || d1 >= d1)) {
      try {
        try {
          L6: for (int q6 = 0; q6 < 4 && --c.fuel > 0; ++q6) {
            i1 = i0;
          }
        } catch (ArrayIndexOutOfBoundsException e5) {
          i0 = i2 ^ code(e5);
          try {
            i2 = (i3 + mk(c, 100, r2).get(mk(c, i0, r0).get(i1)));
            i0 += i0;
            a0[i1 & 7] = 1000;
            r2 = r1;
          } catch (Ex e6) {
            i3 = i1 ^ code(e6);
            i0 = three(c, (int) j1, new Nd2(i3, r3, j0), (r2 instanceof Nd ? -2147483647 : 0));
            a0[0 & 7] = 7464;
            h0 = sh(c, ((i0 * i2) + v(r3)));
          } catch (RuntimeException e7) {
            i2 = i2 ^ code(e7);
            i2 += i2;
            b0[3 & 3] = r1;
          }
          i3 = i3;
        } catch (RuntimeException e8) {
          i0 = i2 ^ code(e8);
          i1 = a0[h0.get((int) j0)];
        }
        r0 = r0.l;
        d1 = (double) (i1 >>> i3);
        j0 ^= Frames3.m94(c, i1, new Nd(((i2 - i1) / (i3 >> i0)), r0));
      } catch (RuntimeException e9) {
        i2 = i2 ^ code(e9);
        j0 ^= Frames4.m100(c, i3, null);
        if (((byte) i2) >= i2) return fin(c, j1, i0, r0);
        i2 += v(r2);
        i1 = ((v(r1) >>> (i0 ^ i1)) >> i0);
      }
      b0[(i2 * i0) & 3] = r3;
    } else {
      i2 += 1000;
      a0[(int) j0 & 7] = ((i3 * i0) + (d0 < d1 ? i2 : i0));
      r3 = new Nd(mk(c, (i2 % (i3 | 1)), r2).get((i0 / (i2 | 1))), null);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m106(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 27, i2 = c.fuel & 15, i3 = -2;
    long j0 = p * 1000003L, j1 = 148089212L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r2 = r3;
    i1 = i0;
    h0 = sh(c, 7);
    r1 = r3;
    s0 = cut(s0 + sl(c, b0[i0 & 3], j0, i0));
    j0 ^= Frames4.m102(c, three(c, i0, new Nd((((i2 + i2) < (i3 & i0) ? i1 : i1) + (int) j0), null), 31), null);
    j0 ^= Frames4.m104(c, ((r3 instanceof Nd ? i3 : i3) - s0.length()), new Nd2(((short) i1), r1, j1));
    a0[(int) j0 & 7] = i2;
    j0 ^= Frames3.m96(c, ((i3 - i0) >> v(r0)), new Nd(0, null));
    r0 = new Nd(i1, r2);
    c.point();
    synchronized (lk(c, r3)) {
      r0 = r2;
      j0 ^= Frames4.m101(c, (i2 % ((i1 ^ i1) | 1)), b0[i1 & 3]);
      if ((i2 + i3) > (int) j1) return fin(c, j1, i0, r1);
      synchronized (lk(c, r3)) {
        try {
          {
            Nd t1_0 = new Nd(2, null);
            r3 = link(c, r2, new Nd(t1_0.v, r0));
            d1 = d1 * 0.5 + dl(c, t1_0, d0, t1_0.lg(c, (j1 >>> i0), r2));
            i2 ^= chain(t1_0);
          }
          r2 = r0;
          j0 ^= Frames3.m97(c, (d1 < d0 ? s0.length() : 2), link(c, (Nd) o0, r0.l));
        } catch (NegativeArraySizeException e1) {
          i2 = i2 ^ code(e1);
          j0 ^= Frames4.m103(c, v(r1), r1);
          j0 = (58860236337L - (long) i0);
          if ((r3 != r0 || r0 == r3)) {
            i1 = 2;
          } else {
            i2 += i3;
          }
        } catch (ClassCastException e2) {
          i2 = i3 ^ code(e2);
          L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
            a0[i0 & 7] = 3;
            r2 = new Nd(((i0 / (i1 | 1)) >>> (int) j0), null);
            b0[(i3 % (i0 | 1)) & 3] = left(r2);
          }
          i0 += 31;
          j1 = (long) a0[i1 & 7];
          r1 = r3;
        } catch (RuntimeException e3) {
          i2 = i1 ^ code(e3);
          h0 = sh(c, ((int) j0 / (i2 | 1)));
          r1 = new Nd((i0 - (i0 - i0)), r1);
          i2 = h0.get(-2147483647);
          i1 = h0.get((r3 instanceof Nd2 ? (i3 & i3) : (i2 + i3)));
        }
        i2 = (i1 + mk(c, i2, r3).get(i0));
        i3 += (i3 & i2);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m107(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 77, i2 = c.fuel & 15, i3 = -8;
    long j0 = p * 1000003L, j1 = -84502431L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r1 = new Nd(((i3 + i3) % ((i3 + i2) | 1)), r1);
    r0 = new Nd(((i0 & i3) + (r3 instanceof Nd2 ? i1 : i3)), r3);
    d1 = ((double) a0[i3 & 7] * (double) (i0 << i1));
    r3 = new Nd2(((int) j0 >>> s0.length()), null, (long) v(r3));
    L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
      if ((d1 > d0 || r3 == null)) {
        L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
          h0 = sh(c, (((short) i3) ^ (i0 ^ i2)));
          r3 = r0;
          i0 = i0;
        }
        j0 = j1;
      } else {
        j0 ^= Frames4.m106(c, h0.get((i3 % (i0 | 1))), b0[1000 & 3]);
        r3 = r3;
      }
      synchronized (lk(c, r0)) {
        a0[a0[i1 & 7] & 7] = (s0.length() + (i3 >>> i1));
        r2 = new Nd2(v(left(r2)), r2, (j0 * j0));
        d0 = d0;
      }
      if ((i3 - i0) >= (i0 + i0)) continue L1;
    }
    r0 = new Nd2(i2, r3, j0);
    switch (5 & 7) {
    case 3:
      i3 = (((i2 / (i2 | 1)) >>> (i1 & i2)) >>> ((i0 >>> i2) + i1));
      break;
    case 5:
      i2 = (i1 + i0);
    case 0:
      i2 = i2;
      i1 += s0.length();
      j1 = (-447489989079L ^ (long) d0);
      f0 = f0 * 0.5f + (float) ((i3 / (i1 | 1)) & 1023);
      break;
    case 4:
      i3 += i1;
      i0 = (((i1 + i2) << ((byte) i1)) / (i0 | 1));
      j0 ^= Frames3.m96(c, s0.length(), left(r1));
      break;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m108(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 23, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = -116442203L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 ^= Frames3.m97(c, (31 * i1), left(r0));
    j0 ^= Frames4.m101(c, ((i2 + i3) % ((i1 - i2) | 1)), link(c, r3, link(c, r2, r0)));
    L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
      i2 = (((char) a0[i0 & 7]) % (v(r1) | 1));
      {
        Nd t2_0 = new Nd2((i3 - i1), r1, sl(c, new Nd(i0, r1), (j0 ^ j1), (i1 & i2)));
        i3 = (r2 == r2 ? t2_0 : t2_0).get(i2) + v(t2_0);
        d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, j1, r3));
        i0 ^= chain(t2_0);
      }
      L3: for (int q3 = 0; q3 < 3 && --c.fuel > 0; ++q3) {
        j1 = (long) (i0 & i3);
        i3 = -2147483647;
        o0 = s0;
        r1 = new Nd(((i2 / (i2 | 1)) + (i2 - i0)), null);
      }
    }
    j0 ^= Frames3.m99(c, (int) -878546324977L, r1);
    switch ((int) -911835686283L & 7) {
    case 5:
      a0[v(r1) & 7] = mk(c, sh(c, (i1 >>> i0)).get(i2), r3).get(i2);
      i2 = v(r2);
      break;
    case 1:
      s0 = cut(s0 + "x");
      b0[65535 & 3] = left(r2);
      d1 = d0;
      break;
    case 0:
      s0 = cut(s0 + "x");
      if ((i1 >= (i3 % (i2 | 1)) && (i1 & i1) > (i3 << i1))) {
        r1 = ((j0 % (j1 | 1L)) != (j0 + j0) ? new Nd(((i1 >>> i0) + (i3 + i1)), r1) : (r3 != null ? r3 : r2));
        switch (i2) {
        case 0:
          d1 = dl(c, new Nd((int) j0, r3), (d1 * d0), (long) (i0 + i2));
          j0 = (j1 / ((long) v(r1) | 1L));
          break;
        case -100:
          {
            Nd t4_0 = new Nd2((i3 + i3), r2, (long) i0);
            Nd t4_1 = new Nd(2147483647, r3);
            t4_0.v += v(left(r0)) + i2;
            i1 = (r0 != r1 ? t4_1 : t4_1).get(s0.length()) + v(t4_1);
            i2 ^= chain(t4_0);
            i0 ^= chain(t4_1);
          }
          i3 += (i2 * i2);
        case 77:
          i3 += i2;
          j1 = j1;
          if ((j0 * j0) != j0) return fin(c, j1, i0, r1);
          r1 = left(r1);
          break;
        case 3:
          r1 = ((i3 / (i1 | 1)) != (int) j1 ? new Nd((i1 ^ i3), r1) : new Nd(((i3 >> i3) + i1), r3));
          b0[i1 & 3] = r0;
          r0 = r2;
          break;
        case 1000:
          c.point();
        }
        i3 += (i3 > (i2 % (i0 | 1)) ? i1 : i2);
      } else {
        c.point();
        if (d1 < d0) return fin(c, j1, i0, r3);
        i0 += mk(c, i2, r1).get(i1);
        r0 = new Nd((v(r0) ^ -1), r0);
      }
      break;
    default:
      {
        Nd t5_0 = mk(c, h0.get(-1), new Nd(1, r2));
        i2 += three(c, (i0 + i0), t5_0, t5_0.get((i3 + i0)));
        j0 = j0 * 31 + t5_0.lg(c, sl(c, r3, j0, (i2 - i0)), (d0 == d1 ? r3 : r2));
        j1 = j1 * 31 + t5_0.lg(c, j1, new Nd(((int) j1 + three(c, i3, r0, i0)), null));
        i0 = ((j1 * j1) > (long) (i2 * i1) ? t5_0 : t5_0).get(2147483647) + v(t5_0);
        i3 ^= chain(t5_0);
      }
      {
        Nd t6_0 = new Nd(three(c, (i3 >> i0), b0[i2 & 3], a0[i1 & 7]), r1);
        Nd t6_1 = mk(c, -2147483647, r3);
        t6_0.l = link(c, new Nd(5, r1), new Nd(i2, r0));
        t6_0.v += v(link(c, new Nd((i3 + (i1 - i3)), r2), r3)) + (i0 >> mk(c, i3, r1).get(i3));
        j1 = j1 * 31 + sl(c, t6_0, (j1 & j0), i1);
        i3 ^= chain(t6_0);
        i0 ^= chain(t6_1);
      }
      i3 += three(c, i1, r2, i1);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m109(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 95, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = 31411959L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    {
      Nd t1_0 = mk(c, -2147483647, null);
      j1 = j1 * 31 + sl(c, t1_0, (j0 / (j1 | 1L)), sh(c, i0).get((i1 + i0)));
      j1 = j1 * 31 + t1_0.lg(c, 940904868587L, (((i0 - i3) <= (i3 ^ i0) && j0 < j0) ? r3 : r0));
      i0 = (sl(c, new Nd((three(c, i0, r2, i0) << ((i1 + i2) == (i3 ^ i3) ? i2 : i1)), r1), j1, three(c, i3, r2, i2)) == 988097467354L ? t1_0 : t1_0).get((i2 ^ i2)) + v(t1_0);
      i1 ^= chain(t1_0);
    }
    i0 = ((int) j1 ^ i1);
    f0 = f0 * 0.5f + (float) (i0 & 1023);
    if (r0 == null) {
      r2 = null;
      try {
        try {
          j0 = (long) (i0 % i2);
        } catch (RuntimeException e1) {
          i3 = i0 ^ code(e1);
          try {
            i3 += i0;
          } catch (NullPointerException e2) {
            i2 = i1 ^ code(e2);
            i0 += (i1 >>> i0);
            r3 = link(c, new Nd(v(new Nd2(i0, r1, (j0 / j1))), r0), new Nd(((i1 ^ i3) - v(r3)), null));
          } catch (Ex e3) {
            i0 = i3 ^ code(e3);
            r2 = new Nd2(i2, r1, sl(c, new Nd2((31 ^ (-1 > (i0 ^ i1) ? i0 : i1)), r2, sl(c, new Nd2(((i3 - i0) ^ ((short) i3)), r3, (j1 * j1)), j0, three(c, i3, r0, i2))), j0, 65535));
          } catch (RuntimeException e4) {
            i1 = i2 ^ code(e4);
            s0 = cut(s0 + 100);
            i3 += sh(c, mk(c, i0, r0).get(i1)).get(i2);
            i1 += -2147483647;
          }
          j1 = j0;
          i2 = 1000;
          i1 = a0[7];
        }
      } catch (RuntimeException e5) {
        i1 = i3 ^ code(e5);
        d1 = dl(c, r2, (double) (i3 + i3), mk(c, (i3 & i2), r3).lg(c, j0, link(c, r0, r3)));
      } finally {
        a0[i1 & 7] = i3;
        try {
          switch (((int) j0 - (i2 << i3)) & 7) {
          case 6:
            r1 = left(r3);
            c.point();
            break;
          case 2:
            i2 += (i2 - i3);
            break;
          case 1:
            i0 = i0;
            i1 = s0.length();
            i2 = (i0 + (i1 + i2));
            break;
          }
          if (d0 >= d0) {
            d1 = ((d0 - d1) * dl(c, new Nd(v(r2), r3), d0, (j0 << mk(c, i2, r3).get(i3))));
            i3 = a0[i0 & 7];
            s0 = cut(s0 + sl(c, r3, j1, i0));
          }
          j0 ^= Frames4.m102(c, (i1 - (i3 << i0)), r3);
        } catch (RuntimeException e6) {
          i2 = i3 ^ code(e6);
          i1 += (i1 + i2);
          s0 = cut(s0 + (j0 >>> i1));
          {
            Nd t2_0 = new Nd((v(r2) - three(c, i2, r3, i3)), r0);
            Nd t2_1 = new Nd(((i0 + i3) + three(c, i3, r3, i2)), r1);
            r2 = link(c, r3, new Nd(t2_1.v, r1));
            i0 = (i2 >= (i1 ^ i3) ? t2_0 : t2_0).get((i0 << i0)) + v(t2_0);
            t2_0.l = link(c, r1, new Nd2((65535 * 1000), null, (long) i2));
            t2_1.v = -1 > (i2 - i3) ? 1 : 0;
            i3 ^= chain(t2_0);
            i1 ^= chain(t2_1);
          }
        } finally {
          {
            Nd t3_0 = new Nd2(i3, r2, (long) v(r0));
            Nd t3_1 = new Nd(s0.length(), r3);
            t3_1.l = link(c, new Nd(((i3 - i3) == i2 ? i3 : i0), r1), b0[(i0 / (i0 | 1)) & 3]);
            i2 += three(c, 8942, t3_1, t3_1.get(7));
            j1 = j1 * 31 + t3_1.lg(c, j0, r0);
            r1 = link(c, r3, new Nd(t3_1.v, r0));
            i1 ^= chain(t3_0);
            i0 ^= chain(t3_1);
          }
        }
      }
      i0 += v(r0);
    } else {
      r1 = r0;
      a0[i2 & 7] = 1;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m110(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 16, i2 = c.fuel & 15, i3 = 5;
    long j0 = p * 1000003L, j1 = 611368012L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 = sl(c, new Nd2(s0.length(), r2, 639450319068L), j0, s0.length());
    r1 = link(c, r2, r3);
    i0 = i3;
    try {
      i1 = a0[((i0 << i3) - 31)];
      a0[h0.get(i3) & 7] = ((i2 % i1) << mk(c, i0, r2).get(i3));
      f0 = f0 * 0.5f + (float) (mk(c, i0, r3).get(i2) & 1023);
    } catch (Ex e1) {
      i3 = i0 ^ code(e1);
      r2 = new Nd2(mk(c, (i2 - i0), r2).get(i3), null, (j1 + j1));
      i0 = i1;
      c.point();
    } catch (ClassCastException e2) {
      i2 = i2 ^ code(e2);
      r3 = new Nd(7, r0);
      r0 = new Nd2((i2 + ((char) i2)), r3, j0);
      r1 = (r0 == null ? left(r0) : left(r1));
      L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
        L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
          r3 = null;
          try {
            i1 += a0[i3 & 7];
            r2 = r0;
          } catch (ClassCastException e3) {
            i3 = i0 ^ code(e3);
            i3 = i1;
          } catch (ArrayIndexOutOfBoundsException e4) {
            i1 = i2 ^ code(e4);
            i2 = h0.get(((i3 - i1) * (i0 ^ i1)));
            i1 = 0;
            i0 += 100;
            i3 = ((r0 != null ? (i0 >>> i2) : 1) - h0.get((i0 + i0)));
          } catch (Ex e5) {
            i1 = i1 ^ code(e5);
            i3 += (i2 + i0);
          } catch (RuntimeException e6) {
            i3 = i0 ^ code(e6);
            r1 = (i3 == i3 ? (r3 instanceof Nd2 ? new Nd(s0.length(), null) : new Nd2(v(null), r1, j0)) : (i2 != i3 ? new Nd(((i3 - i1) - three(c, i3, r1, i0)), r1) : r2));
          } finally {
            i0 += (i2 - i2);
            r0 = new Nd((i3 & i3), r1);
          }
          i0 += (i0 >> i0);
        }
      }
    } catch (NullPointerException e7) {
      i3 = i1 ^ code(e7);
      r1 = new Nd((0 % (i1 | 1)), r2);
      i2 += (int) j0;
    } catch (RuntimeException e8) {
      i0 = i1 ^ code(e8);
      r0 = r3;
      j0 = (long) mk(c, i3, r1).get(i0);
      i1 += (i2 & i2);
      i0 += mk(c, i1, r2).get(i2);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m111(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 68, i2 = c.fuel & 15, i3 = -9;
    long j0 = p * 1000003L, j1 = 215218262L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i2 = mk(c, s0.length(), r3).get((a0[i0 & 7] << i0));
    switch (i1) {
    case -100:
      L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
        j1 = j1;
        L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
          o0 = new Object[] {r0, r1, o0};
        }
        try {
          try {
            {
              Nd t3_0 = new Nd2(i0, r3, ((j1 + j0) >>> (i2 >> i2)));
              r0 = link(c, r0, new Nd(t3_0.v, r0));
              d1 = d1 * 0.5 + dl(c, t3_0, d0, t3_0.lg(c, (j1 * j1), r3));
              i0 ^= chain(t3_0);
            }
            d1 = ((double) (i0 - i3) - (d1 + d0));
          } catch (ArrayIndexOutOfBoundsException e1) {
            i1 = i1 ^ code(e1);
            i3 += (i0 ^ i1);
            i1 += 2147483647;
            j0 = (r3 != null ? -150645568808L : (long) d1);
            o0 = new int[] {i1, 3};
          } catch (NegativeArraySizeException e2) {
            i2 = i1 ^ code(e2);
            o0 = new Object[] {r0, r1, o0};
            i3 += i3;
            c.point();
            i2 += (i1 + i0);
          } catch (RuntimeException e3) {
            i0 = i3 ^ code(e3);
            i0 += (r3 == r2 ? i0 : i1);
            i3 += i0;
            i0 = (1000 - i3);
          } finally {
            i2 += a0[i0 & 7];
            if (((d0 < d1 && r0 == r1) || (i2 / (i3 | 1)) >= i3)) j0 ^= fin(c, j1, i0, r3);
            r0 = r2;
            i0 += (i3 - i1);
          }
        } catch (NullPointerException e4) {
          i1 = i0 ^ code(e4);
          d0 = d0;
        } catch (ArithmeticException e5) {
          i2 = i0 ^ code(e5);
          c.point();
        } catch (NegativeArraySizeException e6) {
          i2 = i1 ^ code(e6);
          i2 += (int) j1;
        } catch (RuntimeException e7) {
          i2 = i3 ^ code(e7);
          j0 ^= Frames4.m101(c, ((i1 % (i3 | 1)) ^ v(r3)), left(r3));
          i1 += (i2 % (i0 | 1));
        }
        d0 = (double) (i1 * i3);
      }
      if ((i2 >> i0) != (i1 - i0)) return fin(c, j1, i0, r3);
      break;
    case 0:
      if ((long) (i1 & i0) < (j0 ^ sl(c, left(r2), j1, (int) j1))) return fin(c, j1, i0, r3);
    case 3:
      i2 += (i1 - i1);
      j0 = 630362068988L;
      i2 = i3;
    case 1000:
      i3 = mk(c, (three(c, i0, r0, i0) + three(c, i2, r0, i0)), r1).get(((i1 - i1) <= i3 ? (i0 - i1) : ((char) i0)));
      break;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m112(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 82, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = -710202351L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r2 = new Nd((d1 <= d1 ? ((char) i3) : i0), r1);
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      j0 = (long) i0;
      r3 = b0[(i3 * i2) & 3];
    }
    d1 = ((d1 - d1) - d0);
    i0 = (v(r1) + i3);
    i2 = i0;
    r3 = null;
    b0[i2 & 3] = null;
    r2 = ((i1 < (i0 * i2) && r0 == r0) ? r2 : new Nd(i0, r0));
    synchronized (lk(c, r0)) {
      if ((r1 != null || r2 instanceof Nd2)) return fin(c, j1, i0, r2);
      h0 = sh(c, (i2 - (i3 % (i3 | 1))));
      L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
        if (r2 == null) continue;
        h0 = sh(c, sh(c, i3).get((i0 + i2)));
        L3: for (int q3 = 0; q3 < 4 && --c.fuel > 0; ++q3) {
          {
            Nd t4_0 = new Nd2(i0, r2, ((j1 - j1) + sl(c, new Nd(65535, null), (long) (i3 + i3), v(r3))));
            Nd t4_1 = new Nd2((int) j1, r1, ((j1 + j0) - j0));
            j0 = j0 * 31 + t4_0.lg(c, (long) s0.length(), new Nd(-7144, null));
            t4_1.l = link(c, (i0 <= i1 ? r0 : r0), b0[i1 & 3]);
            i3 += three(c, (i2 ^ i2), t4_0, t4_1.get((i0 % (i3 | 1))));
            i1 ^= chain(t4_0);
            i2 ^= chain(t4_1);
          }
          s0 = cut(s0 + "x");
        }
      }
      r2 = new Nd2(v(null), null, 300164817171L);
    }
    d1 = (dl(c, link(c, r3, r1), d0, (j1 + j0)) + (d0 * d0));
    i2 += i2;
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m113(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 63, i2 = c.fuel & 15, i3 = -7;
    long j0 = p * 1000003L, j1 = 532861127L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    a0[v(r3) & 7] = (int) j0;
    b0[(int) j1 & 3] = left(r3);
    b0[i1 & 3] = link(c, new Nd2(s0.length(), r2, mk(c, (i2 & i0), r3).lg(c, j1, b0[i1 & 3])), left(r2));
    L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
      r0 = new Nd(i0, r1);
    }
    r1 = b0[(i2 << i0) & 3];
    r2 = null;
    r3 = new Nd(three(c, s0.length(), b0[(i2 + i2) & 3], v(r2)), null);
    s0 = cut(s0 + j0);
    i1 = ((i1 + mk(c, i3, r1).get(i1)) ^ v(r0));
    d0 = d1;
    L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
      {
        Nd t3_0 = new Nd2(i2, r2, ((j1 - j0) % (j1 | 1L)));
        Nd t3_1 = new Nd((int) (j1 + j0), r2);
        t3_0.v = r2 != r1 ? 1 : 0;
        d1 = d1 * 0.5 + dl(c, t3_1, d0, t3_0.lg(c, (j0 & j0), r0));
        r2 = link(c, r3, new Nd(t3_1.v, r3));
        i1 ^= chain(t3_0);
        i1 ^= chain(t3_1);
      }
      i1 = -6487;
    }
    o0 = new Object[] {r0, r1, o0};
    {
      Nd t4_0 = mk(c, ((int) j0 / ((i3 & i1) | 1)), new Nd(v(new Nd2(i2, r1, (j0 - j0))), r0));
      Nd t4_1 = new Nd((int) j1, r0);
      t4_1.v = d1 >= d0 ? 1 : 0;
      i3 += three(c, 2147483647, t4_1, t4_1.get((i3 >>> i1)));
      i2 += three(c, (i3 >>> i3), t4_0, t4_1.get((i0 >>> i3)));
      i2 += three(c, 2, t4_1, t4_0.get(v(r3)));
      t4_0.v = ((true || o0 instanceof Nd) || (true && mk(c, i0, r2).get(i3) <= i3)) ? 1 : 0;
      i0 ^= chain(t4_0);
      i3 ^= chain(t4_1);
    }
    r2 = null;
    r3 = left(r3);
    r1 = new Nd2(i2, r1, -140166715549L);
    r3 = left(r0);
    j0 = j1;
    i2 = (((i2 + i2) / (i0 | 1)) ^ (a0[i0 & 7] - i1));
    i3 = mk(c, v(null), r2).get(s0.length());
    s0 = cut(s0 + v(r2));
    if (d1 > d1) {
      d0 = (double) (i0 << i0);
      j0 ^= Frames4.m106(c, (1000 + (i3 * i0)), new Nd((i2 + (i1 >>> i3)), r3));
      switch ((i3 ^ v(r0)) & 7) {
      case 6:
        o0 = s0;
        i0 = (mk(c, i2, r1).get(1000) + (i1 - (i2 & i2)));
        i2 += i3;
        break;
      case 1:
        a0[s0.length() & 7] = (2147483647 & mk(c, i1, r2).get(i2));
        i1 += i0;
        break;
      case 4:
        b0[(i1 / (i3 | 1)) & 3] = new Nd(((i3 ^ i2) + a0[i0 & 7]), r2);
        if (r1 == null) return fin(c, j1, i0, r0);
      case 3:
        i2 += i0;
        j0 = j1;
        if ((i2 - i3) >= 2147483647) return fin(c, j1, i0, r0);
        break;
      case 5:
        c.point();
        j0 ^= Frames4.m101(c, i3, new Nd((i0 << 1000), r2));
        b0[i3 & 3] = left(r0);
        break;
      default:
        i0 += i3;
        i3 += i1;
        i3 += (i2 - i1);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m114(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 11, i2 = c.fuel & 15, i3 = 9;
    long j0 = p * 1000003L, j1 = 808696902L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 = mk(c, (i3 % (i1 | 1)), r1).lg(c, j1, ((i2 * i0) >= (i1 / (i3 | 1)) ? r1 : r2));
    i1 = 100;
    try {
      r0 = new Nd2((i1 >>> three(c, i2, r1, i3)), r1, (j1 - j1));
    } catch (ArithmeticException e1) {
      i0 = i1 ^ code(e1);
      if ((i3 >> i0) == (d0 < d0 ? i0 : i0)) {
        i0 = i0;
      } else {
        j0 ^= Frames4.m108(c, i0, r1);
        r2 = r3;
        try {
          i2 = i3;
          d1 = d0;
          r1 = new Nd(1000, r0);
          synchronized (lk(c, r1)) {
            i2 = i3;
          }
        } catch (RuntimeException e2) {
          i3 = i2 ^ code(e2);
          o0 = new int[] {sh(c, (i2 >> i0)).get(i3), 3};
          o0 = new Object[] {r0, r1, o0};
        }
        j0 ^= Frames4.m109(c, i0, (j0 == -375017561639L ? new Nd2(i3, r3, (mk(c, i3, r1).get(i2) > (int) j0 ? j0 : j1)) : r1));
      }
      b0[(i2 + i3) & 3] = r3;
    } catch (ClassCastException e3) {
      i2 = i0 ^ code(e3);
      synchronized (lk(c, r0)) {
        r2 = r0;
        L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
          try {
            i3 += (i1 <= i2 ? i2 : i3);
          } catch (ClassCastException e4) {
            i1 = i2 ^ code(e4);
            i2 += (i1 + i2);
            {
              Nd t2_0 = new Nd(31, r0);
              Nd t2_1 = mk(c, ((short) (i1 * i2)), b0[(i2 % (i2 | 1)) & 3]);
              t2_1.v += v(new Nd2(i3, null, sl(c, new Nd((i1 - i3), r0), j1, (i3 + i1)))) + i3;
              i3 += three(c, (i1 >> i1), t2_1, t2_1.get(i3));
              t2_0.v += v(r1) + (3613 - 65535);
              t2_1.v += v(r0) + s0.length();
              i1 ^= chain(t2_0);
              i2 ^= chain(t2_1);
            }
          } catch (RuntimeException e5) {
            i2 = i0 ^ code(e5);
            {
              Nd t3_0 = new Nd(((i0 >> i2) % (((byte) i3) | 1)), r3);
              i1 += three(c, (i0 - i2), t3_0, t3_0.get((i2 + i3)));
              t3_0.l = link(c, r2, left(r3));
              t3_0.l = link(c, new Nd(three(c, i3, new Nd(((i1 % (i3 | 1)) % ((i1 * i2) | 1)), r2), 3), r2), new Nd(((i0 % (i3 | 1)) + sh(c, i0).get(i0)), r2));
              t3_0.v += v(new Nd(((char) (i0 >> i0)), r3)) + three(c, (int) j1, left(r2), (i3 >>> i0));
              t3_0.l = link(c, r0, r0);
              i3 ^= chain(t3_0);
            }
            if (o0 instanceof Nd) break;
            i2 = (7 << (three(c, i1, r0, i2) + i1));
            c.point();
          }
        }
      }
      i0 = i0;
      i0 = v(left(r2));
    } catch (NullPointerException e6) {
      i2 = i2 ^ code(e6);
      try {
        i3 += 100;
      } catch (NullPointerException e7) {
        i2 = i2 ^ code(e7);
        r2 = r2;
        s0 = cut(s0 + sl(c, (r2 instanceof Nd2 ? r0 : r2), j1, (i2 + i2)));
        i0 += s0.length();
      } catch (RuntimeException e8) {
        i2 = i3 ^ code(e8);
        j1 = (long) i2;
        i0 += (i1 >> i3);
        {
          Nd t4_0 = new Nd2((i3 ^ i3), r0, sl(c, r0, j1, h0.get(i1)));
          Nd t4_1 = new Nd2((int) j1, r3, (long) d0);
          j1 = j1 * 31 + t4_1.lg(c, j0, left(r0));
          i2 += three(c, i1, t4_1, t4_1.get(i0));
          i0 ^= chain(t4_0);
          i2 ^= chain(t4_1);
        }
        o0 = s0;
      } finally {
        i1 += i1;
      }
      a0[(i1 << i0) & 7] = (s0.length() + i1);
      i3 += i2;
    } catch (RuntimeException e9) {
      i0 = i3 ^ code(e9);
      h0 = sh(c, ((i3 + i2) + i1));
      a0[(i0 + i0) & 7] = mk(c, (i0 - i3), r1).get(mk(c, i0, r2).get(i3));
      i2 += -1;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m115(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 18, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = -967240097L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r1 = new Nd(-1, r3);
    if (r1 != r2) {
      c.point();
      c.point();
      c.point();
    } else {
      i2 = i3;
      if (r3 == null) return fin(c, j1, i0, r2);
      r0 = r3;
      j0 ^= Frames4.m111(c, ((i2 ^ i1) >> v(r1)), r0);
    }
    try {
      f0 = f0 * 0.5f + (float) ((i0 + i2) & 1023);
      o0 = new Object[] {r0, r1, o0};
    } catch (Ex e1) {
      i3 = i1 ^ code(e1);
      {
        Nd t1_0 = new Nd2((d1 < d0 ? i3 : i0), r2, j0);
        Nd t1_1 = new Nd(2147483647, r3);
        t1_0.l = link(c, left(r3), left(r1));
        i3 += three(c, i3, t1_1, t1_1.get((i3 ^ i2)));
        i0 ^= chain(t1_0);
        i1 ^= chain(t1_1);
      }
      try {
        if ((i1 / i1) >= s0.length()) return fin(c, j1, i0, r1);
      } catch (ArrayIndexOutOfBoundsException e2) {
        i0 = i2 ^ code(e2);
        i0 = i0;
        b0[0 & 3] = null;
        i0 += 7;
        j0 ^= Frames4.m108(c, three(c, s0.length(), null, three(c, i0, r2, i0)), new Nd(((i1 - i1) % ((i1 + i1) | 1)), r0));
      } catch (RuntimeException e3) {
        i3 = i2 ^ code(e3);
        a0[sh(c, (i3 - i3)).get(i2) & 7] = (i1 - (i1 * i2));
        i2 = three(c, 1000, new Nd(mk(c, mk(c, i1, r3).get(i2), r1).get(s0.length()), r3), i0);
        i1 = 3;
        i3 = (mk(c, (i1 * i0), r0).get(i3) ^ (0 << (i1 * i3)));
      }
      i3 += (i3 - i0);
    } catch (NegativeArraySizeException e4) {
      i2 = i2 ^ code(e4);
      i2 = (i2 >>> i1);
    } catch (NullPointerException e5) {
      i0 = i1 ^ code(e5);
      r3 = null;
      r1 = new Nd(i1, r2);
      f0 = f0 * 0.5f + (float) (mk(c, i0, r3).get(i0) & 1023);
      j1 = -976011411557L;
    } catch (RuntimeException e6) {
      i3 = i2 ^ code(e6);
      b0[(i1 + i3) & 3] = link(c, link(c, link(c, r2, r0), left(r0)), link(c, r1, r0));
      i0 = (i1 >>> i3);
      i3 = (int) (long) (i1 << i2);
    } finally {
      d1 = (double) i1;
      i3 += (int) j0;
      r1 = left(r1);
      i1 += (i3 - i3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m116(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 13, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = -893211592L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    h0 = sh(c, ((i1 - i1) & 100));
    if (r3 == null) {
      j0 = 938023520692L;
    } else {
      b0[i3 & 3] = new Nd(i2, null);
      L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
        i1 = i3;
        o0 = s0;
        if ((j1 << 3) > (long) 2147483647) continue L1;
      }
      r2 = r1;
    }
    {
      Nd t2_0 = mk(c, i2, new Nd(i3, r0));
      i2 = (r1 == null ? t2_0 : t2_0).get(mk(c, i1, r0).get(i1)) + v(t2_0);
      r0 = link(c, r1, new Nd(t2_0.v, r0));
      t2_0.v = (j0 + sl(c, new Nd(i2, null), j1, (j1 != sl(c, r2, j0, ((i2 >> i0) == ((char) i2) ? i3 : i2)) ? i2 : i1))) <= sl(c, (r2 != r2 ? r2 : r3), j1, i0) ? 1 : 0;
      i2 ^= chain(t2_0);
    }
    a0[i0 & 7] = i2;
    r2 = b0[i1 & 3];
    i0 = i1;
    r3 = new Nd((int) j0, r2);
    try {
      c.point();
      {
        Nd t3_0 = new Nd2(((i0 + i1) > (i0 + i2) ? i1 : i0), r1, -226282261215L);
        t3_0.v = -549809025661L != j1 ? 1 : 0;
        r2 = link(c, r0, new Nd(t3_0.v, r3));
        r0 = link(c, r2, new Nd(t3_0.v, r1));
        i0 ^= chain(t3_0);
      }
      if ((i3 - i0) > (i3 ^ i3)) throw new Ex((i3 & v(r0)));
      {
        Nd t4_0 = mk(c, ((i1 >>> i1) << i1), link(c, r1, r2));
        j0 = j0 * 31 + t4_0.lg(c, j0, new Nd2((v(r3) % (i1 + i0)), r0, j0));
        r0 = link(c, r0, new Nd(t4_0.v, r2));
        i2 ^= chain(t4_0);
      }
    } catch (NullPointerException e1) {
      i2 = i3 ^ code(e1);
      j0 ^= Frames4.m115(c, i1, r2);
      j0 ^= Frames4.m105(c, i2, null);
    } catch (NegativeArraySizeException e2) {
      i1 = i2 ^ code(e2);
      i2 = -7115;
      i3 = (i1 + (-1 - (i3 ^ i1)));
      h0 = sh(c, s0.length());
    } catch (ClassCastException e3) {
      i1 = i1 ^ code(e3);
      j1 = j1;
      r3 = new Nd(((i0 >>> i3) - i3), r0);
      r2 = link(c, (r2 == null ? r0 : r0), new Nd((((short) i1) + sh(c, (i1 << i2)).get(i1)), r0));
      synchronized (lk(c, r1)) {
        i1 = (i1 - (int) (j1 * j0));
        try {
          i3 += s0.length();
          i0 += i3;
        } catch (RuntimeException e4) {
          i1 = i0 ^ code(e4);
          i2 += i1;
          if (r2 == null) return fin(c, j1, i0, r1);
          f0 = f0 * 0.5f + (float) ((i1 / (i0 | 1)) & 1023);
          i2 += (i3 + i1);
        } finally {
          i2 += (i3 - i1);
          i3 += i2;
          i3 = 2;
          o0 = new int[] {(a0[i0 & 7] << (i1 * i0)), 3};
        }
      }
    } catch (RuntimeException e5) {
      i2 = i2 ^ code(e5);
      i1 = ((int) j1 * ((i1 + i2) >> v(r2)));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m117(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 73, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = 205844888L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
      L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
        r2 = r2;
        {
          Nd t3_0 = mk(c, 0, b0[(i1 >> i0) & 3]);
          j0 = j0 * 31 + sl(c, t3_0, (j0 + j0), ((char) ((char) i0)));
          j0 = j0 * 31 + t3_0.lg(c, j0, r1);
          d1 = d1 * 0.5 + dl(c, t3_0, d0, t3_0.lg(c, j1, r0));
          r3 = link(c, r0, new Nd(t3_0.v, r2));
          d1 = d1 * 0.5 + dl(c, t3_0, d1, t3_0.lg(c, j1, r0));
          i1 ^= chain(t3_0);
        }
        r1 = r3;
      }
    }
    b0[a0[i1 & 7] & 3] = r2;
    i1 = v(r0);
    i1 = 0;
    b0[-8341 & 3] = r1;
    b0[((j1 / (j0 | 1L)) > (j1 + j1) ? i2 : i2) & 3] = new Nd(((int) j0 - (i3 << i0)), r3);
    h0 = sh(c, (v(r1) * (i2 ^ i3)));
    try {
      j0 = 66506039901L;
      L4: for (int q4 = 0; q4 < 2 && --c.fuel > 0; ++q4) {
        b0[i2 & 3] = new Nd((int) (long) (i1 % i3), r0);
      }
    } catch (ArrayIndexOutOfBoundsException e1) {
      i3 = i1 ^ code(e1);
      h0 = sh(c, 5);
      r1 = b0[(i3 - i3) & 3];
      L5: for (int q5 = 0; q5 < 3 && --c.fuel > 0; ++q5) {
        i2 = (int) j0;
      }
      d0 = d1;
    } catch (NegativeArraySizeException e2) {
      i2 = i0 ^ code(e2);
      r1 = r2;
      if ((j1 & j0) > (j1 ^ j0)) {
        if (((i1 + i2) <= (i0 ^ i2) && (i1 << i1) > i0)) return fin(c, j1, i0, r3);
        j0 ^= Frames4.m106(c, 3, new Nd((i3 + mk(c, i2, r2).get(i2)), r1));
        i1 = ((char) (i3 >> (i1 % (i2 | 1))));
      } else {
        {
          Nd t6_0 = mk(c, (i3 & (i1 + i0)), r0);
          Nd t6_1 = new Nd((i3 > 1 ? (i3 - i2) : (i0 % (i0 | 1))), r1);
          i2 = ((r2 != null || h0.get(i0) != (i3 - i0)) ? t6_0 : t6_1).get(v(r2)) + v(t6_0);
          t6_1.v += v(new Nd2((((short) i0) + s0.length()), r3, (long) (i0 >> i3))) + i1;
          t6_0.l = link(c, null, left(r1));
          i2 ^= chain(t6_0);
          i0 ^= chain(t6_1);
        }
        i2 += (i0 * i2);
        i0 += i2;
      }
    } catch (RuntimeException e3) {
      i3 = i2 ^ code(e3);
      a0[(i1 << i0) & 7] = 31;
      if ((i1 ^ i2) > i3) return fin(c, j1, i0, r1);
      d0 = ((double) a0[i2 & 7] - (d1 - d1));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m118(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 51, i2 = c.fuel & 15, i3 = 7;
    long j0 = p * 1000003L, j1 = -693067903L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
      L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
        r0 = new Nd(v(r3), r1);
        h0 = sh(c, (mk(c, i1, r3).get(i3) + a0[i3 & 7]));
        try {
          a0[3 & 7] = i3;
        } catch (NegativeArraySizeException e1) {
          i2 = i1 ^ code(e1);
          r2 = new Nd2((int) j0, null, j1);
          L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
            i1 = -1;
          }
        } catch (ArrayIndexOutOfBoundsException e2) {
          i1 = i1 ^ code(e2);
          a0[-2147483647 & 7] = (int) j1;
        } catch (RuntimeException e3) {
          i3 = i0 ^ code(e3);
          o0 = new Object[] {r0, r1, o0};
          if (d0 > d0) {
            i1 = a0[3 & 7];
            i2 = (sh(c, (i2 << i3)).get((i0 * i2)) >>> (mk(c, i2, r3).get(i2) + (i1 / (i3 | 1))));
            i3 = (((i2 - i0) - s0.length()) & i2);
          }
        }
        h0 = sh(c, (3 - (i2 % (i2 | 1))));
      }
      r1 = new Nd2(i1, r1, (long) mk(c, i0, r2).get(i1));
      r2 = new Nd2(i3, r2, (2 <= (i3 >>> i1) ? j0 : j0));
      r3 = new Nd((mk(c, i0, r1).get(i1) & s0.length()), r3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m119(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 61, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = -360611461L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    d1 = (double) (i3 ^ i0);
    c.point();
    if (o0 instanceof Nd2) {
      synchronized (lk(c, r1)) {
        s0 = cut(s0 + 102964893948L);
        L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
          i0 = ((short) (three(c, i3, r3, i1) >>> i1));
          r0 = r3;
          L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
            i0 += 1701;
            i1 += (i3 + i0);
            {
              Nd t3_0 = new Nd2(i2, r0, (j0 ^ j1));
              i2 += three(c, (i3 * i1), t3_0, t3_0.get((i3 + i2)));
              t3_0.v = r1 instanceof Nd ? 1 : 0;
              r3 = link(c, r3, new Nd(t3_0.v, r2));
              j0 = j0 * 31 + sl(c, t3_0, j0, i2);
              i3 ^= chain(t3_0);
            }
          }
        }
        r0 = left(r0);
      }
      switch (i1 & 7) {
      case 5:
        s0 = cut(s0 + "x");
        s0 = cut(s0 + (char) (65 + (i3 & 15)));
        j0 ^= Frames4.m112(c, v(r3), link(c, r0, new Nd((int) (j0 - j1), r2)));
        break;
      case 7:
        a0[sh(c, (i1 * i2)).get(i1) & 7] = i2;
        break;
      case 4:
        i2 = i3;
        if (d1 < d1) return fin(c, j1, i0, r3);
        {
          Nd t4_0 = new Nd2(i1, r1, (j1 << (i0 >> i3)));
          d1 = d1 * 0.5 + dl(c, t4_0, d0, t4_0.lg(c, sl(c, new Nd(100, r1), j0, i3), r2));
          i3 += three(c, (i0 % (i3 | 1)), t4_0, t4_0.get((int) j0));
          i0 += three(c, (i1 << i1), t4_0, t4_0.get(v(r3)));
          j1 = j1 * 31 + sl(c, t4_0, (j1 + j1), (i1 % (s0.length() | 1)));
          j0 = j0 * 31 + t4_0.lg(c, j0, new Nd(s0.length(), r1));
          i1 ^= chain(t4_0);
        }
        break;
      }
      r0 = b0[(i0 ^ i3) & 3];
    } else {
      {
        Nd t5_0 = new Nd(mk(c, (i2 >> i3), r2).get((i2 ^ i1)), r0);
        r3 = link(c, r0, new Nd(t5_0.v, r2));
        i1 += three(c, mk(c, i3, r1).get(i3), t5_0, t5_0.get(i0));
        i2 = (r1 instanceof Nd2 ? t5_0 : t5_0).get((i3 - i3)) + v(t5_0);
        r2 = link(c, r1, new Nd(t5_0.v, r3));
        r3 = link(c, r1, new Nd(t5_0.v, r2));
        i2 ^= chain(t5_0);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m120(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 96, i2 = c.fuel & 15, i3 = -2;
    long j0 = p * 1000003L, j1 = -765913743L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r2 = new Nd(v(r3), r3);
    {
      Nd t1_0 = new Nd2((i0 >>> i0), r3, mk(c, v(r2), r0).lg(c, (long) 65535, new Nd(sh(c, (i0 >>> i1)).get(((char) i0)), r0)));
      Nd t1_1 = new Nd((int) (j0 * j1), null);
      r2 = link(c, r1, new Nd(t1_1.v, r3));
      j0 = j0 * 31 + t1_1.lg(c, (j1 ^ j1), left(r2));
      j1 = j1 * 31 + sl(c, t1_0, j0, i0);
      i2 ^= chain(t1_0);
      i2 ^= chain(t1_1);
    }
    i0 = v(left(r0));
    i3 = (i3 * i3);
    r0 = r0;
    try {
      d1 = dl(c, new Nd2(((i2 >>> i3) & (i1 - i0)), r1, (j1 - j0)), (d0 + d0), 585244641315L);
      c.point();
      switch (i1) {
      case -100:
        if ((i2 << i2) != s0.length()) throw new RuntimeException(s0);
        r3 = (Nd) o0;
        d1 = dl(c, ((i1 >>> i0) < -2322 ? r0 : r0), d1, -380867481114L);
        i1 = 1000;
        break;
      case -5:
        j1 = (long) i1;
      case 3:
        d0 = (double) mk(c, i0, r2).get(i0);
        j1 = (j1 & j1);
        break;
      case 100000:
        {
          Nd t2_0 = new Nd(i0, null);
          r3 = link(c, r2, new Nd(t2_0.v, r2));
          r2 = link(c, r2, new Nd(t2_0.v, r2));
          i3 ^= chain(t2_0);
        }
        break;
      }
      h0 = sh(c, i2);
    } catch (Ex e1) {
      i0 = i3 ^ code(e1);
      b0[(i2 & i0) & 3] = left(r0);
      a0[(int) j1 & 7] = (int) (long) 6991;
      L3: for (int q3 = 0; q3 < 4 && --c.fuel > 0; ++q3) {
        d1 = (double) (i3 * i0);
        if (o0 instanceof Nd2) {
          if (d1 <= d1) {
            r2 = (j0 != mk(c, (i2 - i3), r1).lg(c, j1, new Nd(2147483647, r0)) ? null : left(r1));
            i0 += (int) j0;
          }
          {
            Nd t4_0 = new Nd(h0.get((i2 ^ i2)), null);
            i3 += three(c, (i0 & i1), t4_0, t4_0.get(mk(c, i0, r3).get(i0)));
            j1 = j1 * 31 + sl(c, t4_0, (true ? j1 : j1), i0);
            d1 = d1 * 0.5 + dl(c, t4_0, d0, t4_0.lg(c, (long) (int) j0, r1));
            r1 = link(c, r2, new Nd(t4_0.v, r0));
            i3 += three(c, 1, t4_0, t4_0.get((i3 % (i0 | 1))));
            i1 ^= chain(t4_0);
          }
        }
        switch (i2) {
        case -100:
          {
            Nd t5_0 = mk(c, ((i3 % (i2 | 1)) - i2), r1);
            Nd t5_1 = new Nd2((d1 < d1 ? i0 : i3), r1, sl(c, null, j1, i0));
            d1 = d1 * 0.5 + dl(c, t5_0, d1, t5_0.lg(c, j1, r1));
            t5_1.v += v(r2) + i0;
            t5_0.v = (i3 & i1) != (i2 / (i3 | 1)) ? 1 : 0;
            r3 = link(c, r3, new Nd(t5_0.v, r3));
            j1 = j1 * 31 + t5_0.lg(c, (j1 >>> (i1 & i1)), new Nd(-1, r2));
            i0 ^= chain(t5_0);
            i3 ^= chain(t5_1);
          }
        case 0:
          i1 = (((short) v(r2)) >> mk(c, three(c, i2, r1, i1), r0).get((i1 + i2)));
          i2 += (i3 * i2);
          i0 += i2;
          break;
        case 1000:
          i0 = ((i3 * a0[i0 & 7]) ^ i1);
        case 100000:
          i1 += (i3 & i0);
          {
            Nd t6_0 = new Nd(i3, r1);
            Nd t6_1 = new Nd(((i3 / (i2 | 1)) >> i0), null);
            t6_0.l = link(c, r1, b0[(i2 * i1) & 3]);
            t6_1.l = link(c, left(r0), new Nd(i2, r1));
            j1 = j1 * 31 + t6_1.lg(c, j0, (r1 instanceof Nd2 ? r1 : r1));
            t6_1.v = r0 == null ? 1 : 0;
            i1 ^= chain(t6_0);
            i0 ^= chain(t6_1);
          }
          i0 = i3;
          a0[(d1 < d0 ? i0 : i3) & 7] = i2;
          break;
        case -5:
          i3 += (i2 / (i0 | 1));
          i3 += a0[i3 & 7];
          i2 += s0.length();
          j1 = (j1 ^ (j1 << sh(c, i2).get(i0)));
          break;
        default:
          i1 = (i2 - (s0.length() >> sh(c, (i2 << i3)).get(i0)));
        }
        c.point();
      }
    } catch (ClassCastException e2) {
      i0 = i2 ^ code(e2);
      j0 ^= Frames4.m118(c, 100, b0[mk(c, i0, r0).get(i3) & 3]);
      i2 = i1;
    } catch (RuntimeException e3) {
      i1 = i0 ^ code(e3);
      if (r0 != null) return fin(c, j1, i0, r1);
      i1 = ((byte) -2147483647);
      o0 = new int[] {i0, 3};
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m121(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 83, i2 = c.fuel & 15, i3 = -1;
    long j0 = p * 1000003L, j1 = 966495210L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    b0[(i0 & i1) & 3] = ((i3 - i2) > (i0 * i1) ? new Nd2(((i2 + i0) >>> 65535), r1, (long) mk(c, i3, r3).get(i3)) : r1);
    if (r0 != r0) {
      try {
        try {
          r2 = r3;
          i1 = (((byte) (i2 << i1)) + mk(c, s0.length(), r3).get((i1 & i0)));
          i0 = mk(c, ((i0 / i3) * (int) j0), r3).get(65535);
        } catch (Ex e1) {
          i0 = i3 ^ code(e1);
          if (((i3 - i2) != i3 || r0 == null)) return fin(c, j1, i0, r3);
          try {
            i0 = i1;
          } catch (ClassCastException e2) {
            i3 = i1 ^ code(e2);
            i3 = (((i3 / i1) + i3) * 0);
            j0 = sl(c, new Nd2(-2147483647, null, sl(c, (i0 != ((short) i0) ? r0 : r0), j1, (i3 >> i0))), j0, (i3 + i0));
            i0 += 3;
          } catch (NegativeArraySizeException e3) {
            i1 = i2 ^ code(e3);
            j1 = (((j0 - j1) + j1) & (i3 >= (i0 << i1) ? ((j0 - j0) < sl(c, link(c, r3, r2), j0, 0) ? j1 : j1) : (j1 + j1)));
            if (r1 == null) return fin(c, j1, i0, r0);
            i0 = -1;
            {
              Nd t1_0 = new Nd((i3 * 100), r1);
              d1 = d1 * 0.5 + dl(c, t1_0, d0, t1_0.lg(c, 135075700516L, r0));
              i0 += three(c, (i1 & i2), t1_0, t1_0.get(v(r1)));
              j0 = j0 * 31 + sl(c, t1_0, j1, (s0.length() + mk(c, i1, r0).get(i3)));
              t1_0.l = link(c, b0[i2 & 3], r2);
              d1 = d1 * 0.5 + dl(c, t1_0, d0, t1_0.lg(c, (j1 % (j1 | 1L)), r0));
              i1 ^= chain(t1_0);
            }
          } catch (RuntimeException e4) {
            i3 = i3 ^ code(e4);
            o0 = left(r3);
            r3 = link(c, r0, new Nd(s0.length(), r1));
            j0 ^= Frames4.m114(c, (i0 + 1000), new Nd(-1, r0));
            i0 += (i0 << i3);
          }
        } catch (NullPointerException e5) {
          i3 = i0 ^ code(e5);
          i2 = three(c, mk(c, 31, r1).get(three(c, i0, r0, i0)), link(c, link(c, r2, r3), b0[(i2 >> i0) & 3]), ((i0 << i3) << (i0 ^ i0)));
          j0 ^= Frames4.m109(c, i2, r0);
          if (s0.length() == i1) throw new Ex((int) j0);
          j1 = ((j0 * (j1 - j1)) << (i1 ^ i2));
        } catch (RuntimeException e6) {
          i3 = i2 ^ code(e6);
          j0 ^= Frames4.m110(c, ((i0 - i0) << (i3 << i1)), r3);
          i2 += 3;
          if ((i1 << i1) >= (i3 * i1)) throw new RuntimeException(s0);
          r1 = new Nd2(((i2 >>> i2) + i1), r0, (j0 ^ j1));
        }
        j1 = j1;
        i2 += (i0 < (i1 << i1) ? i1 : i2);
      } catch (ArrayIndexOutOfBoundsException e7) {
        i2 = i1 ^ code(e7);
        i0 += (int) j1;
        i1 += (int) j0;
        s0 = cut(s0 + (char) (65 + (i3 & 15)));
        i1 = ((i0 + (i3 + i0)) & (i2 / ((i0 - i3) | 1)));
      } catch (ArithmeticException e8) {
        i2 = i3 ^ code(e8);
        i2 += (i1 + i2);
      } catch (ClassCastException e9) {
        i2 = i2 ^ code(e9);
        i1 = i0;
      } catch (RuntimeException e10) {
        i0 = i0 ^ code(e10);
        h0 = sh(c, ((true ? i3 : i1) / ((i2 - i2) | 1)));
        {
          Nd t2_0 = new Nd(100, r2);
          i2 = (r3 != null ? t2_0 : t2_0).get(31) + v(t2_0);
          r0 = link(c, r0, new Nd(t2_0.v, r0));
          t2_0.v += v((r3 instanceof Nd2 ? new Nd(((i2 + i1) ^ i1), r2) : left(r3))) + i3;
          t2_0.l = link(c, left(r0), r1);
          i3 ^= chain(t2_0);
        }
        o0 = r1;
        h0 = sh(c, (a0[i3 & 7] + (i1 + i0)));
      }
      h0 = sh(c, ((byte) s0.length()));
      i3 += (i1 % (i2 | 1));
    } else {
      c.point();
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m122(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 89, i2 = c.fuel & 15, i3 = -9;
    long j0 = p * 1000003L, j1 = 601663812L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r0 = new Nd(i3, r2);
    j0 = (long) three(c, i1, r2, i3);
    switch (i1) {
    case 100000:
      if (i2 < i1) return fin(c, j1, i0, r2);
    case 1000:
      b0[(int) j1 & 3] = null;
      break;
    case 77:
      if (r1 instanceof Nd) {
        switch ((i2 - i1) & 7) {
        case 2:
          i1 = mk(c, 2147483647, r3).get(sh(c, 0).get((i2 << i1)));
          L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
            r0 = new Nd(i0, r1);
            r0 = new Nd((i3 * (i2 + i1)), r1);
          }
          a0[(i2 + i0) & 7] = h0.get((i0 * i1));
        case 0:
          if ((i1 << i1) >= i1) {
            i2 += i0;
          }
          if ((i0 + i0) <= i1) return fin(c, j1, i0, r0);
        case 1:
          if (j1 == (j0 / (j0 | 1L))) return fin(c, j1, i0, r3);
          i2 = (i0 + ((i1 - i2) >>> (i0 % (i3 | 1))));
          a0[100 & 7] = 7;
          if (((long) d1 <= j1 || a0[i3 & 7] <= (int) j0)) {
            j0 ^= Frames4.m110(c, (s0.length() + -2005), r2);
            c.point();
            j0 ^= Frames4.m110(c, i1, new Nd((int) j0, r2));
            j0 = 246797379903L;
          } else {
            i1 += (i1 + i2);
          }
          break;
        case 6:
          i0 += (i3 + i1);
          i2 += three(c, i0, r3, i0);
          i3 += i1;
        }
        d1 = (double) mk(c, i3, r3).get(i1);
      } else {
        i2 += ((-1 <= i0 ? i2 : i2) < a0[i2 & 7] ? i3 : i2);
      }
      d1 = d0;
      i1 = s0.length();
      i0 = i2;
      break;
    case 0:
      {
        Nd t2_0 = new Nd2(mk(c, i0, r0).get(i2), r1, (sl(c, link(c, r3, r3), j1, i1) & (j0 % (j0 | 1L))));
        t2_0.l = link(c, (r1 != null ? r1 : r3), link(c, r1, r3));
        j1 = j1 * 31 + t2_0.lg(c, j1, new Nd(i2, r2));
        j0 = j0 * 31 + sl(c, t2_0, j0, 7);
        d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, j0, r2));
        i1 ^= chain(t2_0);
      }
      i2 = (i3 + i0);
      i2 += ((j1 / (j1 | 1L)) != -6961701474L ? i0 : i1);
      i0 += h0.get(i0);
    default:
      i0 += (i0 - i0);
      a0[(i2 % (i2 | 1)) & 7] = three(c, (i1 % (i3 | 1)), new Nd2(i1, r1, (long) (int) j1), i0);
      r1 = (r2 == null ? new Nd((a0[i2 & 7] << ((short) i2)), r3) : r2);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m123(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 63, i2 = c.fuel & 15, i3 = -9;
    long j0 = p * 1000003L, j1 = -44332738L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    i0 = 3;
    switch (i2) {
    case -100:
      c.point();
      if (r3 instanceof Nd) return fin(c, j1, i0, r1);
      i0 = (int) j0;
      break;
    case 100000:
      if (i0 < (i0 >> i0)) {
        i0 = (i0 % (a0[i1 & 7] | 1));
        r2 = link(c, new Nd2(((char) i0), r2, j0), r0);
        i1 = i0;
        i2 = 0;
      }
      break;
    }
    if (r2 == r3) {
      try {
        try {
          d0 = d0;
          j1 = ((o0 instanceof Nd ? (j0 ^ j1) : (j0 >>> (i3 * i1))) - sl(c, link(c, r0, r3), sl(c, r2, (j0 - j0), (int) j1), (i2 + i3)));
          o0 = new int[] {(true ? 2 : (i3 + i0)), 3};
          a0[(i0 ^ i1) & 7] = i3;
        } catch (Ex e1) {
          i2 = i0 ^ code(e1);
          try {
            i1 += i1;
            i0 = i3;
            f0 = f0 * 0.5f + (float) (i1 & 1023);
          } catch (NullPointerException e2) {
            i3 = i3 ^ code(e2);
            j1 = (long) ((short) i1);
          } catch (ArithmeticException e3) {
            i2 = i2 ^ code(e3);
            r1 = new Nd(i2, r3);
          } catch (NegativeArraySizeException e4) {
            i3 = i2 ^ code(e4);
            b0[(i0 >>> i2) & 3] = r1.l;
            i1 = (((i1 * i3) & (int) j1) + (i3 >>> mk(c, i0, r1).get(i3)));
            i2 += i3;
            i2 = (i2 - (i0 >>> (i2 >>> i2)));
          } catch (RuntimeException e5) {
            i3 = i2 ^ code(e5);
            c.point();
            i3 += (i0 >> i3);
          }
        } catch (RuntimeException e6) {
          i0 = i0 ^ code(e6);
          if (r1 instanceof Nd) return fin(c, j1, i0, r0);
          i2 = (int) 485942460179L;
          i0 += (i3 & i0);
          a0[(i0 + i1) & 7] = (i0 + 7);
        }
        j1 = (j0 & ((long) i1 << (i1 >>> i2)));
        i0 += i3;
      } catch (RuntimeException e7) {
        i0 = i3 ^ code(e7);
        s0 = cut(s0 + "x");
      }
      i2 = i2;
      i0 += (i0 - i0);
    } else {
      i1 += i2;
      i2 = ((three(c, i2, r0, i3) - i0) / (2 | 1));
      {
        Nd t1_0 = mk(c, i2, new Nd(i2, r2));
        Nd t1_1 = new Nd((i0 >>> (int) j1), null);
        j1 = j1 * 31 + sl(c, t1_0, (j0 % (j0 | 1L)), (2147483647 << (i0 & i2)));
        i0 = ((r1 == null || (j0 - j0) < j0) ? t1_0 : t1_1).get(i0) + v(t1_0);
        i3 += three(c, v(r0), t1_1, t1_1.get((int) j1));
        t1_0.l = link(c, ((i1 >> i0) >= (i1 + i3) ? r1 : r2), r1);
        j1 = j1 * 31 + sl(c, t1_0, (j0 >>> i1), ((i0 % (i3 | 1)) - ((short) i1)));
        i3 ^= chain(t1_0);
        i1 ^= chain(t1_1);
      }
      {
        Nd t2_0 = new Nd2((i2 / (i2 | 1)), r0, j1);
        Nd t2_1 = new Nd2(v(r0), r3, ((j1 & j1) * (j1 & j1)));
        i3 += three(c, (i0 * i3), t2_1, t2_1.get(100));
        t2_1.v += v(null) + h0.get(s0.length());
        j0 = j0 * 31 + sl(c, t2_1, j0, i3);
        j1 = j1 * 31 + sl(c, t2_0, 356053526089L, i3);
        t2_0.v += v(new Nd(i3, r0)) + (i1 - (int) j1);
        i2 ^= chain(t2_0);
        i2 ^= chain(t2_1);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m124(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 97, i2 = c.fuel & 15, i3 = -6;
    long j0 = p * 1000003L, j1 = -478694955L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    try {
      r3 = r1;
    } catch (NullPointerException e1) {
      i2 = i1 ^ code(e1);
      i2 = s0.length();
    } catch (RuntimeException e2) {
      i1 = i1 ^ code(e2);
      d1 = (double) (d1 >= d0 ? i1 : i2);
      i0 = (i2 - (i1 << s0.length()));
      switch (three(c, 4920, new Nd(7, r1), i1) & 7) {
      case 0:
        switch (i0) {
        case 1000:
          {
            Nd t1_0 = mk(c, (i0 * three(c, i2, r2, i0)), r3);
            r0 = link(c, r3, new Nd(t1_0.v, r1));
            i1 = (i2 == (i3 + i2) ? t1_0 : t1_0).get((i1 >>> i1)) + v(t1_0);
            i0 ^= chain(t1_0);
          }
          i0 = (1000 & (mk(c, i3, r1).get(i2) >>> (i0 << i2)));
          if (mk(c, (r2 == null ? i2 : i1), r2).lg(c, j1, new Nd((i1 & i2), null)) < j0) return fin(c, j1, i0, r0);
          {
            Nd t2_0 = new Nd((int) j0, r0);
            Nd t2_1 = new Nd2((int) j1, r0, j0);
            t2_0.v = (j1 + j0) > (j1 & j0) ? 1 : 0;
            t2_0.l = link(c, link(c, r2, r3), link(c, r2, r3));
            i2 ^= chain(t2_0);
            i3 ^= chain(t2_1);
          }
          break;
        case 3:
          b0[sh(c, i2).get(i0) & 3] = left(r1);
          i0 = ((int) (j1 >>> (d1 > d1 ? i1 : i3)) - i3);
          i3 = mk(c, i2, r1).get(v(new Nd(((i3 + i1) ^ (i1 >> i0)), r3)));
          break;
        default:
          i0 = (i3 - (int) (j0 + j1));
        }
        synchronized (lk(c, r3)) {
          i3 = ((i3 ^ (i1 << i3)) >>> (s0.length() << (i3 + i0)));
          i3 += i1;
          a0[(i2 + i2) & 7] = i1;
        }
        break;
      case 4:
        i1 += i2;
        break;
      case 6:
        i0 += (true ? i2 : i3);
        i1 += ((short) i0);
        c.point();
        break;
      case 7:
        if (j1 < (j1 ^ sl(c, b0[1000 & 3], j1, 5))) return fin(c, j1, i0, r1);
        {
          Nd t3_0 = mk(c, (i3 - 65535), null);
          j0 = j0 * 31 + t3_0.lg(c, (j0 + j1), new Nd(i0, r1));
          r3 = link(c, r3, new Nd(t3_0.v, r2));
          d1 = d1 * 0.5 + dl(c, t3_0, d0, t3_0.lg(c, (j1 << (i1 >> i1)), r1));
          i3 += three(c, (i1 * i2), t3_0, t3_0.get(((byte) i0)));
          i1 ^= chain(t3_0);
        }
        i3 += (i1 - i1);
        break;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }
}

package w;

/** Generated by tools/genframes.py. */
class Frames2 extends Frames {
  static long m50(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 46, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = 780511426L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r3 = left(r3);
    s0 = cut(s0 + "x");
    c.point();
    synchronized (lk(c, r1)) {
      r1 = new Nd2(sh(c, i1).get(i2), r1, (j0 + j0));
      i3 = ((short) ((i1 + i3) + s0.length()));
      j1 = j0;
    }
    j1 = mk(c, i2, r0).lg(c, j0, r1);
    L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
      i1 = v(r0);
      switch ((-2147483647 - 7) & 7) {
      case 7:
        r3 = link(c, new Nd((mk(c, i3, r1).get(i1) - mk(c, i2, r0).get(i3)), r2), new Nd((s0.length() + i3), r2));
        break;
      case 4:
        i1 = v(null);
        L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
          r3 = new Nd2((1 + 5), r3, (long) i1);
          try {
            i1 = (((i3 + i2) * (i0 / i2)) << h0.get((i0 >> i2)));
            i1 += (i2 - i1);
            i3 += (i0 ^ i1);
            i0 += i1;
          } catch (NullPointerException e1) {
            i2 = i2 ^ code(e1);
            r2 = (r3 != null ? new Nd2(h0.get(i3), null, -89471123982L) : new Nd2(i0, r0, (j1 << (i3 + i2))));
          } catch (ClassCastException e2) {
            i1 = i2 ^ code(e2);
            r1 = new Nd((i3 % (i0 | 1)), r0);
            i1 = i3;
            r2 = null;
            i3 += i1;
          } catch (RuntimeException e3) {
            i2 = i2 ^ code(e3);
            a0[i3 & 7] = i3;
            {
              Nd t3_0 = mk(c, (int) j1, left(r3));
              Nd t3_1 = new Nd(v(left(r3)), r1);
              j1 = j1 * 31 + t3_1.lg(c, j1, link(c, r1, r1));
              r3 = link(c, r2, new Nd(t3_0.v, r3));
              d1 = d1 * 0.5 + dl(c, t3_1, d0, t3_1.lg(c, (j1 - j0), r0));
              i0 ^= chain(t3_0);
              i3 ^= chain(t3_1);
            }
            i3 += i3;
          }
          s0 = cut(s0 + "x");
          i0 += (a0[i0 & 7] == three(c, i1, r3, i2) ? i0 : i3);
        }
        i0 += (i3 + i2);
        break;
      case 3:
        if ((d0 > d1 || r0 instanceof Nd)) break L1;
        if ((31 >= (i3 / (i2 | 1)) && -2147483647 < mk(c, i0, r3).get(i3))) break L1;
        j0 ^= Frames1.m42(c, -1, r1);
        i2 += (i2 ^ i3);
        break;
      default:
        i2 += -1;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m51(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 35, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = 900542174L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r3 = new Nd(s0.length(), r2);
    try {
      if ((((long) (i0 - i2) < (j1 & j0) || (i2 + i0) != 2147483647) || r0 != r3)) {
        r0 = (r1 != null ? r3.l : new Nd2(((i1 / i0) * i3), r0, (j1 - j1)));
        s0 = cut(s0 + "x");
        r0 = left(r2);
      }
      i3 = mk(c, i2, r3).get(v(r3));
    } catch (RuntimeException e1) {
      i0 = i3 ^ code(e1);
      {
        Nd t1_0 = new Nd(((i1 + i3) << i3), r2);
        j0 = j0 * 31 + sl(c, t1_0, (j0 / (j1 | 1L)), (s0.length() + 5));
        j1 = j1 * 31 + sl(c, t1_0, (j1 + j1), h0.get(i3));
        i1 = ((r0 instanceof Nd || -490735816669L > j0) ? t1_0 : t1_0).get((i3 % (i2 | 1))) + v(t1_0);
        t1_0.v = (i3 / (i2 | 1)) >= (i1 % (i0 | 1)) ? 1 : 0;
        i1 ^= chain(t1_0);
      }
      r0 = link(c, left(r0), new Nd(i3, r3));
      synchronized (lk(c, r0)) {
        a0[(i1 * i0) & 7] = (int) j1;
        {
          Nd t2_0 = mk(c, (i0 >>> (i2 - i0)), link(c, r2, r1));
          Nd t2_1 = new Nd(i1, r3);
          t2_0.v += v(new Nd((i2 + sh(c, 7).get(i3)), r1)) + i3;
          i2 = (v(r2) == i1 ? t2_1 : t2_1).get((i2 ^ i0)) + v(t2_1);
          d1 = d1 * 0.5 + dl(c, t2_1, d1, t2_1.lg(c, j1, r1));
          r2 = link(c, r1, new Nd(t2_0.v, r0));
          j1 = j1 * 31 + t2_0.lg(c, (j0 - j0), new Nd(((int) j0 - (int) j1), null));
          i2 ^= chain(t2_0);
          i3 ^= chain(t2_1);
        }
        L3: for (int q3 = 0; q3 < 3 && --c.fuel > 0; ++q3) {
          L4: for (int q4 = 0; q4 < 4 && --c.fuel > 0; ++q4) {
            j0 ^= Frames1.m40(c, mk(c, (int) j1, r0).get(i2), left(r0));
            r0 = new Nd(three(c, i1, new Nd(((i1 >>> i3) ^ a0[i1 & 7]), r0), i1), r0);
            i1 += (int) j1;
          }
        }
      }
      i3 = i2;
    }
    switch (i2 & 7) {
    case 0:
      b0[v(r1) & 3] = new Nd((i0 >>> 100), r3);
      L5: for (int q5 = 0; q5 < 4 && --c.fuel > 0; ++q5) {
        synchronized (lk(c, r1)) {
          i0 = i2;
        }
        L6: for (int q6 = 0; q6 < 1 && --c.fuel > 0; ++q6) {
          i3 = i1;
          if (d1 <= d0) break;
        }
      }
    case 3:
      i3 = v(r2);
      switch (i0) {
      case 0:
        L7: for (int q7 = 0; q7 < 2 && --c.fuel > 0; ++q7) {
          {
            Nd t8_0 = new Nd2((i1 * i3), r1, (long) d1);
            Nd t8_1 = new Nd2(i0, r1, ((j1 - j0) * (r2 != null ? j1 : j0)));
            t8_1.v = r0 != r0 ? 1 : 0;
            t8_1.v = d0 >= d0 ? 1 : 0;
            i2 ^= chain(t8_0);
            i0 ^= chain(t8_1);
          }
        }
        i1 += (i0 / (i2 | 1));
        j0 = j0;
        i2 = v(r3);
        break;
      case 3:
        j0 = (((long) (i0 & i0) / ((j0 * j1) | 1L)) / (-567445795346L | 1L));
        if ((long) d1 == -956355087121L) return fin(c, j1, i0, r0);
        i3 += (i3 >>> i0);
        r0 = new Nd2(i0, r2, -609517968182L);
      case 77:
        i1 += (int) j0;
        j0 ^= Frames1.m44(c, 5, left(r3));
        break;
      default:
        r3 = left(r1);
      }
      break;
    case -5:
      c.point();
      i1 += 100;
      if ((long) (i2 >>> i0) != (j1 * j1)) return fin(c, j1, i0, r0);
      i2 = i0;
      break;
    default:
      i3 = (int) j1;
      i0 += i2;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m52(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 67, i2 = c.fuel & 15, i3 = -8;
    long j0 = p * 1000003L, j1 = -247832266L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i3 = 5;
    if ((i3 >> i2) <= (i2 & i1)) {
      try {
        i3 = new int[i3 & 0x8000000f].length;
        try {
          r0 = (Nd) o0;
          i3 = i0;
          i0 = three(c, i2, link(c, left(r1), new Nd2((v(r2) + (i0 - i1)), r2, (j0 - j1))), (v(r2) + (i2 + i1)));
          L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
            if (mk(c, i1, r0).lg(c, j1, r0) != j1) throw new RuntimeException(s0);
            i3 = i3;
            i3 += i2;
          }
        } catch (NegativeArraySizeException e1) {
          i2 = i1 ^ code(e1);
          i1 = i2;
        } catch (Ex e2) {
          i2 = i3 ^ code(e2);
          {
            Nd t2_0 = new Nd2((i3 >>> i1), r0, 309592275450L);
            r1 = link(c, r3, new Nd(t2_0.v, r1));
            t2_0.l = link(c, (j0 == (j1 - j0) ? r3 : r3), new Nd((s0.length() + i0), r3));
            j1 = j1 * 31 + sl(c, t2_0, (j0 + j0), (r0 == null ? v(r2) : (i3 * i1)));
            t2_0.v = (long) d0 < mk(c, (i1 - i1), r1).lg(c, j0, (Nd) o0) ? 1 : 0;
            i1 ^= chain(t2_0);
          }
          r0 = r2.l;
          j0 ^= Frames1.m43(c, (5 + (int) j0), r2);
          i2 += three(c, i0, r0, i0);
        } catch (ArrayIndexOutOfBoundsException e3) {
          i2 = i2 ^ code(e3);
          i3 = (((i3 % i1) ^ 1) * (v(r3) % a0[i0 & 7]));
          i1 += (int) j0;
          c.point();
          b0[-2147483647 & 3] = b0[s0.length() & 3];
        } catch (RuntimeException e4) {
          i0 = i3 ^ code(e4);
          r2 = r0.l;
          i2 = (0 - i2);
          if (((r2 == null && r0 == null) && d0 > d1)) throw new Ex(1000);
        }
        i2 = s0.length();
        i0 = i2;
      } catch (ArrayIndexOutOfBoundsException e5) {
        i2 = i3 ^ code(e5);
        i3 += ((short) i0);
        r1 = r3;
        {
          Nd t3_0 = new Nd(i1, r1);
          Nd t3_1 = new Nd(v(r3), r1);
          t3_1.v = (i0 << i3) < 31 ? 1 : 0;
          i1 += three(c, i0, t3_1, t3_1.get(i3));
          j0 = j0 * 31 + t3_1.lg(c, j0, new Nd(i1, r3));
          i3 ^= chain(t3_0);
          i0 ^= chain(t3_1);
        }
        {
          Nd t4_0 = new Nd(v((r0 instanceof Nd ? r1 : r1)), r3);
          Nd t4_1 = new Nd2((i0 << i2), r1, 162398389294L);
          t4_0.v += v(new Nd2(-1, r2, sl(c, r3, j1, s0.length()))) + i2;
          r2 = link(c, r0, new Nd(t4_1.v, r3));
          i1 ^= chain(t4_0);
          i2 ^= chain(t4_1);
        }
      } catch (RuntimeException e6) {
        i2 = i0 ^ code(e6);
        i2 += a0[i0 & 7];
        i1 += (i1 - i1);
      } finally {
        i0 += (i3 - i1);
      }
      j0 ^= Frames1.m44(c, i1, (r0 == null ? (v(r0) < (i0 ^ i2) ? r0 : r1) : b0[mk(c, i2, r0).get(i1) & 3]));
      r0 = null;
      {
        Nd t5_0 = new Nd(i0, null);
        Nd t5_1 = new Nd2((i2 >>> i1), r3, mk(c, i0, r3).lg(c, (j1 ^ j0), new Nd(i2, r1)));
        t5_0.l = link(c, r3, link(c, r2, r2));
        t5_1.v = ((i0 * i0) != sh(c, (i3 % (i3 | 1))).get(i3) || h0.get(i3) <= i0) ? 1 : 0;
        i0 ^= chain(t5_0);
        i1 ^= chain(t5_1);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m53(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 99, i2 = c.fuel & 15, i3 = 1;
    long j0 = p * 1000003L, j1 = -327411699L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      j0 = (long) (i2 % i0);
      if ((i0 >> i1) != (i1 - i0)) throw new Ex2((i1 << i2), r0);
      switch (i1) {
      case -100:
        r3 = new Nd(((i3 - i2) & i0), r2);
        o0 = s0;
        break;
      case 100000:
        L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
          d0 = (double) (i1 & i0);
          i0 = (r1 == r1 ? ((i1 ^ i2) - ((i0 / i0) <= i0 ? i3 : i0)) : 1);
          b0[i2 & 3] = new Nd(v(((r2 != r2 || d0 == d1) ? r3 : r1)), null);
          try {
            i0 += (i3 + i0);
            i3 += ((char) i3);
            i2 += (i0 & i0);
          } catch (ClassCastException e1) {
            i1 = i1 ^ code(e1);
            i1 = i1;
          } catch (ArithmeticException e2) {
            i2 = i1 ^ code(e2);
            i0 = 2147483647;
            i1 = ((short) h0.get((i3 - i2)));
          } catch (NegativeArraySizeException e3) {
            i2 = i3 ^ code(e3);
            i1 = ((i3 / -1) ^ ((i2 % i0) / (i0 * i1)));
            i3 = 0;
          } catch (RuntimeException e4) {
            i1 = i1 ^ code(e4);
            c.point();
            j1 = -877069415646L;
            h0 = sh(c, (((char) i1) - i3));
            a0[h0.get(i1) & 7] = 2147483647;
          } finally {
            r1 = left(r1);
            if (((j0 - j0) == mk(c, (int) j0, r1).lg(c, j1, link(c, r2, r3)) || (r1 == null || mk(c, (i1 % (i1 | 1)), r2).lg(c, j1, (r0 == null ? r0 : r1)) <= (j0 + j0)))) j0 ^= fin(c, j1, i0, r2);
            i1 += i0;
            c.point();
          }
        }
        break;
      case 77:
        i3 += a0[i2 & 7];
        a0[(i1 >> i1) & 7] = i1;
        a0[i0 & 7] = i2;
        {
          Nd t2_0 = mk(c, (int) (j0 / j1), b0[(i2 - i1) & 3]);
          Nd t2_1 = new Nd2(v(r0), r0, (long) d1);
          i1 += three(c, i2, t2_0, t2_0.get((i3 / i2)));
          t2_0.l = link(c, new Nd(i1, null), null);
          t2_0.v += v(new Nd(i1, r2)) + sh(c, 7).get(i2);
          i0 ^= chain(t2_0);
          i0 ^= chain(t2_1);
        }
        break;
      }
    } catch (Ex e5) {
      i3 = i2 ^ code(e5);
      {
        Nd t3_0 = mk(c, three(c, v(r3), left(r1), i2), new Nd(i1, r0));
        Nd t3_1 = new Nd(i3, r0);
        d1 = d1 * 0.5 + dl(c, t3_1, d0, t3_1.lg(c, j0, r3));
        j0 = j0 * 31 + sl(c, t3_1, j1, (int) j0);
        i2 ^= chain(t3_0);
        i1 ^= chain(t3_1);
      }
      i3 += a0[i3 & 7];
      r2 = link(c, new Nd(a0[(i3 >>> i0) & 7], null), new Nd(((i0 >> i0) & ((char) i0)), null));
    } catch (ArrayIndexOutOfBoundsException e6) {
      i1 = i0 ^ code(e6);
      i0 += i2;
      i0 += i0;
      i3 = i1;
      d1 = (double) (i3 - i0);
    } catch (ArithmeticException e7) {
      i2 = i3 ^ code(e7);
      if (d1 <= d1) return fin(c, j1, i0, r0);
      r2 = link(c, r1, new Nd(h0.get(sh(c, (i0 & i2)).get(i3)), r1));
      i2 = ((short) (i0 & 5));
    } catch (RuntimeException e8) {
      i1 = i2 ^ code(e8);
      h0 = sh(c, (1000 ^ (i2 << i3)));
      r1 = new Nd(i1, null);
      {
        Nd t4_0 = new Nd(i0, r0);
        t4_0.l = link(c, new Nd2(((r0 instanceof Nd2 ? i0 : i3) - i0), r3, sl(c, r3, j1, (i2 - i3))), r2);
        t4_0.l = link(c, new Nd2(((int) j1 - mk(c, i1, r1).get(i0)), r1, (j0 - j0)), r1);
        i3 ^= chain(t4_0);
      }
      i1 = ((r0 != null ? (i3 * i1) : v(r0)) << v(new Nd(((i2 >> i1) - (i3 - i1)), r1)));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m54(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 84, i2 = c.fuel & 15, i3 = -6;
    long j0 = p * 1000003L, j1 = 893765611L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i1 = ((r0 != r1 ? (i1 / (i0 | 1)) : i0) * (3 ^ i0));
    L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
      synchronized (lk(c, r2)) {
        i0 = 8293;
        b0[i1 & 3] = r3;
      }
      i3 = i0;
      j1 = ((long) (i0 >>> i0) + sl(c, r1, 293786156173L, (i2 + i0)));
      j0 ^= Frames2.m53(c, (i0 << mk(c, i3, r0).get(i1)), new Nd(5, r2));
    }
    r2 = link(c, new Nd2(((i0 + i3) >= i2 ? h0.get(i1) : (i3 - i1)), r3, (true ? j0 : j0)), new Nd2(three(c, (i2 + i2), r2, (i1 + i2)), r1, (j0 ^ j0)));
    synchronized (lk(c, r1)) {
      r2 = (r3 != null ? link(c, new Nd((h0.get(i3) + i1), null), r1) : r2);
      r3 = new Nd((i1 >>> (r2 instanceof Nd ? i3 : i2)), r0);
      i3 = mk(c, v(r1), r2).get(i2);
      L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
        i0 = v(r2);
        if (r0 != r0) {
          i1 = i1;
          b0[i2 & 3] = new Nd((int) 704779614244L, r1);
          try {
            i2 += (true ? i2 : i3);
            r2 = new Nd((5 & (i2 * i1)), null);
            i3 += -6408;
          } catch (RuntimeException e1) {
            i1 = i3 ^ code(e1);
            i3 = (int) j0;
            {
              Nd t3_0 = mk(c, ((i3 * i3) + (i1 ^ i0)), r0);
              Nd t3_1 = new Nd(((int) j0 + a0[i1 & 7]), r2);
              i3 = (r2 != r1 ? t3_0 : t3_1).get(31) + v(t3_0);
              d1 = d1 * 0.5 + dl(c, t3_1, d0, t3_0.lg(c, (j1 + j1), r3));
              j0 = j0 * 31 + t3_1.lg(c, (j0 + sl(c, new Nd(a0[(i3 - i1) & 7], r1), j1, ((i1 + i3) < i1 ? i1 : i0))), null);
              i3 ^= chain(t3_0);
              i3 ^= chain(t3_1);
            }
          }
        } else {
          a0[i2 & 7] = ((i2 ^ i2) >> v(r1));
          j0 ^= Frames2.m50(c, i1, new Nd(100, r1));
        }
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m55(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 12, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = 597743758L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i3 = (i0 & i2);
    j0 = (j1 / (j1 | 1L));
    i0 = i1;
    i0 = (((i0 ^ i2) & (i1 % (i2 | 1))) + i3);
    i3 = 2;
    r3 = new Nd((i2 >> (i0 & i0)), r2);
    b0[i0 & 3] = new Nd((int) j0, r2);
    r0 = b0[a0[i3 & 7] & 3];
    c.point();
    i2 = (-2147483647 & (mk(c, i0, r2).get(i2) >> (i1 * i0)));
    switch ((r0 != null ? 5 : 1) & 7) {
    case 3:
      if ((j0 ^ sl(c, new Nd(((int) j0 + sh(c, i1).get(i2)), r3), j1, (i1 - i1))) != j1) return fin(c, j1, i0, r1);
      i2 = 4095;
      if (r0 != null) {
        d1 = (double) ((i1 + i0) <= 7 ? i3 : i0);
      } else {
        synchronized (lk(c, r3)) {
          try {
            i0 += v(r3);
          } catch (ClassCastException e1) {
            i2 = i0 ^ code(e1);
            c.point();
            i2 += i1;
          } catch (RuntimeException e2) {
            i0 = i0 ^ code(e2);
            o0 = new int[] {(i3 ^ 7), 3};
          }
        }
        j0 ^= Frames2.m52(c, s0.length(), new Nd(i2, r0));
        r3 = ((j0 != j0 || r2 == null) ? new Nd(((int) j0 ^ i2), r3) : left(r1));
      }
      if ((j0 + sl(c, r1, j0, three(c, i1, r0, i0))) > (j1 & j1)) return fin(c, j1, i0, r0);
      break;
    case 7:
      switch (i2) {
      case 0:
        synchronized (lk(c, r0)) {
          if ((i2 * i3) >= i0) return fin(c, j1, i0, r0);
          if (d0 > d1) return fin(c, j1, i0, r0);
          i1 = v(b0[i2 & 3]);
        }
        i1 += (i2 ^ i1);
        i0 += s0.length();
        i2 += (i3 + i2);
        break;
      case 77:
        i3 = i3;
        break;
      case 3:
        i3 = (i1 & (i3 - (true ? i2 : i3)));
        i3 += (i1 & i2);
        s0 = cut(s0 + ((i3 >>> i1) + (i2 * i1)));
        break;
      case -5:
        i2 += (i0 - i1);
        a0[1 & 7] = three(c, (i3 ^ i2), r1, i1);
        break;
      }
      i2 += (i2 << i2);
      j0 = ((true ? (long) (int) j1 : j1) - j1);
      break;
    case 1:
      j0 ^= Frames1.m45(c, (a0[i1 & 7] + i0), (sh(c, (i2 - i3)).get(i3) >= 0 ? r2 : new Nd((sh(c, mk(c, i0, r3).get(i1)).get(i1) & s0.length()), r0)));
      break;
    case 4:
      h0 = sh(c, i0);
      a0[s0.length() & 7] = sh(c, v(r3)).get(i2);
      i3 += (i0 << i2);
      i0 += 1;
      break;
    case 0:
      {
        Nd t1_0 = mk(c, ((i2 / (i3 | 1)) * i3), new Nd(v((r1 instanceof Nd ? r0 : r3)), null));
        j0 = j0 * 31 + t1_0.lg(c, j1, new Nd2((i2 >> i2), null, (long) (i1 + i1)));
        d1 = d1 * 0.5 + dl(c, t1_0, d0, t1_0.lg(c, mk(c, v(r3), r3).lg(c, j1, r0), r1));
        t1_0.l = link(c, new Nd(((byte) (i0 + i1)), r3), r1);
        i1 ^= chain(t1_0);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m56(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 55, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = 384321070L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r3 = r1;
    f0 = f0 * 0.5f + (float) (v(r2) & 1023);
    i1 = (i2 - (int) (long) i2);
    d0 = ((d0 * d1) - d1);
    if (j1 <= j1) {
      a0[0 & 7] = sh(c, (int) j0).get((d1 >= d1 ? i2 : i3));
    }
    i3 = -2147483647;
    j0 = (-348583725096L - sl(c, new Nd2(((int) j0 >>> i1), r0, j1), j0, (i1 - i0)));
    i3 = ((int) j1 - (three(c, i1, r3, i1) & v(r1)));
    d0 = (double) (i1 - i3);
    r0 = b0[(int) j0 & 3];
    c.point();
    a0[7578 & 7] = 100;
    c.point();
    try {
      try {
        r3 = new Nd2(((i2 >>> i1) + i3), r0, (j1 >>> 1000));
      } catch (ArithmeticException e1) {
        i1 = i2 ^ code(e1);
        if (((i2 <= (i1 - i0) && (r0 != null ? i3 : i3) == i0) && i2 != (i1 + i1))) {
          f0 = f0 * 0.5f + (float) (2 & 1023);
          i2 = i3;
          L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
            i2 += i3;
            i2 = ((int[]) o0)[0];
          }
        }
        i1 += 1;
      } catch (Ex e2) {
        i0 = i2 ^ code(e2);
        i0 += (i1 ^ i2);
        i2 += v(r0);
        d0 = (double) v(r3);
        b0[(i0 * i2) & 3] = new Nd2(((int) j1 + (int) j0), r1, (r2 != null ? j1 : j1));
      } catch (NegativeArraySizeException e3) {
        i3 = i1 ^ code(e3);
        r0 = r1;
        i0 += a0[i1 & 7];
        a0[(i3 + i3) & 7] = s0.length();
        i1 += i0;
      } catch (RuntimeException e4) {
        i2 = i2 ^ code(e4);
        if ((d0 < d0 || r0 instanceof Nd)) throw new Ex2(i1, r1);
        {
          Nd t2_0 = mk(c, i0, left(r1));
          r0 = link(c, r1, new Nd(t2_0.v, r3));
          j0 = j0 * 31 + sl(c, t2_0, -867615944761L, v(r3));
          t2_0.v = d0 < d1 ? 1 : 0;
          d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, 555253489552L, r0));
          i0 += three(c, (i2 / i0), t2_0, t2_0.get((int) j1));
          i2 ^= chain(t2_0);
        }
      } finally {
        i0 = i3;
        j0 = ((true || i0 > three(c, i2, r2, i3)) ? ((j0 / (j1 | 1L)) - j0) : j0);
      }
      b0[(i0 ^ i0) & 3] = link(c, new Nd(i3, r3), link(c, r0, r3));
      i2 = three(c, (int) (long) d1, (r0 instanceof Nd ? new Nd(((i2 + i0) - -1), r2) : (i1 <= 7 ? r1 : r0)), i2);
    } catch (RuntimeException e5) {
      i3 = i0 ^ code(e5);
      i1 += mk(c, i0, r1).get(i2);
      o0 = s0;
      i1 += 1000;
      d1 = d1;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m57(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 47, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = -291826106L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
        if (r1 != null) continue;
        j0 = (((j0 + j0) % ((j1 + j1) | 1L)) + sl(c, r2, (j0 << i3), s0.length()));
      }
    }
    o0 = s0;
    i0 = (((i2 >> i3) - mk(c, i1, r2).get(i2)) >> (i1 + i1));
    {
      Nd t3_0 = new Nd((int) j1, r0);
      t3_0.v += v((r2 instanceof Nd ? r2 : (r3 == r0 ? r3 : r2))) + ((i2 ^ i2) + i1);
      r3 = link(c, r2, new Nd(t3_0.v, r3));
      i0 ^= chain(t3_0);
    }
    j0 ^= Frames2.m54(c, 1000, new Nd(mk(c, i0, r3).get(a0[i2 & 7]), r0));
    j0 ^= Frames2.m53(c, v(r0), new Nd((int) (j0 & j0), r1));
    r2 = r0;
    try {
      L4: for (int q4 = 0; q4 < 1 && --c.fuel > 0; ++q4) {
        o0 = Integer.valueOf(7);
      }
    } catch (ArithmeticException e1) {
      i3 = i0 ^ code(e1);
      L5: for (int q5 = 0; q5 < 3 && --c.fuel > 0; ++q5) {
        try {
          r3 = (Nd) o0;
          try {
            if ((r1 == null || (a0[i0 & 7] >= i1 || r3 == r0))) return fin(c, j1, i0, r2);
            o0 = new Object[] {r0, r1, o0};
            r2 = (d1 == d0 ? new Nd(mk(c, i0, r3).get(s0.length()), r2) : new Nd2(s0.length(), null, (j1 - j0)));
            j0 = (j1 + (r2 != r3 ? (j1 & j1) : (j0 + j1)));
          } catch (Ex e2) {
            i3 = i1 ^ code(e2);
            r3 = r0.l;
            if (d1 < d1) break L5;
            i1 += v(r0);
          } catch (RuntimeException e3) {
            i0 = i3 ^ code(e3);
            i3 += (i1 & i0);
            if (r2 == r1) continue L5;
          }
        } catch (RuntimeException e4) {
          i1 = i0 ^ code(e4);
          L6: for (int q6 = 0; q6 < 4 && --c.fuel > 0; ++q6) {
            j0 = 192870497195L;
          }
          a0[i2 & 7] = i0;
          i0 = i1;
        }
        i3 = (v(r0) * a0[(i2 ^ i3) & 7]);
        i1 = 65535;
        c.point();
      }
      d1 = d1;
      i2 = (i1 + ((i2 % (i3 | 1)) * sh(c, i2).get(i3)));
    } catch (ArrayIndexOutOfBoundsException e5) {
      i0 = i3 ^ code(e5);
      d0 = (double) -2147483647;
    } catch (ClassCastException e6) {
      i0 = i1 ^ code(e6);
      j0 = sl(c, new Nd(mk(c, s0.length(), r0).get((i1 & i2)), r2), ((j1 & j1) << (int) j0), (int) j0);
      {
        Nd t7_0 = new Nd2((i0 ^ i2), r1, (true ? (j0 * j1) : (j0 + j0)));
        t7_0.l = link(c, r1, left(r3));
        t7_0.v += v((-1 >= mk(c, i0, r2).get(i1) ? ((true ? j1 : j0) != mk(c, (i2 * i3), r2).lg(c, j0, null) ? r0 : r1) : left(r3))) + mk(c, i1, r3).get(i0);
        d1 = d1 * 0.5 + dl(c, t7_0, d1, t7_0.lg(c, j0, r2));
        t7_0.l = link(c, new Nd(((char) i0), r2), new Nd(((i0 >> i1) / ((i0 % (i1 | 1)) | 1)), r3));
        j1 = j1 * 31 + t7_0.lg(c, (j0 ^ sl(c, new Nd(i1, null), j1, i2)), new Nd(mk(c, (i2 - i3), r0).get(h0.get(i0)), null));
        i1 ^= chain(t7_0);
      }
    } catch (RuntimeException e7) {
      i2 = i3 ^ code(e7);
      r2 = null;
      i1 += (int) j1;
      r3 = r2;
    } finally {
      i3 = -2147483647;
      i2 += ((byte) i1);
      i3 += i0;
      {
        Nd t8_0 = new Nd(a0[s0.length() & 7], r1);
        Nd t8_1 = mk(c, v(b0[(i0 - i1) & 3]), null);
        d1 = d1 * 0.5 + dl(c, t8_0, d0, t8_0.lg(c, j1, r1));
        j1 = j1 * 31 + t8_0.lg(c, j1, null);
        i3 ^= chain(t8_0);
        i2 ^= chain(t8_1);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m58(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 14, i2 = c.fuel & 15, i3 = -8;
    long j0 = p * 1000003L, j1 = -143209213L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    d1 = (double) a0[i3 & 7];
    i3 = (((i1 + i0) << i3) + 1);
    r3 = r1;
    j1 = j0;
    c.point();
    L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
      r2 = left(r2);
      L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
        i2 = 1000;
      }
    }
    h0 = sh(c, (v(r3) >>> a0[i2 & 7]));
    j0 = mk(c, i0, r1).lg(c, j1, r2);
    r3 = new Nd(100, null);
    if ((r0 instanceof Nd2 || (i2 - i0) > three(c, i3, r0, i2))) {
      j1 = (sl(c, r3, j1, (i3 + i0)) + j1);
      if (r0 == null) {
        switch (i0) {
        case -5:
          i2 = i2;
          break;
        case 77:
          i0 += (i1 % (i0 | 1));
          break;
        case 0:
          i0 = (0 - (h0.get(i2) ^ 1000));
        }
        if (r3 != null) return fin(c, j1, i0, r2);
        i2 = 1;
      }
      c.point();
      i3 += (i0 >> i2);
    } else {
      o0 = new int[] {((i1 - i3) - s0.length()), 3};
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m59(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 70, i2 = c.fuel & 15, i3 = -4;
    long j0 = p * 1000003L, j1 = 852300888L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    a0[(i1 / (i1 | 1)) & 7] = v(b0[v(r0) & 3]);
    r0 = b0[i0 & 3];
    try {
      L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
        i2 = sh(c, (i3 + i1)).get(((i0 << i3) ^ i3));
        if (j1 <= (long) i0) continue;
      }
      i1 = a0[((int) j1 + (i2 + i1)) & 7];
      r0 = r2.l;
    } catch (ArithmeticException e1) {
      i1 = i0 ^ code(e1);
      switch (i0 & 7) {
      case 2:
        if (v(r3) > s0.length()) return fin(c, j1, i0, r0);
        j0 = (j0 + sl(c, new Nd2((i3 - i2), r0, (j1 - j1)), (true ? j0 : j0), (i1 + i3)));
        d1 = ((double) (i0 + i0) * d0);
        break;
      case 3:
        L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
          {
            Nd t3_0 = new Nd(3229, r1);
            t3_0.v += v(r1) + -1;
            i3 += three(c, v(r2), t3_0, t3_0.get(((byte) i1)));
            t3_0.v = r2 == r0 ? 1 : 0;
            i1 ^= chain(t3_0);
          }
          b0[(i3 + i0) & 3] = r1;
          r3 = new Nd(i2, r2);
          L4: for (int q4 = 0; q4 < 4 && --c.fuel > 0; ++q4) {
            i1 += i0;
            j0 = (long) i3;
            i1 += (i2 + i0);
            d0 = ((double) 2 * d1);
          }
        }
        d1 = ((double) -1 * (double) (i3 - i3));
        j0 = ((i0 % (i3 | 1)) <= (r1 == null ? i1 : i3) ? ((j0 + j1) / ((j0 & j1) | 1L)) : 952480255634L);
        i1 = (i1 ^ (i0 & ((short) i0)));
      case 1:
        if (r0 != null) {
          j0 ^= Frames1.m49(c, ((i2 * i1) + i2), left(r1));
        }
        L5: for (int q5 = 0; q5 < 3 && --c.fuel > 0; ++q5) {
          f0 = f0 * 0.5f + (float) ((i1 + i2) & 1023);
          synchronized (lk(c, r0)) {
            h0 = sh(c, ((i0 >>> i2) + 1));
            j0 ^= Frames2.m56(c, i2, new Nd(i1, r3));
            i0 = (((i1 * i0) + i1) + ((char) i3));
          }
        }
        j0 = j0;
        i2 = a0[(mk(c, i1, r1).get(i1) / (s0.length() | 1)) & 7];
      default:
        i2 += (i3 + i2);
        i2 += (i1 << i3);
        i3 = (s0.length() % (mk(c, (i1 >> i2), r2).get((true ? i3 : i0)) | 1));
        i3 = 1;
      }
    } catch (RuntimeException e2) {
      i2 = i3 ^ code(e2);
      i3 += i1;
      i2 += i2;
      i0 = 2147483647;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m60(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 55, i2 = c.fuel & 15, i3 = -7;
    long j0 = p * 1000003L, j1 = 153167690L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i2 = s0.length();
    i3 = (three(c, three(c, i3, r2, i1), left(r0), a0[i3 & 7]) - s0.length());
    try {
      s0 = cut(s0 + i2);
    } catch (NullPointerException e1) {
      i0 = i3 ^ code(e1);
      r2 = r1;
      if ((int) j0 < mk(c, i0, r1).get(i1)) return fin(c, j1, i0, r0);
    } catch (RuntimeException e2) {
      i2 = i0 ^ code(e2);
      L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
        o0 = s0;
        if (d1 == d1) break L1;
        if (i0 == -6755) {
          if ((i3 * i1) < three(c, i0, r2, i3)) continue L1;
          i1 = i3;
        } else {
          i3 = (s0.length() * ((i0 - i3) + (i3 / (i1 | 1))));
        }
        r3 = null;
      }
      if (r0 == r3) return fin(c, j1, i0, r2);
    }
    i0 += (i1 - i1);
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m61(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 84, i2 = c.fuel & 15, i3 = -2;
    long j0 = p * 1000003L, j1 = -544390858L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
      try {
        b0[s0.length() & 3] = new Nd2(((i0 >>> i2) + ((short) i0)), r1, j1);
        L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
          L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
            r2 = new Nd2(i2, r3, (j1 - j0));
            j0 = (long) d0;
          }
          i2 = ((i1 + mk(c, i2, r3).get(i3)) ^ three(c, (i2 * i2), b0[(i1 / i2) & 3], three(c, i0, r1, i0)));
          try {
            i0 = i1;
            i1 += (i1 + i1);
            {
              Nd t4_0 = new Nd((0 * -1), null);
              d1 = d1 * 0.5 + dl(c, t4_0, d1, t4_0.lg(c, (j1 / j0), r1));
              t4_0.l = link(c, r0, new Nd(a0[(i0 % i2) & 7], null));
              i3 ^= chain(t4_0);
            }
            r0 = new Nd((i1 & (i0 >> i2)), r1);
          } catch (NegativeArraySizeException e1) {
            i0 = i3 ^ code(e1);
            c.point();
            s0 = cut(s0 + "x");
            i1 += (i2 + i0);
          } catch (Ex e2) {
            i1 = i3 ^ code(e2);
            i1 += i3;
          } catch (ClassCastException e3) {
            i3 = i1 ^ code(e3);
            i3 += (i3 >> i0);
          } catch (RuntimeException e4) {
            i0 = i3 ^ code(e4);
            a0[three(c, i2, r3, i3) & 7] = i0;
          }
        }
      } catch (RuntimeException e5) {
        i0 = i2 ^ code(e5);
        i0 = (((i2 + i2) + v(r3)) >>> (i1 + i2));
      }
      try {
        if (d1 > d1) return fin(c, j1, i0, r0);
        L5: for (int q5 = 0; q5 < 3 && --c.fuel > 0; ++q5) {
          try {
            j0 ^= Frames2.m54(c, ((int) j0 + mk(c, i1, r0).get(i1)), new Nd2(1000, null, j1));
            o0 = Integer.valueOf(i0);
            r0 = r2.l;
            j0 ^= Frames2.m60(c, ((i1 + i2) + i1), null);
          } catch (Ex e6) {
            i0 = i0 ^ code(e6);
            f0 = f0 * 0.5f + (float) (i3 & 1023);
            i0 = (int) (mk(c, h0.get(i0), r1).lg(c, j1, new Nd((v(r3) ^ (i0 % i0)), r2)) - -966399389909L);
            i1 += (i0 ^ i2);
            {
              Nd t6_0 = new Nd((v(r3) ^ i3), r2);
              t6_0.v += v(r0) + 1000;
              t6_0.l = link(c, new Nd(v(new Nd((i2 + (int) j0), r2)), r3), new Nd((h0.get(i2) * i3), null));
              t6_0.v = i3 <= i1 ? 1 : 0;
              j1 = j1 * 31 + t6_0.lg(c, j0, new Nd2(3, r0, (long) 1));
              i0 += three(c, (i1 << i3), t6_0, t6_0.get(h0.get(i2)));
              i3 ^= chain(t6_0);
            }
          } catch (ArithmeticException e7) {
            i3 = i0 ^ code(e7);
            i2 += three(c, i3, r1, i3);
          } catch (RuntimeException e8) {
            i3 = i3 ^ code(e8);
            d0 = (d0 + d0);
            {
              Nd t7_0 = new Nd(v(r1), r1);
              d1 = d1 * 0.5 + dl(c, t7_0, d1, t7_0.lg(c, j0, r2));
              j0 = j0 * 31 + sl(c, t7_0, j1, (31 >>> (i0 * i3)));
              t7_0.l = link(c, r0, r2);
              r1 = link(c, r1, new Nd(t7_0.v, r1));
              i0 = (r3 == r1 ? t7_0 : t7_0).get((i0 ^ i1)) + v(t7_0);
              i0 ^= chain(t7_0);
            }
          }
          i3 = 1;
          i3 += 65535;
        }
      } catch (RuntimeException e9) {
        i2 = i0 ^ code(e9);
        j0 ^= Frames2.m53(c, i0, left(r1));
        i1 += i3;
        i3 += i1;
      }
      j0 ^= Frames2.m56(c, (5 << i0), new Nd(i0, r2));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m62(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 86, i2 = c.fuel & 15, i3 = 5;
    long j0 = p * 1000003L, j1 = 182384359L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    o0 = link(c, ((i1 <= (i0 << i0) || r1 != null) ? null : r1), r3);
    c.point();
    try {
      r1 = new Nd((s0.length() + i1), r3);
    } catch (RuntimeException e1) {
      i0 = i0 ^ code(e1);
      j0 = j1;
      o0 = r0;
    } finally {
      i1 = (i1 - 0);
      j1 = (long) i1;
      if (r2 == null) j0 ^= fin(c, j1, i0, r1);
      if ((s0.length() > 31 && r2 != null)) j0 ^= fin(c, j1, i0, r0);
    }
    i2 = (((i3 - i3) >>> (i3 >>> i2)) ^ i0);
    try {
      try {
        a0[h0.get(i2) & 7] = i3;
      } catch (NegativeArraySizeException e2) {
        i0 = i1 ^ code(e2);
        L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
          {
            Nd t2_0 = new Nd2(((short) i0), r0, j0);
            i1 = ((d0 == d1 && d1 >= d0) ? t2_0 : t2_0).get(v(r2)) + v(t2_0);
            d1 = d1 * 0.5 + dl(c, t2_0, d1, t2_0.lg(c, j1, r2));
            t2_0.v = r1 != null ? 1 : 0;
            i1 ^= chain(t2_0);
          }
          i3 = (int) 222370004567L;
        }
        r3 = r1;
      } catch (RuntimeException e3) {
        i3 = i3 ^ code(e3);
        b0[i2 & 3] = r0.l;
        i1 += i1;
      }
      i3 += (i3 ^ i2);
    } catch (ClassCastException e4) {
      i1 = i0 ^ code(e4);
      i2 = ((int) (r3 == r2 ? j0 : j1) % (a0[(i0 >> i0) & 7] | 1));
      i2 += mk(c, i0, r3).get(i0);
      i0 = 2;
      r2 = new Nd(2147483647, r2);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m63(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 34, i2 = c.fuel & 15, i3 = 7;
    long j0 = p * 1000003L, j1 = 747541919L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    synchronized (lk(c, r3)) {
      L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
        synchronized (lk(c, r3)) {
          j1 = (long) i1;
          a0[(int) j1 & 7] = a0[i3 & 7];
          L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
            if ((d1 <= d1 || d1 < d1)) continue;
          }
        }
      }
      j0 ^= Frames2.m62(c, ((char) 0), new Nd(i1, r2));
    }
    i0 = s0.length();
    try {
      j0 ^= Frames2.m53(c, v(r0), new Nd(three(c, i0, ((j0 / j1) < j1 ? r1 : r2), (i3 + i1)), r2));
    } catch (ArrayIndexOutOfBoundsException e1) {
      i0 = i0 ^ code(e1);
      {
        Nd t3_0 = new Nd(((i0 / (i0 | 1)) - 7249), null);
        r1 = link(c, r1, new Nd(t3_0.v, r1));
        d1 = d1 * 0.5 + dl(c, t3_0, d1, t3_0.lg(c, (j1 >>> i2), r3));
        j0 = j0 * 31 + sl(c, t3_0, j1, ((int) j1 + (int) j1));
        r0 = link(c, r2, new Nd(t3_0.v, r0));
        t3_0.v += v(null) + (-1 / ((i1 % (i1 | 1)) | 1));
        i0 ^= chain(t3_0);
      }
      j0 = (-339540532799L ^ (j1 - (j0 >>> -2147483647)));
      r0 = new Nd2(three(c, (i1 ^ i2), r1, s0.length()), r0, (long) i1);
    } catch (ClassCastException e2) {
      i2 = i0 ^ code(e2);
      try {
        try {
          {
            Nd t4_0 = new Nd(i2, null);
            t4_0.v = ((i0 != 100 || (int) j1 < (i1 + i3)) || (i1 << i0) == v(r1)) ? 1 : 0;
            t4_0.v = d0 == d0 ? 1 : 0;
            t4_0.v = (r3 != null && (i0 == (i0 >>> i2) || true)) ? 1 : 0;
            i0 = (-1099 <= i1 ? t4_0 : t4_0).get(100) + v(t4_0);
            j1 = j1 * 31 + t4_0.lg(c, (long) three(c, i0, r0, i1), new Nd((i2 << i3), null));
            i1 ^= chain(t4_0);
          }
          try {
            i0 += a0[i2 & 7];
          } catch (RuntimeException e3) {
            i3 = i1 ^ code(e3);
            i3 += i2;
            i0 += (v(r1) > (i1 + i2) ? i0 : i0);
            r3 = b0[(i1 + i0) & 3];
          }
          r1 = new Nd2(i0, r3, -189271758896L);
          switch ((int) (j0 - j1) & 7) {
          case 6:
            i0 += -2221;
            break;
          case 1:
            r2 = r1;
            break;
          case 3:
            a0[(i2 / i2) & 7] = (1 + v(r2));
            break;
          case 7:
            i1 += (int) j1;
          case 0:
            i1 += i1;
            i3 += i3;
            j0 ^= Frames2.m59(c, i1, r3);
            i0 += i1;
            break;
          }
        } catch (RuntimeException e4) {
          i3 = i3 ^ code(e4);
          i3 += i0;
          i2 += i0;
          i2 = mk(c, (i3 + (r1 != null ? i1 : i2)), r2).get((i3 - i0));
          i0 = ((i2 + (i0 * i1)) / i3);
        }
        i2 = i1;
        i1 += 7;
        i2 += v(r2);
      } catch (ArithmeticException e5) {
        i1 = i0 ^ code(e5);
        r2 = b0[i2 & 3];
        j1 = (sl(c, new Nd(i1, null), (j1 / (j1 | 1L)), (i1 * i1)) * j0);
      } catch (RuntimeException e6) {
        i1 = i1 ^ code(e6);
        o0 = s0;
        r1 = r2;
        j0 = (long) mk(c, i1, r2).get(i2);
        j0 ^= Frames2.m55(c, ((i0 - i0) + (i3 - i0)), r1);
      }
    } catch (RuntimeException e7) {
      i2 = i1 ^ code(e7);
      s0 = cut(s0 + (j1 * j0));
      a0[(i1 + i2) & 7] = (a0[i0 & 7] / (h0.get(i2) | 1));
      r3 = left(r0);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m64(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 30, i2 = c.fuel & 15, i3 = -5;
    long j0 = p * 1000003L, j1 = -382134911L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    {
      Nd t1_0 = new Nd2(((char) i1), r3, (long) d0);
      Nd t1_1 = new Nd((3 >>> (i2 + i0)), r1);
      d1 = d1 * 0.5 + dl(c, t1_1, d1, t1_0.lg(c, (j1 % (j0 | 1L)), r1));
      i2 = (r1 == null ? t1_0 : t1_0).get(h0.get(i1)) + v(t1_0);
      t1_1.v = d1 >= d0 ? 1 : 0;
      i2 ^= chain(t1_0);
      i0 ^= chain(t1_1);
    }
    {
      Nd t2_0 = new Nd2(100, r0, -891661764845L);
      Nd t2_1 = new Nd2((i0 << i3), r0, -601955244031L);
      t2_1.v = d0 < d1 ? 1 : 0;
      i0 = (d0 <= d0 ? t2_0 : t2_1).get((r2 == null ? i1 : i3)) + v(t2_0);
      r1 = link(c, r2, new Nd(t2_1.v, r3));
      t2_0.l = link(c, b0[100 & 3], left(r2));
      i0 ^= chain(t2_0);
      i3 ^= chain(t2_1);
    }
    i2 = i3;
    s0 = cut(s0 + -328254658529L);
    {
      Nd t3_0 = mk(c, i2, left(r1));
      Nd t3_1 = new Nd2(i1, r2, (-330369924500L ^ (long) three(c, i2, r3, i3)));
      i1 += three(c, (i2 - i2), t3_0, t3_0.get((i1 - i1)));
      t3_1.v += v(new Nd((((char) i3) * i1), r3)) + (i1 + i1);
      r0 = link(c, r0, new Nd(t3_0.v, r0));
      j0 = j0 * 31 + t3_1.lg(c, j1, null);
      t3_0.v += v(new Nd((i1 - (i2 + i2)), r0)) + (int) j0;
      i1 ^= chain(t3_0);
      i3 ^= chain(t3_1);
    }
    switch (v(r2) & 7) {
    case 5:
      c.point();
      {
        Nd t4_0 = new Nd2(i2, r3, mk(c, h0.get(i2), r3).lg(c, j1, null));
        Nd t4_1 = mk(c, h0.get((i3 ^ i1)), left(r0));
        r1 = link(c, r1, new Nd(t4_1.v, r3));
        t4_1.v += v(r2) + i2;
        r2 = link(c, r1, new Nd(t4_1.v, r1));
        j0 = j0 * 31 + t4_0.lg(c, (long) 0, r1);
        i2 ^= chain(t4_0);
        i3 ^= chain(t4_1);
      }
    case 1:
      {
        Nd t5_0 = new Nd(((i2 + i3) - (i1 % (i2 | 1))), r3);
        Nd t5_1 = new Nd2(2, r3, j1);
        t5_1.v = r1 == null ? 1 : 0;
        i2 = ((r0 == r1 && (j0 % (j1 | 1L)) == (j0 + sl(c, (r3 != null ? r1 : r3), j0, (i3 >>> i3)))) ? t5_1 : t5_0).get(((i2 / (i0 | 1)) <= 31 ? i0 : i1)) + v(t5_1);
        t5_0.v += v(new Nd(h0.get(i2), r2)) + i0;
        i2 += three(c, 2, t5_0, t5_1.get(((char) i0)));
        i3 += three(c, s0.length(), t5_0, t5_0.get(i2));
        i1 ^= chain(t5_0);
        i3 ^= chain(t5_1);
      }
      o0 = new int[] {(int) -670339460894L, 3};
      r2 = new Nd(i2, r0);
      break;
    }
    L6: for (int q6 = 0; q6 < 4 && --c.fuel > 0; ++q6) {
      r3 = new Nd(i0, r1);
      if ((i0 & i1) >= (i3 & i3)) continue L6;
      c.point();
    }
    j0 ^= Frames2.m59(c, (5 + (i1 + i0)), r2);
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m65(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 86, i2 = c.fuel & 15, i3 = -1;
    long j0 = p * 1000003L, j1 = -656830993L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    {
      Nd t1_0 = new Nd((((char) i2) & ((byte) i0)), r2);
      Nd t1_1 = new Nd(s0.length(), r2);
      i1 = (((j0 >>> v(r3)) > j0 || r3 instanceof Nd2) ? t1_1 : t1_0).get(v(r1)) + v(t1_1);
      i0 += three(c, (i0 >>> i3), t1_1, t1_0.get(i3));
      r1 = link(c, r3, new Nd(t1_0.v, r2));
      i1 ^= chain(t1_0);
      i0 ^= chain(t1_1);
    }
    d1 = ((d0 + d0) - d0);
    switch (i3 & 7) {
    case 6:
      {
        Nd t2_0 = new Nd(((byte) i0), r0);
        Nd t2_1 = mk(c, ((char) s0.length()), r0);
        t2_1.l = link(c, new Nd(5, r2), new Nd(((i1 + i1) - ((char) i3)), r0));
        t2_1.v = d0 == d1 ? 1 : 0;
        j1 = j1 * 31 + sl(c, t2_0, sl(c, left(r3), j0, v(r0)), ((i3 - i3) ^ (i3 & i1)));
        i3 = ((i0 + i3) > 2147483647 ? t2_1 : t2_0).get(s0.length()) + v(t2_1);
        t2_0.v += v(left(r3)) + i2;
        i3 ^= chain(t2_0);
        i3 ^= chain(t2_1);
      }
      b0[(i2 * i0) & 3] = left(r1);
      i2 = (int) j1;
    case 7:
      {
        Nd t3_0 = new Nd2(100, r0, mk(c, i1, r1).lg(c, (long) d0, r0));
        j1 = j1 * 31 + sl(c, t3_0, (j0 * j1), i1);
        i1 += three(c, i0, t3_0, t3_0.get(i1));
        i0 ^= chain(t3_0);
      }
      d1 = (double) (i1 * i2);
      break;
    }
    h0 = sh(c, (v(r0) >> ((char) i1)));
    j0 ^= Frames2.m57(c, (i0 & i2), r2);
    {
      Nd t4_0 = mk(c, -2147483647, r2);
      i1 = ((i2 % (i2 | 1)) < 65535 ? t4_0 : t4_0).get(i3) + v(t4_0);
      t4_0.v += v(new Nd(((i3 >>> i1) / (i0 | 1)), r3)) + (i1 + (i0 * i1));
      t4_0.v += v(null) + i2;
      i1 ^= chain(t4_0);
    }
    {
      Nd t5_0 = new Nd2(mk(c, i0, r0).get(i2), r1, ((j0 + sl(c, new Nd2(mk(c, i0, r2).get((d0 > d0 ? i1 : i0)), r2, (j1 - j1)), j0, i0)) + (j0 / (j1 | 1L))));
      d1 = d1 * 0.5 + dl(c, t5_0, d0, t5_0.lg(c, (j1 - j0), r0));
      t5_0.v += v(new Nd2((s0.length() % (i0 | 1)), r2, j0)) + i0;
      i2 ^= chain(t5_0);
    }
    a0[5 & 7] = (mk(c, i3, r3).get(i3) - (i2 & i1));
    i0 = ((int) j1 >>> (a0[i1 & 7] >>> (i3 + i1)));
    r1 = link(c, left(r3), r2);
    if (d1 < d0) {
      L6: for (int q6 = 0; q6 < 2 && --c.fuel > 0; ++q6) {
        j1 = -421796821417L;
        i0 = i3;
        L7: for (int q7 = 0; q7 < 4 && --c.fuel > 0; ++q7) {
          o0 = new int[] {((i2 ^ i2) * v(r2)), 3};
          i1 += i3;
          r0 = new Nd((i1 + (i0 + i3)), null);
        }
      }
      i1 += mk(c, i3, r3).get(i1);
      i2 = (((int) j0 < (i1 + i1) && true) ? ((i2 << i2) + 65535) : (1 >> s0.length()));
      i2 += v(r3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m66(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 98, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = 105989630L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r3 = link(c, r1, new Nd((i2 * i3), r0));
    synchronized (lk(c, r2)) {
      {
        Nd t1_0 = new Nd(i3, null);
        i1 = (o0 instanceof Nd2 ? t1_0 : t1_0).get((i3 << i3)) + v(t1_0);
        t1_0.v = o0 instanceof Nd2 ? 1 : 0;
        t1_0.v += v(link(c, r2, new Nd(((i1 % (i3 | 1)) - 100), r0))) + s0.length();
        i1 ^= chain(t1_0);
      }
      r1 = new Nd(h0.get(65535), r2);
      b0[(i1 / (i2 | 1)) & 3] = b0[s0.length() & 3];
      s0 = cut(s0 + s0.length());
    }
    r2 = new Nd((31 + i2), r2);
    i0 = a0[i1 & 7];
    switch (i1) {
    case 3:
      {
        Nd t2_0 = new Nd2((i3 * i0), r1, (216208067094L << h0.get(i1)));
        r0 = link(c, r3, new Nd(t2_0.v, r0));
        t2_0.v += v(new Nd(((i3 - i3) & i3), r0)) + (v(r0) + (i0 - i0));
        t2_0.v += v(left(r0)) + (int) (j1 - j1);
        t2_0.l = link(c, (i2 == v(r0) ? r0 : r1), null);
        j1 = j1 * 31 + t2_0.lg(c, j0, new Nd2(i3, r0, (j0 + j0)));
        i1 ^= chain(t2_0);
      }
      r3 = new Nd(((i1 >> i2) & i0), null);
    case 77:
      s0 = cut(s0 + i3);
      break;
    case -5:
      if (o0 instanceof Nd2) return fin(c, j1, i0, r0);
      a0[-8381 & 7] = ((i0 % (i1 | 1)) - (i2 >> i1));
      break;
    case 0:
      r1 = left(r0);
      break;
    default:
      h0 = sh(c, three(c, (int) j1, (r1 instanceof Nd2 ? r1 : r3), (o0 instanceof Nd ? i2 : i0)));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m67(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 62, i2 = c.fuel & 15, i3 = -1;
    long j0 = p * 1000003L, j1 = -495709137L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      j0 ^= Frames2.m63(c, s0.length(), new Nd(v(r2), r1));
      i0 = mk(c, v(r1), r2).get(i0);
      switch (0 & 7) {
      case 1:
        {
          Nd t1_0 = new Nd2((i1 << i3), r1, ((j0 << (i2 + i2)) - (j1 / j1)));
          Nd t1_1 = new Nd(((i1 + i2) - (r2 == r2 ? i1 : i3)), r1);
          r0 = link(c, r3, new Nd(t1_0.v, r0));
          t1_0.v = j1 > (j0 % (j1 | 1L)) ? 1 : 0;
          i3 = (r2 == null ? t1_0 : t1_1).get(a0[i0 & 7]) + v(t1_0);
          t1_1.v = d1 <= d1 ? 1 : 0;
          i2 = ((r0 instanceof Nd && r1 != r3) ? t1_0 : t1_0).get((true ? i1 : i0)) + v(t1_0);
          i3 ^= chain(t1_0);
          i1 ^= chain(t1_1);
        }
        f0 = f0 * 0.5f + (float) ((i2 / i2) & 1023);
        d1 = d0;
        r0 = left(r3);
        break;
      case 6:
        L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
          s0 = cut(s0 + j1);
          i3 = v(r2.l);
          try {
            c.point();
            a0[i2 & 7] = v(r2.l);
            r3 = r0.l;
          } catch (ClassCastException e1) {
            i3 = i0 ^ code(e1);
            i0 = (r0 == null ? ((i2 / i0) + (r2 == null ? i3 : i1)) : i2);
          } catch (ArrayIndexOutOfBoundsException e2) {
            i0 = i1 ^ code(e2);
            b0[i0 & 3] = r2;
            i1 = (i1 + ((i3 >> i2) + -1));
            i1 += (i2 % i2);
            i0 += v(r1);
          } catch (RuntimeException e3) {
            i0 = i0 ^ code(e3);
            r0 = left(r3);
            i0 += 2147483647;
            r0 = link(c, new Nd(((i2 >>> i0) - (i0 & i3)), r2), new Nd(((i1 ^ i0) + 8963), r1));
          } finally {
            o0 = new Object[] {r0, r1, o0};
            i0 += (i1 % (i1 | 1));
            i3 = 2147483647;
          }
        }
        r1 = r1.l;
        i3 = new int[i3 & 0x8000000f].length;
        i0 += a0[i1 & 7];
        break;
      default:
        i3 += i3;
        s0 = cut(s0 + (long) d0);
        s0 = cut(s0 + (int) j1);
      }
    } catch (NullPointerException e4) {
      i2 = i0 ^ code(e4);
      d0 = d1;
      r0 = link(c, r3, new Nd2((r2 == null ? 5 : i3), r0, j1));
      i1 += i2;
      i3 = i1;
    } catch (NegativeArraySizeException e5) {
      i3 = i2 ^ code(e5);
      h0 = sh(c, ((i0 >> i3) + (i2 % (i2 | 1))));
    } catch (Ex e6) {
      i3 = i0 ^ code(e6);
      f0 = f0 * 0.5f + (float) (a0[i2 & 7] & 1023);
      d0 = dl(c, new Nd2(((i0 >> i1) - i2), null, (long) a0[i0 & 7]), d0, j1);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m68(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 13, i2 = c.fuel & 15, i3 = -4;
    long j0 = p * 1000003L, j1 = -745389391L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      i1 = ((((short) i1) % ((i1 & i1) | 1)) << a0[(i2 >> i2) & 7]);
    }
    a0[i0 & 7] = v(r2);
    s0 = cut(s0 + "x");
    {
      Nd t2_0 = mk(c, (i2 & (i0 >> i3)), b0[i3 & 3]);
      j1 = j1 * 31 + t2_0.lg(c, (d1 <= d0 ? j1 : j1), left(r3));
      j0 = j0 * 31 + sl(c, t2_0, mk(c, three(c, i3, r2, i0), r1).lg(c, j1, new Nd(2147483647, r3)), ((i3 - i3) << i1));
      i3 = (o0 instanceof Nd2 ? t2_0 : t2_0).get(v(r2)) + v(t2_0);
      i2 ^= chain(t2_0);
    }
    {
      Nd t3_0 = mk(c, ((i0 - i3) + (i0 - i1)), r3);
      Nd t3_1 = new Nd(2, r3);
      j0 = j0 * 31 + t3_1.lg(c, (long) i0, r1);
      r0 = link(c, r0, new Nd(t3_1.v, r3));
      t3_1.v = (int) j0 != i0 ? 1 : 0;
      j0 = j0 * 31 + sl(c, t3_0, j0, -7223);
      j0 = j0 * 31 + sl(c, t3_1, (j0 - j0), ((i1 >>> i3) ^ (i2 + i1)));
      i3 ^= chain(t3_0);
      i0 ^= chain(t3_1);
    }
    L4: for (int q4 = 0; q4 < 3 && --c.fuel > 0; ++q4) {
      switch (i1 & 7) {
      case 3:
        r2 = null;
        break;
      case 4:
        a0[(i3 % (i2 | 1)) & 7] = s0.length();
        break;
      }
      i0 = (((char) i1) + 3);
      i3 = mk(c, (i3 >= 1 ? i1 : ((char) i0)), r2).get(i1);
    }
    i0 = (a0[i1 & 7] + (int) 225689246706L);
    r1 = left(r3);
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m69(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 17, i2 = c.fuel & 15, i3 = 9;
    long j0 = p * 1000003L, j1 = 250039331L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 = ((long) 1000 + j0);
    try {
      j1 = (j1 - ((long) i2 >>> i0));
      d1 = (double) h0.get(i0);
      j0 = j1;
    } catch (ClassCastException e1) {
      i1 = i3 ^ code(e1);
      r1 = new Nd(((int) j1 & 2147483647), r1);
    } catch (ArithmeticException e2) {
      i1 = i3 ^ code(e2);
      r0 = new Nd2((mk(c, i0, r3).get(i1) - (i3 + i2)), null, (j1 << (i2 >> i3)));
      r2 = new Nd2(i0, r1, (j1 - sl(c, new Nd2(((i3 >>> i2) >> 5), r1, (j1 % (j0 | 1L))), j1, i0)));
      synchronized (lk(c, r0)) {
        if (j0 == j0) return fin(c, j1, i0, r1);
      }
      L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
        r1 = new Nd((i3 >> i1), null);
        try {
          r1 = (d1 > d0 ? new Nd(s0.length(), r0) : new Nd2((r2 != null ? i1 : ((byte) i1)), r3, (j0 & j1)));
          try {
            a0[i0 & 7] = (s0.length() - 1);
            i0 += (i0 + i1);
            a0[3 & 7] = i0;
          } catch (Ex e3) {
            i3 = i2 ^ code(e3);
            c.point();
            i0 += (i1 >= i2 ? i1 : i3);
            if (((i1 ^ i1) > (i0 >>> i3) && d1 < d0)) break;
          } catch (NegativeArraySizeException e4) {
            i3 = i1 ^ code(e4);
            i3 = ((5 + (i2 - i1)) + ((char) 2));
          } catch (RuntimeException e5) {
            i0 = i2 ^ code(e5);
            i3 += (i1 % i3);
            {
              Nd t2_0 = new Nd2(i1, r0, (long) i0);
              d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, ((i3 - i0) <= i1 ? j0 : j1), r1));
              t2_0.l = link(c, left(r3), new Nd(v(r0), null));
              i3 += three(c, i1, t2_0, t2_0.get(v(r0)));
              d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, (j1 / j1), r2));
              i1 ^= chain(t2_0);
            }
          }
          switch ((i0 / (true ? i3 : i1)) & 7) {
          case 0:
            i0 = v(left(r1));
            i0 += (i1 + i1);
            break;
          case -5:
            d0 = d0;
            i1 = (1000 / 31);
            i3 = 7;
            j0 ^= Frames2.m59(c, v(r0), left(r0));
          }
          i3 += i1;
        } catch (ArithmeticException e6) {
          i1 = i0 ^ code(e6);
          i3 = (i0 & i3);
          b0[(i0 << i0) & 3] = left(r0);
          j0 ^= Frames2.m67(c, (int) 398308013569L, null);
        } catch (ClassCastException e7) {
          i3 = i1 ^ code(e7);
          j0 ^= Frames2.m65(c, 65535, (r0 == r0 ? new Nd2(i3, null, (j0 + j1)) : r0));
          i2 = i1;
          i3 = (((i0 & i0) % ((i1 * i2) | 1)) / (((i1 + i3) & (i1 << i0)) | 1));
        } catch (NegativeArraySizeException e8) {
          i3 = i0 ^ code(e8);
          i0 += (j0 <= (j0 ^ j0) ? i0 : i1);
          r2 = new Nd((mk(c, (i3 - i1), r0).lg(c, j0, left(r3)) == j0 ? three(c, i3, r2, i3) : sh(c, (i0 - i3)).get(i0)), r1);
          if ((i2 >> i1) >= ((byte) i0)) break;
          i2 = 2147483647;
        } catch (RuntimeException e9) {
          i2 = i3 ^ code(e9);
          i0 = (((char) (d1 == d0 ? i2 : i2)) + 100);
          i1 = i2;
          j0 ^= Frames2.m67(c, i1, new Nd(i3, r1));
        } finally {
          i2 += (int) j1;
          i0 += mk(c, i2, r1).get(i0);
          i1 += (i1 - i3);
        }
        {
          Nd t3_0 = mk(c, ((int) j0 + i2), r1);
          Nd t3_1 = new Nd2(2, r3, sl(c, new Nd((three(c, i0, r3, i1) & i1), r0), j0, v(r2)));
          r2 = link(c, r2, new Nd(t3_0.v, r2));
          j0 = j0 * 31 + sl(c, t3_0, j1, i0);
          j1 = j1 * 31 + t3_1.lg(c, j0, left(r2));
          r1 = link(c, r0, new Nd(t3_1.v, r1));
          i2 ^= chain(t3_0);
          i1 ^= chain(t3_1);
        }
        r3 = new Nd((i3 % (2147483647 | 1)), r0);
      }
    } finally {
      i3 = i2;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m70(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 60, i2 = c.fuel & 15, i3 = 6;
    long j0 = p * 1000003L, j1 = -797472694L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    h0 = sh(c, i0);
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      {
        Nd t2_0 = new Nd2((i0 / (i1 | 1)), r3, (long) h0.get(i2));
        Nd t2_1 = new Nd2((i0 * i0), r2, j1);
        t2_0.v += v(null) + i3;
        t2_1.l = link(c, left(r1), r1);
        j0 = j0 * 31 + t2_1.lg(c, (j1 << i1), b0[i1 & 3]);
        j1 = j1 * 31 + sl(c, t2_1, j1, i2);
        i1 += three(c, (i3 >> i1), t2_0, t2_0.get(a0[i1 & 7]));
        i3 ^= chain(t2_0);
        i2 ^= chain(t2_1);
      }
      {
        Nd t3_0 = new Nd2(3, r1, j1);
        Nd t3_1 = mk(c, i0, null);
        i2 += three(c, (i0 ^ i3), t3_1, t3_0.get((i1 / (i1 | 1))));
        j1 = j1 * 31 + t3_0.lg(c, j1, r0);
        r2 = link(c, r2, new Nd(t3_1.v, r3));
        r2 = link(c, r0, new Nd(t3_0.v, r1));
        i3 ^= chain(t3_0);
        i3 ^= chain(t3_1);
      }
    }
    synchronized (lk(c, r3)) {
      j0 = ((long) (i0 >> i1) * (long) (i2 + i3));
    }
    if ((i3 / (i0 | 1)) != i0) {
      a0[65535 & 7] = i1;
      if ((r1 != r0 && r2 == null)) {
        if ((v(r1) > (i1 - i2) || r0 instanceof Nd)) return fin(c, j1, i0, r0);
        a0[(i2 & i3) & 7] = i1;
      }
      i1 = i1;
    } else {
      r0 = r0;
      s0 = cut(s0 + (int) j1);
    }
    c.point();
    switch (i2) {
    case 1000:
      h0 = sh(c, i1);
      break;
    case 77:
      try {
        L4: for (int q4 = 0; q4 < 4 && --c.fuel > 0; ++q4) {
          L5: for (int q5 = 0; q5 < 1 && --c.fuel > 0; ++q5) {
            j0 ^= Frames2.m61(c, v(r3), r0);
            i1 += i1;
          }
          r3 = new Nd(i2, r0);
          i0 = (i1 - i0);
        }
        o0 = new Object[] {r0, r1, o0};
      } catch (NullPointerException e1) {
        i1 = i0 ^ code(e1);
        i1 += (int) j0;
        i2 += (int) j1;
        j1 = sl(c, link(c, r0, r3), j0, (i0 >>> i0));
        i0 += (i1 >> i2);
      }
      i2 = i0;
      break;
    case 0:
      i3 += ((char) i3);
      d0 = ((d1 - d1) + (d1 * d1));
      j0 = j1;
      r0 = new Nd(i3, r0);
    case 100000:
      r0 = r1;
      i0 += 5392;
      {
        Nd t6_0 = new Nd((i0 + (i3 << i0)), r1);
        i2 = (r3 instanceof Nd2 ? t6_0 : t6_0).get(v(r2)) + v(t6_0);
        r2 = link(c, r0, new Nd(t6_0.v, r0));
        j1 = j1 * 31 + sl(c, t6_0, (j0 + j0), (((byte) i2) % (mk(c, i3, r2).get(i3) | 1)));
        i2 ^= chain(t6_0);
      }
      d0 = d0;
      break;
    default:
      i0 = (5 ^ ((i2 ^ i2) - mk(c, i0, r0).get(i1)));
      i3 = ((2 - (i2 / (i2 | 1))) ^ 5);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m71(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 50, i2 = c.fuel & 15, i3 = 1;
    long j0 = p * 1000003L, j1 = -934602293L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    o0 = s0;
    c.point();
    o0 = r1;
    {
      Nd t1_0 = new Nd(mk(c, i1, r2).get(3), r0);
      Nd t1_1 = new Nd2((i1 - i3), r0, ((j1 & j1) << i1));
      j0 = j0 * 31 + sl(c, t1_0, j1, three(c, i2, link(c, r2, r3), v(r2)));
      t1_0.l = link(c, (r3 == null ? r0 : r2), new Nd(i0, r3));
      t1_0.l = link(c, r0, new Nd2(((i1 + i1) ^ v(r0)), null, j1));
      i0 ^= chain(t1_0);
      i2 ^= chain(t1_1);
    }
    r3 = null;
    o0 = new int[] {s0.length(), 3};
    {
      Nd t2_0 = mk(c, (int) (long) i1, r1);
      Nd t2_1 = new Nd2(h0.get(i2), r0, j0);
      j0 = j0 * 31 + sl(c, t2_1, j1, i3);
      j0 = j0 * 31 + t2_1.lg(c, (long) d1, new Nd(i3, r2));
      i1 = (r3 instanceof Nd ? t2_1 : t2_0).get((i1 - i2)) + v(t2_1);
      t2_1.v = (v(r2) <= ((char) i0) ? i3 : i0) < (i3 - i3) ? 1 : 0;
      i3 ^= chain(t2_0);
      i2 ^= chain(t2_1);
    }
    switch (i1) {
    case 77:
      a0[6208 & 7] = (0 - (int) j0);
      break;
    case 100000:
      try {
        h0 = sh(c, v(new Nd((v(r2) - i2), null)));
        L3: for (int q3 = 0; q3 < 4 && --c.fuel > 0; ++q3) {
          s0 = cut(s0 + ((r3 == null ? i1 : i1) << a0[i1 & 7]));
        }
      } catch (Ex e1) {
        i1 = i3 ^ code(e1);
        L4: for (int q4 = 0; q4 < 4 && --c.fuel > 0; ++q4) {
          r3 = r2;
          r2 = new Nd(i2, null);
        }
      } catch (ClassCastException e2) {
        i1 = i1 ^ code(e2);
        d1 = ((double) (int) j0 + (d0 - d0));
        try {
          {
            Nd t5_0 = mk(c, 65535, new Nd((v(r2) ^ (i3 >> i3)), r3));
            i1 = ((j1 * j0) > j0 ? t5_0 : t5_0).get((i0 / i1)) + v(t5_0);
            j1 = j1 * 31 + t5_0.lg(c, 134854524488L, r2);
            i1 = (i1 > (int) j0 ? t5_0 : t5_0).get((i0 / i0)) + v(t5_0);
            j0 = j0 * 31 + sl(c, t5_0, -678387218822L, i0);
            i3 ^= chain(t5_0);
          }
          switch (i0 & 7) {
          case -100:
            i3 += (i3 << i0);
            i3 = v(new Nd((i0 % a0[i1 & 7]), null));
            j1 = ((j0 - -553203252832L) & (true ? j1 : (true ? j1 : j0)));
            i1 = -2147483647;
          case 0:
            {
              Nd t6_0 = new Nd2(i3, r3, ((j1 & j1) - j1));
              i0 += three(c, i3, t6_0, t6_0.get(i2));
              r3 = link(c, r1, new Nd(t6_0.v, r0));
              t6_0.v += v(new Nd2((-1758 << (i2 << i1)), null, j0)) + (i3 & i2);
              d1 = d1 * 0.5 + dl(c, t6_0, d0, t6_0.lg(c, (long) 100, r1));
              t6_0.v = r3 == r2 ? 1 : 0;
              i2 ^= chain(t6_0);
            }
            break;
          }
        } catch (NullPointerException e3) {
          i2 = i0 ^ code(e3);
          try {
            i2 = (((i2 - i2) + (i2 ^ i1)) / (100 + v(r1)));
            if ((j1 >>> 5) < mk(c, i2, r2).lg(c, j0, new Nd((i3 - mk(c, i0, r2).get(i3)), r3))) throw new Ex2(i0, r2);
            r2 = new Nd((int) j1, r3);
            i3 = ((1 >>> v(r0)) - ((i1 & i3) >= -1 ? (int) j0 : i1));
          } catch (ArithmeticException e4) {
            i0 = i2 ^ code(e4);
            h0 = sh(c, ((byte) i1));
            i1 += s0.length();
            a0[(i3 & i0) & 7] = mk(c, (int) j1, r2).get(v(r2));
          } catch (ArrayIndexOutOfBoundsException e5) {
            i2 = i1 ^ code(e5);
            i2 += (int) j1;
          } catch (RuntimeException e6) {
            i1 = i3 ^ code(e6);
            i3 += a0[i0 & 7];
            i1 += (i3 << i2);
            b0[i3 & 3] = r2;
          }
          r3 = left(r2);
          i0 = ((byte) ((i0 & i0) >> i1));
        } catch (ArithmeticException e7) {
          i1 = i3 ^ code(e7);
          j0 ^= Frames2.m70(c, -1, ((i1 >>> i3) != (i2 >>> i3) ? left(r1) : left(r3)));
          j0 = j1;
          b0[(int) j0 & 3] = r2;
          i0 += -1;
        } catch (RuntimeException e8) {
          i2 = i0 ^ code(e8);
          b0[i2 & 3] = r1;
        }
        d0 = d1;
        i2 += i2;
      } catch (RuntimeException e9) {
        i0 = i2 ^ code(e9);
        b0[((short) i1) & 3] = (r1 == null ? (r3 == null ? new Nd(i1, r3) : r2) : left(r3));
        i3 = 3;
        c.point();
        i0 = sh(c, (i3 << i1)).get((i2 == i1 ? i0 : (i1 / (i3 | 1))));
      }
      a0[i3 & 7] = (h0.get(i2) + (i2 + i1));
      i2 += i0;
      b0[i2 & 3] = new Nd(i3, r0);
    case -5:
      i0 += i2;
      i1 += v(r1);
      i0 = v(new Nd2(i0, r3, (j0 << (i1 >> i2))));
      j1 = (j1 + (true ? (j0 >>> i0) : (j1 - j1)));
    case 0:
      i1 = (2 - v(r1));
      a0[v(r3) & 7] = a0[mk(c, i3, r3).get(i0) & 7];
      i3 += i3;
      j0 = mk(c, i3, r1).lg(c, j0, left(r3));
      break;
    case 1000:
      i3 = (i1 & ((i3 + i3) << i3));
      break;
    default:
      j0 ^= Frames2.m69(c, 65535, r1);
      i2 = three(c, ((short) (i0 - i1)), left(r0), v(r3));
      i3 = (i0 >>> i1);
      i3 += ((int) j1 >= (i0 - i1) ? i1 : i3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m72(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 32, i2 = c.fuel & 15, i3 = -9;
    long j0 = p * 1000003L, j1 = 780061831L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 = (-545193877220L - sl(c, new Nd(v(new Nd2(sh(c, -2147483647).get((i2 - i1)), r1, 666422254619L)), null), 702262886950L, v(r1)));
    f0 = f0 * 0.5f + (float) (i2 & 1023);
    r2 = link(c, left(r2), null);
    try {
      o0 = s0;
      i0 = (i1 & sh(c, (d0 == d0 ? i0 : i0)).get(i0));
      {
        Nd t1_0 = new Nd((i2 - ((byte) i2)), r1);
        j0 = j0 * 31 + sl(c, t1_0, mk(c, 1, r2).lg(c, j1, b0[(int) j1 & 3]), a0[(i0 & i2) & 7]);
        t1_0.v = three(c, i2, r0, i0) != (i3 >>> i1) ? 1 : 0;
        j1 = j1 * 31 + sl(c, t1_0, (long) three(c, i1, r2, i2), ((char) -2147483647));
        i2 = ((d0 > d0 || mk(c, i2, r0).get(i0) == (i0 ^ i3)) ? t1_0 : t1_0).get(i2) + v(t1_0);
        i0 ^= chain(t1_0);
      }
      j0 = (j0 / ((r2 instanceof Nd2 ? j0 : j0) + j0));
    } catch (RuntimeException e1) {
      i1 = i2 ^ code(e1);
      i2 = ((a0[i0 & 7] >> (i3 + i3)) / (h0.get(mk(c, i1, r1).get(i0)) | 1));
      i1 = ((0 + (i3 * i2)) + i2);
      i2 = (1 - (i2 + (i0 + i2)));
      if ((i3 % (i3 | 1)) > (i3 << i3)) return fin(c, j1, i0, r1);
    } finally {
      i1 = ((short) (((i3 + i0) != (i1 >>> i1) ? i2 : i1) / ((i1 + i3) | 1)));
      b0[sh(c, (i0 / (i3 | 1))).get(i1) & 3] = r0;
      if (r3 instanceof Nd2) {
        j0 ^= Frames2.m60(c, a0[(i1 - i0) & 7], null);
        c.point();
        j1 = (long) d1;
      } else {
        j0 ^= Frames2.m62(c, sh(c, 7).get(-2147483647), new Nd(2147483647, r2));
        L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
          c.point();
          r0 = new Nd(i3, r3);
          if ((i3 % (i3 | 1)) == (i0 + i2)) {
            j0 = 565366549900L;
            a0[three(c, i3, r0, i1) & 7] = i1;
            {
              Nd t3_0 = new Nd((v(r1) >> v(r1)), null);
              Nd t3_1 = new Nd(v(r3), null);
              j0 = j0 * 31 + t3_1.lg(c, j1, left(r2));
              r2 = link(c, r3, new Nd(t3_1.v, r1));
              j0 = j0 * 31 + sl(c, t3_0, 844211317710L, ((i1 - i1) * (i0 << i3)));
              t3_1.l = link(c, b0[i0 & 3], new Nd2(i2, r2, j0));
              r0 = link(c, r1, new Nd(t3_1.v, r2));
              i1 ^= chain(t3_0);
              i1 ^= chain(t3_1);
            }
            if (r0 == null) continue;
          } else {
            i0 += i0;
            if (r3 == r3) continue L2;
            r1 = b0[(i0 - i0) & 3];
            a0[((short) i0) & 7] = (s0.length() & i0);
          }
        }
        d0 = d1;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m73(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 80, i2 = c.fuel & 15, i3 = 9;
    long j0 = p * 1000003L, j1 = -582967950L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i0 = ((i2 + (i1 + i2)) + (int) j1);
    {
      Nd t1_0 = new Nd(i2, r3);
      Nd t1_1 = new Nd2((i1 ^ i0), r2, j1);
      t1_1.v = (s0.length() == i3 || (v(r2) > i3 || r2 instanceof Nd)) ? 1 : 0;
      t1_1.l = link(c, null, new Nd(i2, r0));
      t1_1.v = j0 <= j0 ? 1 : 0;
      j1 = j1 * 31 + sl(c, t1_0, j0, (i0 + (i1 * i3)));
      i0 ^= chain(t1_0);
      i2 ^= chain(t1_1);
    }
    {
      Nd t2_0 = new Nd2(i2, r0, 54669469347L);
      d1 = d1 * 0.5 + dl(c, t2_0, d1, t2_0.lg(c, mk(c, h0.get(i2), r0).lg(c, j0, new Nd(((char) i1), null)), r0));
      t2_0.l = link(c, new Nd(three(c, three(c, i2, r3, i3), b0[i0 & 3], (i1 / (i2 | 1))), null), new Nd((v(r3) + (i2 >> i3)), r3));
      r0 = link(c, r3, new Nd(t2_0.v, r3));
      i0 ^= chain(t2_0);
    }
    switch ((i3 % ((i1 * i2) | 1)) & 7) {
    case -100:
      {
        Nd t3_0 = mk(c, (i1 % (i0 | 1)), r2);
        j0 = j0 * 31 + t3_0.lg(c, (j1 << (i2 - i0)), r2);
        j1 = j1 * 31 + t3_0.lg(c, (j0 + j0), link(c, r0, r3));
        t3_0.v = i1 != i2 ? 1 : 0;
        r3 = link(c, r3, new Nd(t3_0.v, r3));
        i1 ^= chain(t3_0);
      }
      try {
        synchronized (lk(c, r2)) {
          h0 = sh(c, (1000 - (i3 % i3)));
          j0 = (j1 - j1);
        }
      } catch (RuntimeException e1) {
        i3 = i0 ^ code(e1);
        o0 = s0;
      } finally {
        if (r0 == r3) j0 ^= fin(c, j1, i0, r1);
      }
      r1 = new Nd2(((i0 + i0) >> a0[i3 & 7]), r3, (long) i3);
    case 0:
      r1 = new Nd(i2, null);
      if (o0 instanceof Nd2) {
        {
          Nd t4_0 = mk(c, s0.length(), left(r2));
          j0 = j0 * 31 + sl(c, t4_0, (j1 % (j1 | 1L)), 0);
          r0 = link(c, r3, new Nd(t4_0.v, r2));
          i1 ^= chain(t4_0);
        }
      } else {
        if ((i0 << i3) < i3) return fin(c, j1, i0, r0);
      }
      break;
    default:
      try {
        L5: for (int q5 = 0; q5 < 4 && --c.fuel > 0; ++q5) {
          synchronized (lk(c, r2)) {
            if ((d1 < d0 && d1 < d0)) continue L5;
            i2 += (i0 % i2);
            i2 = (int) (j1 * (j1 + j0));
          }
          r3 = r1.l;
        }
        i3 = ((a0[i3 & 7] << mk(c, i3, r3).get(i2)) >>> (1 << (i1 + i1)));
      } catch (NegativeArraySizeException e2) {
        i3 = i2 ^ code(e2);
        if ((j1 - j1) < sl(c, r1, j1, (i3 ^ i0))) return fin(c, j1, i0, r2);
        i2 += s0.length();
        i0 += i0;
      } catch (Ex e3) {
        i0 = i1 ^ code(e3);
        i0 += i3;
        {
          Nd t6_0 = new Nd2((i1 << i3), r2, (j0 / ((long) i1 | 1L)));
          Nd t6_1 = new Nd(1, null);
          i1 += three(c, (int) j1, t6_0, t6_1.get((i0 % (i0 | 1))));
          j1 = j1 * 31 + t6_0.lg(c, (long) (i0 + i2), (v(r1) < (i0 ^ i2) ? r2 : r3));
          i1 += three(c, mk(c, i3, r0).get(i3), t6_1, t6_1.get(i3));
          j1 = j1 * 31 + sl(c, t6_1, j1, sh(c, (r0 != null ? i0 : i3)).get(1000));
          j0 = j0 * 31 + sl(c, t6_1, (j0 / (j1 | 1L)), a0[(d1 > d0 ? i3 : i2) & 7]);
          i0 ^= chain(t6_0);
          i2 ^= chain(t6_1);
        }
        i3 += i0;
      } catch (RuntimeException e4) {
        i2 = i2 ^ code(e4);
        i1 += i0;
        i3 = -1;
        i0 = three(c, i2, new Nd(((i1 * i3) % (1 | 1)), r3), i1);
        i2 += i2;
      }
      r1 = ((i1 ^ i2) > 0 ? r2 : r1);
      j0 ^= Frames2.m69(c, ((i2 - i3) << i3), left(r0));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m74(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 47, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = 207188415L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r1 = new Nd2(((i1 + i3) + v(r1)), null, j1);
    r2 = new Nd2((i1 / (31 | 1)), r1, (j0 * j0));
    L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
      i3 = (v(r2) + (int) (long) (i2 + i1));
      synchronized (lk(c, r0)) {
        r2 = null;
      }
      synchronized (lk(c, r1)) {
        i0 = (a0[i2 & 7] + three(c, (i2 - i1), b0[v(r3) & 3], (i3 + i1)));
        i0 = (int) j0;
        try {
          i0 = i1;
          L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
            i3 = new int[i0 & 0x8000000f].length;
            h0 = sh(c, i3);
            i2 += mk(c, i2, r1).get(i3);
          }
        } catch (NegativeArraySizeException e1) {
          i2 = i3 ^ code(e1);
          L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
            i1 += three(c, i1, r1, i2);
            i0 += (i3 % (i1 | 1));
            {
              Nd t4_0 = mk(c, (int) j1, b0[(i0 ^ i1) & 3]);
              t4_0.v += v(r0) + ((i0 << i1) * (i1 >> i3));
              t4_0.v = ((a0[i1 & 7] > 3 || r1 instanceof Nd) || i2 == ((short) i1)) ? 1 : 0;
              j1 = j1 * 31 + t4_0.lg(c, (j1 >>> i3), r1);
              r3 = link(c, r2, new Nd(t4_0.v, r2));
              i0 ^= chain(t4_0);
            }
          }
          if (r1 == r0) continue;
          d1 = d1;
        } catch (Ex e2) {
          i1 = i2 ^ code(e2);
          i3 = i1;
          L5: for (int q5 = 0; q5 < 1 && --c.fuel > 0; ++q5) {
            {
              Nd t6_0 = new Nd2(((i3 & i0) != i1 ? i2 : i1), r2, j1);
              j0 = j0 * 31 + sl(c, t6_0, 290925279153L, h0.get(3));
              t6_0.l = link(c, new Nd2((int) (j1 - j0), r1, (i2 <= (i2 + i2) ? j0 : j0)), new Nd(i2, r1));
              j0 = j0 * 31 + t6_0.lg(c, j1, new Nd(((i3 - i3) - i0), r1));
              i0 ^= chain(t6_0);
            }
            j0 = (r1 == r3 ? (long) d1 : j0);
            {
              Nd t7_0 = new Nd2((i1 - i3), r1, -224081854290L);
              Nd t7_1 = new Nd(sh(c, (i1 & i1)).get((i0 - i2)), r0);
              d1 = d1 * 0.5 + dl(c, t7_1, d0, t7_1.lg(c, j1, r2));
              t7_1.v = i2 > i3 ? 1 : 0;
              i0 ^= chain(t7_0);
              i3 ^= chain(t7_1);
            }
            r2 = new Nd(((i0 << i1) ^ (int) j0), r3);
          }
          try {
            i1 = ((i2 + ((short) i0)) - (int) j0);
            i1 += a0[i3 & 7];
          } catch (Ex e3) {
            i3 = i1 ^ code(e3);
            d1 = (double) i3;
          } catch (RuntimeException e4) {
            i0 = i2 ^ code(e4);
            i1 += 0;
            if (r2 instanceof Nd) continue L1;
          }
          i3 = (int) j0;
        }
        i1 += (i2 << i3);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }
}

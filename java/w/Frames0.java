package w;

/** Generated by tools/genframes.py. */
class Frames0 extends Frames {
  static long m0(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 81, i2 = c.fuel & 15, i3 = -3;
    long j0 = p * 1000003L, j1 = 623164841L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 ^= (long) mk(c, i1, r3).get((i2 + i2));
    try {
      try {
        s0 = cut(s0 + j0);
        f0 = f0 * 0.5f + (float) (i2 & 1023);
        o0 = new Nd(5, r3);
      } catch (RuntimeException e1) {
        i3 = i1 ^ code(e1);
        d0 = d0;
        try {
          f0 = f0 * 0.5f + (float) ((i2 / i0) & 1023);
          switch (three(c, (i3 + i3), new Nd2(((int) j1 << (r1 == null ? i1 : i3)), r1, j1), -2147483647) & 7) {
          case 1:
            if (i2 > v(r2)) return fin(c, j1, i0, r1);
            a0[i3 & 7] = i3;
            break;
          case 3:
            i0 += i0;
            d1 = (double) v(r3);
            break;
          default:
            i3 += (true ? i0 : i2);
            i0 = i3;
            d0 = (double) i1;
          }
          L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
            h0 = sh(c, ((i1 ^ i2) * s0.length()));
            i3 = 5;
          }
          i2 = (i3 ^ ((d0 <= d1 ? i3 : i0) * (i0 / i3)));
        } catch (RuntimeException e2) {
          i2 = i1 ^ code(e2);
          synchronized (lk(c, r3)) {
            o0 = new Nd2((i1 + (i2 + i3)), r2, (j0 - sl(c, new Nd(i0, r1), j0, mk(c, i1, r3).get(i3))));
            i0 = (sh(c, a0[i3 & 7]).get(h0.get(i0)) - i1);
            i0 += (i2 << i3);
          }
          j0 ^= (long) (j0 == j0 ? (i0 >>> i1) : ((byte) i0));
        } finally {
          r3 = b0[i3 & 3];
        }
        j0 = (-860966757054L >>> 31);
      } finally {
        i0 = i3;
        h0 = sh(c, v((s0.length() >= i1 ? r2 : r3)));
      }
      try {
        i3 += (i1 >>> i1);
        i3 += a0[i2 & 7];
        o0 = Integer.valueOf((i0 % a0[i1 & 7]));
      } catch (NegativeArraySizeException e3) {
        i1 = i1 ^ code(e3);
        {
          Nd t2_0 = new Nd(i3, null);
          j1 = j1 * 31 + t2_0.lg(c, j0, null);
          i1 += three(c, i0, t2_0, t2_0.get(i2));
          r3 = link(c, r1, new Nd(t2_0.v, r0));
          i3 ^= chain(t2_0);
        }
        i0 += (i0 ^ i1);
      } catch (ClassCastException e4) {
        i1 = i2 ^ code(e4);
        {
          Nd t3_0 = mk(c, ((r1 == null ? i3 : i2) << 31), link(c, r2, r3));
          i1 = (r3 instanceof Nd ? t3_0 : t3_0).get((i2 ^ i2)) + v(t3_0);
          i3 = ((100 == ((short) i2) && r1 instanceof Nd) ? t3_0 : t3_0).get((i2 / i1)) + v(t3_0);
          t3_0.v += v(r3) + (i1 % i1);
          i1 ^= chain(t3_0);
        }
        i2 = (i2 >>> i1);
        i3 += (i1 + i1);
      } catch (RuntimeException e5) {
        i1 = i2 ^ code(e5);
        i2 += ((char) i2);
        if (d0 <= d1) throw new Ex(mk(c, (i0 & i3), r1).get((int) j0));
        i3 += i1;
        if (r3 == r0) return fin(c, j1, i0, r0);
      }
      i0 = i3;
      i0 += h0.get(i0);
    } catch (ArithmeticException e6) {
      i3 = i1 ^ code(e6);
      j0 = (855784581442L - j1);
      i1 += i2;
      i2 = i3;
    } catch (ArrayIndexOutOfBoundsException e7) {
      i2 = i2 ^ code(e7);
      i3 += (i1 << i0);
      i3 = (i2 >>> ((i3 & i0) + i0));
    } catch (RuntimeException e8) {
      i1 = i3 ^ code(e8);
      i2 += (i3 - i1);
    } finally {
      d0 = d1;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m1(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 5, i2 = c.fuel & 15, i3 = 5;
    long j0 = p * 1000003L, j1 = 743591004L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i3 = ((i2 - (i2 + i3)) + ((int) j0 >>> (i2 >>> i1)));
    i3 = (65535 >>> s0.length());
    r0 = left(r1);
    a0[v(r2) & 7] = (int) ((i3 + i2) < (i3 - i0) ? j0 : j1);
    {
      Nd t1_0 = new Nd2((i1 << i3), r2, j0);
      Nd t1_1 = mk(c, i2, null);
      j1 = j1 * 31 + t1_1.lg(c, (j1 % (j0 | 1L)), r1);
      i1 += three(c, i3, t1_1, t1_1.get((i3 + i0)));
      t1_0.v += v(left(r2)) + ((i1 ^ i0) - i1);
      j1 = j1 * 31 + sl(c, t1_0, (j0 & j1), (true ? i1 : (i3 - i3)));
      i2 ^= chain(t1_0);
      i0 ^= chain(t1_1);
    }
    try {
      {
        Nd t2_0 = mk(c, i3, link(c, r0, r1));
        i3 += three(c, i1, t2_0, t2_0.get((i0 - i2)));
        j0 = j0 * 31 + sl(c, t2_0, j0, v(r1));
        i0 = (((i2 >> i0) == (i2 % i2) || r0 != null) ? t2_0 : t2_0).get((i0 ^ i0)) + v(t2_0);
        i2 += three(c, s0.length(), t2_0, t2_0.get(h0.get(i3)));
        i2 = (h0.get(i2) <= v(r3) ? t2_0 : t2_0).get(mk(c, i2, r0).get(i3)) + v(t2_0);
        i1 ^= chain(t2_0);
      }
      j0 = j0;
      try {
        i2 = ((int[]) o0)[0];
        i3 = (int) j1;
      } catch (ArithmeticException e1) {
        i0 = i3 ^ code(e1);
        j1 = (j1 ^ sl(c, r2, (long) d1, (i3 >>> i1)));
        r3 = left(r2);
        if (s0.length() < (i2 << i0)) throw new Ex2(i2, r0);
      } catch (RuntimeException e2) {
        i0 = i3 ^ code(e2);
        i2 = ((int[]) o0)[0];
        {
          Nd t3_0 = mk(c, i0, new Nd(100, r0));
          t3_0.v += v((r0 != r0 ? r2 : new Nd((mk(c, i2, r1).get(i3) - i3), r0))) + (3 * mk(c, i2, r0).get(i3));
          r2 = link(c, r0, new Nd(t3_0.v, r3));
          r2 = link(c, r3, new Nd(t3_0.v, r1));
          i2 ^= chain(t3_0);
        }
        i3 += (i3 - i1);
      }
    } catch (ClassCastException e3) {
      i1 = i2 ^ code(e3);
      j1 = (((j0 * j1) ^ (long) d0) << (int) j0);
      {
        Nd t4_0 = mk(c, i1, r0);
        Nd t4_1 = mk(c, i0, r2);
        i1 += three(c, (i1 >>> i0), t4_1, t4_1.get((d1 < d0 ? i1 : i3)));
        r2 = link(c, r2, new Nd(t4_1.v, r2));
        j1 = j1 * 31 + sl(c, t4_1, j0, i0);
        d1 = d1 * 0.5 + dl(c, t4_1, d0, t4_0.lg(c, (j1 * j0), r3));
        d1 = d1 * 0.5 + dl(c, t4_0, d1, t4_1.lg(c, j0, r1));
        i3 ^= chain(t4_0);
        i0 ^= chain(t4_1);
      }
    } catch (NullPointerException e4) {
      i2 = i0 ^ code(e4);
      i2 = i2;
      r0 = new Nd2(i3, r2, ((i3 - i3) >= sh(c, (i3 << i1)).get(i3) ? j0 : j0));
    } catch (Ex e5) {
      i2 = i3 ^ code(e5);
      {
        Nd t5_0 = mk(c, 31, null);
        Nd t5_1 = mk(c, (i1 / ((i3 + i0) | 1)), link(c, r3, r3));
        r2 = link(c, r0, new Nd(t5_0.v, r2));
        j0 = j0 * 31 + sl(c, t5_0, ((i1 >>> i2) <= ((byte) i0) ? j1 : j1), s0.length());
        d1 = d1 * 0.5 + dl(c, t5_1, d0, t5_0.lg(c, (j1 / (j1 | 1L)), r2));
        i3 = (r2 == null ? t5_1 : t5_0).get((i0 * i2)) + v(t5_1);
        t5_1.v += v((r3 == r0 ? null : r0)) + three(c, 2147483647, left(r1), (i1 & i3));
        i0 ^= chain(t5_0);
        i0 ^= chain(t5_1);
      }
      i0 += a0[i2 & 7];
      h0 = sh(c, ((int) j1 & (i3 % (i0 | 1))));
      j0 ^= Frames0.m0(c, h0.get(s0.length()), r2);
    } catch (RuntimeException e6) {
      i1 = i0 ^ code(e6);
      if ((i1 == (i2 % (i3 | 1)) || d0 <= d0)) return fin(c, j1, i0, r3);
      {
        Nd t6_0 = new Nd((7 << (i1 - i0)), null);
        Nd t6_1 = new Nd2(i1, r3, 527537951517L);
        i1 = (d0 < d1 ? t6_1 : t6_1).get(i3) + v(t6_1);
        j1 = j1 * 31 + t6_1.lg(c, sl(c, null, j0, (i1 ^ i2)), r1);
        j1 = j1 * 31 + sl(c, t6_0, j1, (mk(c, i2, r3).get(i3) + (i2 << i3)));
        j1 = j1 * 31 + t6_0.lg(c, (j1 - j0), new Nd(i0, r3));
        i3 ^= chain(t6_0);
        i1 ^= chain(t6_1);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m2(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 65, i2 = c.fuel & 15, i3 = -8;
    long j0 = p * 1000003L, j1 = 940191910L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r3 = left(r2);
    try {
      r0 = left(r2);
      switch (i1) {
      case -100:
        f0 = f0 * 0.5f + (float) ((int) j1 & 1023);
      case 1000:
        r3 = new Nd2(2147483647, r1, j0);
        try {
          {
            Nd t1_0 = mk(c, (true ? three(c, i1, r1, i3) : i2), left(r0));
            Nd t1_1 = new Nd((2 + (i3 >> i1)), r1);
            d1 = d1 * 0.5 + dl(c, t1_0, d1, t1_0.lg(c, (j0 + j0), r2));
            t1_1.l = link(c, b0[v(r3) & 3], new Nd(((short) i1), r1));
            d1 = d1 * 0.5 + dl(c, t1_1, d1, t1_1.lg(c, (j0 ^ sl(c, new Nd((5 % (i2 >> i2)), r0), j0, (i1 % i1))), r1));
            i1 += three(c, (i1 ^ i2), t1_1, t1_1.get(a0[i0 & 7]));
            j1 = j1 * 31 + t1_1.lg(c, 672240045306L, r3);
            i1 ^= chain(t1_0);
            i0 ^= chain(t1_1);
          }
          if (r3 instanceof Nd2) return fin(c, j1, i0, r2);
          L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
            a0[(i0 >> i2) & 7] = i3;
          }
        } catch (NegativeArraySizeException e1) {
          i0 = i3 ^ code(e1);
          i0 = ((int) j0 - i2);
          if (d1 >= d0) throw new Ex(i3);
        } catch (RuntimeException e2) {
          i3 = i1 ^ code(e2);
          switch (three(c, s0.length(), r3, 2147483647) & 7) {
          case 3:
            i0 += (i0 + i3);
            break;
          case 4:
            i0 = (((i1 + i2) / (i2 >> i1)) * 3);
            a0[mk(c, i2, r1).get(i3) & 7] = s0.length();
            break;
          case 0:
            b0[i0] = r0;
            d0 = d1;
            a0[i2 & 7] = i1;
          case 5:
            i2 += a0[i2 & 7];
            r1 = left(r3);
            break;
          default:
            j0 ^= Frames0.m0(c, ((i3 & i3) + i1), left(r2));
          }
          if ((i0 != (i2 - i1) || r2 instanceof Nd2)) throw new Ex(s0.length());
          if (r1 instanceof Nd) return fin(c, j1, i0, r3);
        }
        break;
      case -5:
        o0 = new int[] {(v(r0) + (i3 - i0)), 3};
        r3 = new Nd(((i3 % i3) + (i2 & i3)), r3);
        j0 = (((long) (i2 >>> i1) % ((long) i0 | 1L)) + j0);
        break;
      case 100000:
        j0 ^= Frames0.m1(c, i1, r3);
        break;
      case 3:
        i3 += v(r3);
        a0[(i0 & i2) & 7] = a0[(i0 >> i1) & 7];
        break;
      }
      if (r0 == r3) return fin(c, j1, i0, r2);
    } catch (ArithmeticException e3) {
      i2 = i3 ^ code(e3);
      i2 += (i3 / (i1 | 1));
      i1 = three(c, s0.length(), r1, 1);
      if (r0 == r2) return fin(c, j1, i0, r2);
    } catch (Ex e4) {
      i2 = i0 ^ code(e4);
      i0 += i0;
      j1 = j0;
      if ((r1 == r1 && d1 >= d0)) return fin(c, j1, i0, r2);
    } catch (ClassCastException e5) {
      i0 = i0 ^ code(e5);
      j1 = (-736546184958L / ((long) 65535 | 1L));
      i2 = (i3 * i1);
      {
        Nd t3_0 = new Nd(h0.get(i1), r0);
        i2 += three(c, i2, t3_0, t3_0.get((i0 - i0)));
        t3_0.v += v(left(r2)) + (int) (j1 - j1);
        t3_0.v = r2 == null ? 1 : 0;
        i2 = (j1 <= (long) -1 ? t3_0 : t3_0).get((i3 & i3)) + v(t3_0);
        i2 ^= chain(t3_0);
      }
      {
        Nd t4_0 = mk(c, three(c, (i0 ^ i1), null, three(c, i2, r0, i2)), new Nd(65535, r1));
        t4_0.v = (j1 - j1) != j0 ? 1 : 0;
        t4_0.v = i1 < -2147483647 ? 1 : 0;
        t4_0.v += v(new Nd((i3 + i3), r3)) + (int) (v(r3) == (i3 + i3) ? j0 : j0);
        i1 ^= chain(t4_0);
      }
    } finally {
      r2 = r2;
      i3 = three(c, (i2 << (i1 + i3)), link(c, left(r2), new Nd((v(r1) ^ i1), r1)), v(null));
      r1 = new Nd((5 >> (true ? i0 : i0)), r3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m3(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 52, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = -285739910L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i2 = (((int) j0 >> 31) - a0[three(c, i1, r0, i1) & 7]);
    c.point();
    j1 = ((j1 != j1 ? (j1 + sl(c, ((i1 > (i3 + i0) && 2 < (int) j1) ? r3 : r0), j1, v(r1))) : j0) >>> (int) j0);
    s0 = cut(s0 + (char) (65 + (i1 & 15)));
    j0 ^= Frames0.m0(c, (int) (long) (int) j0, left(r1));
    a0[31 & 7] = 0;
    j0 ^= Frames0.m0(c, (h0.get(i3) ^ -2147483647), ((i1 + i3) != (int) j0 ? r3 : new Nd((5 >> 2820), r2)));
    c.point();
    s0 = cut(s0 + "x");
    o0 = new Object[] {r0, r1, o0};
    h0 = sh(c, i1);
    i0 = h0.get(((i1 >>> i2) - three(c, i3, r0, i0)));
    try {
      r3 = new Nd(h0.get((i0 - i1)), r1);
    } catch (NullPointerException e1) {
      i3 = i2 ^ code(e1);
      {
        Nd t1_0 = new Nd2(v(r2), r1, (j0 + (j1 & j1)));
        Nd t1_1 = new Nd(((i3 >> i3) - three(c, i0, r1, i3)), r1);
        d1 = d1 * 0.5 + dl(c, t1_1, d0, t1_0.lg(c, sl(c, new Nd(v(r3), r2), j0, i1), r3));
        t1_0.v += v(r1) + a0[i0 & 7];
        r1 = link(c, r3, new Nd(t1_1.v, r0));
        r0 = link(c, r1, new Nd(t1_1.v, r2));
        i1 ^= chain(t1_0);
        i2 ^= chain(t1_1);
      }
    } catch (ArithmeticException e2) {
      i1 = i3 ^ code(e2);
      L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
        synchronized (lk(c, r2)) {
          c.point();
        }
      }
      try {
        f0 = f0 * 0.5f + (float) ((i2 << i1) & 1023);
        i2 = i3;
        i0 = ((short) ((i1 % i3) & 1000));
      } catch (ArithmeticException e3) {
        i0 = i0 ^ code(e3);
        c.point();
        i2 = mk(c, i3, r2).get(1);
        i1 = ((v(r1) - (i1 + i0)) << 2147483647);
        i2 += (int) j1;
      } catch (ClassCastException e4) {
        i1 = i3 ^ code(e4);
        d1 = ((double) 1 + d1);
        i1 += (i3 + i1);
        r2 = r1;
        d1 = (d1 + (double) (i3 / (i1 | 1)));
      } catch (RuntimeException e5) {
        i2 = i2 ^ code(e5);
        a0[s0.length() & 7] = 1;
        j0 ^= Frames0.m1(c, 1454, r0);
        i1 += i1;
      }
      i2 = i1;
    } catch (RuntimeException e6) {
      i2 = i3 ^ code(e6);
      r2 = new Nd((a0[i3 & 7] / (mk(c, i0, r0).get(i2) | 1)), r1);
      if (r1 != null) return fin(c, j1, i0, r0);
      r3 = (((short) i2) == sh(c, v(r3)).get(i3) ? new Nd2((a0[i0 & 7] + i0), r1, 692376601459L) : b0[(i2 - i3) & 3]);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m4(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 89, i2 = c.fuel & 15, i3 = -1;
    long j0 = p * 1000003L, j1 = 976490456L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    c.point();
    d0 = d1;
    try {
      s0 = cut(s0 + (char) (65 + (i2 & 15)));
    } catch (ArrayIndexOutOfBoundsException e1) {
      i1 = i3 ^ code(e1);
      i3 = (s0.length() + (int) j0);
      r2 = b0[mk(c, i0, r2).get(i2) & 3];
      try {
        b0[(i2 ^ i0) & 3] = link(c, null, new Nd(v((r1 != null ? r3 : r1)), r0));
        j1 = (long) (i2 << i0);
        try {
          if (d0 == d0) return fin(c, j1, i0, r3);
        } catch (RuntimeException e2) {
          i2 = i2 ^ code(e2);
          f0 = f0 * 0.5f + (float) (a0[i2 & 7] & 1023);
          {
            Nd t1_0 = mk(c, ((i0 + i1) >> (i0 ^ i2)), new Nd((int) sl(c, new Nd2(((i2 - i2) << (i1 - i0)), r2, -983570619808L), j0, a0[i3 & 7]), r0));
            d1 = d1 * 0.5 + dl(c, t1_0, d1, t1_0.lg(c, j1, r0));
            t1_0.l = link(c, r1, new Nd(((byte) (d1 <= d1 ? i0 : i0)), r3));
            i3 ^= chain(t1_0);
          }
          L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
            r2 = r3;
            i2 += v(r3);
          }
          L3: for (int q3 = 0; q3 < 3 && --c.fuel > 0; ++q3) {
            j0 ^= Frames0.m2(c, 1, r1.l);
            d0 = (d1 * (d0 * d0));
            i0 += (i3 / i3);
            if (d0 > d0) continue L3;
          }
        }
      } catch (RuntimeException e3) {
        i1 = i3 ^ code(e3);
        i3 += v(r1);
        j0 ^= Frames0.m1(c, (a0[i3 & 7] - i1), r3);
        {
          Nd t4_0 = new Nd2(mk(c, i1, r0).get(i2), r2, sl(c, null, (j0 & j1), 7));
          Nd t4_1 = new Nd2((i0 << i0), r1, j0);
          i3 = (r1 == null ? t4_1 : t4_1).get((i1 >>> i0)) + v(t4_1);
          t4_1.l = link(c, null, new Nd((i0 + v(r2)), r1));
          t4_0.v += v(r1) + v(link(c, r2, r3));
          i3 ^= chain(t4_0);
          i0 ^= chain(t4_1);
        }
      }
    } catch (RuntimeException e4) {
      i0 = i0 ^ code(e4);
      i2 += 100;
      o0 = s0;
      j1 = j0;
      i0 += i1;
    } finally {
      if (((j0 >>> (int) j1) == (long) d0 && r1 == null)) j0 ^= fin(c, j1, i0, r2);
      {
        Nd t5_0 = new Nd((a0[i0 & 7] << (i1 - i1)), r2);
        d1 = d1 * 0.5 + dl(c, t5_0, d1, t5_0.lg(c, (j1 - j1), r1));
        i0 = ((i0 >>> i0) < (i1 >>> i2) ? t5_0 : t5_0).get((true ? i2 : i0)) + v(t5_0);
        i3 = (i3 > (i3 >> i0) ? t5_0 : t5_0).get(i3) + v(t5_0);
        t5_0.l = link(c, r2, r1);
        i0 ^= chain(t5_0);
      }
      i2 = v(r0);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m5(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 57, i2 = c.fuel & 15, i3 = -9;
    long j0 = p * 1000003L, j1 = -918984280L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 ^= Frames0.m4(c, i3, link(c, r3, new Nd2(i3, null, (j0 + j1))));
    h0 = sh(c, (v(r1) + (int) j1));
    r3 = new Nd(-8777, r0);
    L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
      c.point();
      switch ((1000 & (int) j0) & 7) {
      case 0:
        r1 = new Nd2(i2, r3, 666241130774L);
        try {
          if (d1 >= d1) break;
          try {
            i2 = (i2 - ((int) j0 < (i3 - i1) ? (i0 - i1) : s0.length()));
            i2 += three(c, i0, r1, i3);
            i3 += i1;
            i2 += (i3 + i2);
          } catch (Ex e1) {
            i3 = i2 ^ code(e1);
            i0 = (i0 ^ 0);
            d1 = d0;
            i0 = (3 / ((i0 * i1) - i2));
          } catch (NullPointerException e2) {
            i0 = i3 ^ code(e2);
            i3 += i2;
            j0 = (((j1 - sl(c, new Nd(((i0 >>> i0) + (i3 % i3)), null), j0, (i2 + i3))) - (j1 - j0)) - ((j0 - j1) * sl(c, r1, j0, (i0 << i3))));
          } catch (RuntimeException e3) {
            i3 = i2 ^ code(e3);
            c.point();
            i3 += i3;
            j0 ^= Frames0.m0(c, (i2 + i3), left(r1));
          }
        } catch (RuntimeException e4) {
          i3 = i2 ^ code(e4);
          i1 = v(left(r3));
        }
        try {
          i3 = (v(r0) >> ((i0 + i2) % (i0 * i1)));
        } catch (Ex e5) {
          i2 = i2 ^ code(e5);
          i2 = v(r0);
          j0 = (j1 + (j0 / (j1 | 1L)));
          j1 = j0;
          r2 = r0;
        } catch (RuntimeException e6) {
          i0 = i0 ^ code(e6);
          {
            Nd t2_0 = new Nd(mk(c, 31, r0).get((i3 + i2)), r3);
            d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, -801149493693L, r0));
            r1 = link(c, r3, new Nd(t2_0.v, r1));
            d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, (j0 + j0), r0));
            i0 ^= chain(t2_0);
          }
        }
      case 4:
        i3 += i0;
        d1 = dl(c, null, d0, (long) d1);
        break;
      case 2:
        a0[(i0 - i1) & 7] = i0;
        j0 ^= Frames0.m3(c, i1, r0);
        b0[i1 & 3] = r1;
        break;
      case 6:
        c.point();
        break;
      case 3:
        b0[i2 & 3] = new Nd((mk(c, i0, r0).get(i3) & (i2 + i3)), r1);
        r1 = r2;
        a0[(int) j0 & 7] = 2645;
        i3 = i1;
      default:
        r0 = new Nd(three(c, i1, r3, (i3 % (i1 | 1))), r0);
        i1 = ((r3 == r1 ? (i0 >>> i0) : (i3 / (i3 | 1))) + (i1 + (i1 - i0)));
        i2 = ((v(r3) * (int) j1) >>> (s0.length() + (i2 - i1)));
      }
      r0 = null;
      o0 = new Nd(-1, null);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m6(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 61, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = 926507256L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r3 = new Nd((i3 + v(r0)), r3);
    c.point();
    if ((i0 << i0) <= s0.length()) {
      j1 = (j1 + (780365658256L >>> (i3 / (i1 | 1))));
    }
    try {
      r2 = (Nd2) r3;
      d0 = (double) v(r2);
    } catch (ClassCastException e1) {
      i3 = i0 ^ code(e1);
      L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
        r1 = left(r3);
        i1 = ((char) i1);
        if (r2 != null) {
          if ((i1 << i0) <= i3) break L1;
          c.point();
        } else {
          i1 = i0;
          i2 = i3;
          i3 = i0;
          switch (i1) {
          case -100:
            a0[(int) j1 & 7] = i3;
            i2 = three(c, i3, b0[9944 & 3], (i2 + s0.length()));
            a0[(i3 * i1) & 7] = three(c, i1, r1, i0);
            i1 = s0.length();
          case 100000:
            i2 = mk(c, 3, r2).get((i2 >> (i1 + i1)));
          case 1000:
            a0[a0[i0 & 7] & 7] = ((i2 - i3) + i2);
            i2 = (((i3 * i1) + ((char) i1)) / (i2 | 1));
            i1 = ((i1 >>> 3) ^ ((i2 + i1) + (i0 + i0)));
            break;
          case 3:
            i2 += -2147483647;
            f0 = f0 * 0.5f + (float) (mk(c, i0, r0).get(i3) & 1023);
            r1 = new Nd(v(r2), null);
          default:
            if (a0[i3 & 7] > i1) break L1;
            o0 = new Object[] {r0, r1, o0};
          }
        }
      }
      if (mk(c, i2, r0).get(i1) > (i1 << i1)) return fin(c, j1, i0, r3);
      i0 += (i2 + i2);
    } catch (Ex e2) {
      i3 = i1 ^ code(e2);
      i3 += (i3 + i1);
      i2 += i2;
      if ((((j0 / (j1 | 1L)) != (j0 + j0) && (i3 >>> i0) < s0.length()) || r2 instanceof Nd2)) return fin(c, j1, i0, r0);
      s0 = cut(s0 + j0);
    } catch (RuntimeException e3) {
      i1 = i0 ^ code(e3);
      i3 += i3;
      h0 = sh(c, 0);
      r3 = b0[a0[i1 & 7] & 3];
      j0 = 609975142904L;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m7(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 28, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = 898105071L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    a0[((i3 - i1) >= a0[i0 & 7] ? i0 : i0) & 7] = 3;
    a0[(i2 ^ i0) & 7] = i0;
    i3 = 3;
    {
      Nd t1_0 = mk(c, ((i2 & i1) != i1 ? (i1 % (i0 | 1)) : i1), (r1 != null ? r0 : r0));
      Nd t1_1 = new Nd2((i3 >>> i3), r0, j0);
      t1_0.l = link(c, r1, ((i0 >> i2) < (i0 - i3) ? r2 : r3));
      t1_1.v = 100 == 1000 ? 1 : 0;
      r1 = link(c, r1, new Nd(t1_1.v, r3));
      t1_0.v += v(r2) + ((i1 + i0) >>> a0[i1 & 7]);
      i2 ^= chain(t1_0);
      i0 ^= chain(t1_1);
    }
    try {
      h0 = sh(c, s0.length());
      {
        Nd t2_0 = mk(c, i2, left(r0));
        Nd t2_1 = new Nd2((i1 / i2), r0, mk(c, (int) j0, r2).lg(c, sl(c, r3.l, j0, i2), r0));
        t2_1.l = link(c, (r1 instanceof Nd2 ? r0 : r2), r3);
        t2_0.l = link(c, new Nd(-2298, r1), r3);
        i1 = ((r1 == null || r3 != r2) ? t2_1 : t2_0).get((i0 / i0)) + v(t2_1);
        i0 += three(c, i0, t2_1, t2_0.get(three(c, i1, r1, i0)));
        i3 ^= chain(t2_0);
        i1 ^= chain(t2_1);
      }
      r1 = r3;
    } catch (ArrayIndexOutOfBoundsException e1) {
      i0 = i1 ^ code(e1);
      i3 = (int) ((long) d1 + j0);
      r1 = left(r1);
    } catch (RuntimeException e2) {
      i3 = i0 ^ code(e2);
      L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
        i2 = (i1 & ((i2 + i1) + i0));
      }
      switch (h0.get((int) j1) & 7) {
      case 3:
        j1 = (j0 / (j0 | 1L));
        if ((i2 - i0) >= (i0 + i3)) return fin(c, j1, i0, r2);
        L4: for (int q4 = 0; q4 < 1 && --c.fuel > 0; ++q4) {
          i0 = a0[((i1 + i2) << (i1 * i2)) & 7];
          if (i2 > i0) {
            i1 = v(r1);
            i2 = i1;
            j0 ^= Frames0.m0(c, i2, r3);
            {
              Nd t5_0 = mk(c, ((byte) i0), new Nd(a0[i3 & 7], null));
              Nd t5_1 = mk(c, (i3 + (i0 >>> i1)), r1);
              t5_1.v += v(link(c, new Nd2(i2, r3, (d0 > d1 ? j0 : j1)), left(r2))) + i1;
              r0 = link(c, r3, new Nd(t5_1.v, r0));
              t5_1.v += v(r1) + ((char) i1);
              t5_0.l = link(c, new Nd((2147483647 * i0), r0), ((d1 > d0 && true) ? r3 : r1));
              i3 ^= chain(t5_0);
              i1 ^= chain(t5_1);
            }
          } else {
            b0[i1 & 3] = null;
          }
          if (d0 == d0) break L4;
        }
        break;
      case 7:
        i1 = i0;
        i3 += 2147483647;
        i3 += (i2 - i3);
        break;
      case 0:
        i0 += (i3 & i1);
        f0 = f0 * 0.5f + (float) ((i0 ^ i0) & 1023);
      case 1:
        a0[0 & 7] = (i3 - 1);
        break;
      case 5:
        r1 = r3;
        i2 += i3;
        break;
      default:
        i0 = i3;
        c.point();
        i3 = (((i2 - i1) > three(c, i1, r3, i2) ? s0.length() : three(c, i0, r2, i1)) ^ (i1 + mk(c, i1, r0).get(i3)));
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m8(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 19, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = 764640249L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      i3 = (((i2 + i0) * ((byte) i3)) - (65535 & (i0 >> i3)));
      L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
        f0 = f0 * 0.5f + (float) ((int) j1 & 1023);
        i2 = three(c, h0.get(a0[i2 & 7]), r3.l, ((i2 + i0) * a0[i3 & 7]));
        r1 = new Nd(h0.get(i1), r3);
      }
      i2 = i3;
      j0 = (j1 - ((j1 & j1) - -420241736632L));
    } catch (ArrayIndexOutOfBoundsException e1) {
      i1 = i1 ^ code(e1);
      c.point();
      i0 = (a0[i3 & 7] >> sh(c, -4786).get(three(c, i3, r1, i3)));
    } catch (NegativeArraySizeException e2) {
      i3 = i2 ^ code(e2);
      if (j0 == j0) return fin(c, j1, i0, r1);
      L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
        a0[s0.length() & 7] = i3;
        if ((j1 - j0) > j0) {
          L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
            r2 = b0[1000 & 3];
            i3 += (i2 % (i2 | 1));
            i3 += (i2 / (i2 | 1));
          }
          try {
            o0 = s0;
          } catch (ArithmeticException e3) {
            i0 = i1 ^ code(e3);
            i0 += h0.get(i2);
            i1 += ((i2 ^ i1) >= (i0 + i1) ? i3 : i3);
            i3 = i3;
            i1 += i2;
          } catch (RuntimeException e4) {
            i0 = i2 ^ code(e4);
            h0 = sh(c, sh(c, i2).get((i1 ^ i0)));
            b0[three(c, i3, r2, i2) & 3] = new Nd(v(r3), r3);
          }
          r3 = r2;
          try {
            r0 = new Nd(i1, r1);
          } catch (NegativeArraySizeException e5) {
            i3 = i1 ^ code(e5);
            o0 = new int[] {i2, 3};
          } catch (ClassCastException e6) {
            i0 = i0 ^ code(e6);
            r2 = r1;
            r3 = new Nd(v(r3), r1);
            i2 += i1;
            i3 += v(r0);
          } catch (NullPointerException e7) {
            i3 = i3 ^ code(e7);
            f0 = f0 * 0.5f + (float) (v(r0) & 1023);
            c.point();
            i0 += i3;
            i0 += (i0 >> i0);
          }
        }
      }
      r0 = b0[31 & 3];
      i1 += 31;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m9(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 22, i2 = c.fuel & 15, i3 = 1;
    long j0 = p * 1000003L, j1 = -601937036L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 ^= Frames0.m1(c, ((i3 & i2) - (i3 + i3)), (i2 == (i3 + i1) ? ((i3 * i2) >= i0 ? r2 : r3) : new Nd2(31, r1, 94729033282L)));
    f0 = f0 * 0.5f + (float) ((int) j0 & 1023);
    j0 = -327904412182L;
    a0[i3 & 7] = s0.length();
    try {
      if ((i1 + i3) >= h0.get(i3)) return fin(c, j1, i0, r1);
      f0 = f0 * 0.5f + (float) (i0 & 1023);
      d1 = d0;
    } catch (RuntimeException e1) {
      i0 = i1 ^ code(e1);
      d0 = d1;
      a0[(i1 << i3) & 7] = ((i3 & i0) + (i2 << i0));
      if (o0 instanceof Nd) return fin(c, j1, i0, r0);
      if (d1 <= d0) {
        j1 = ((j0 % ((j1 ^ sl(c, new Nd(v(r0), r2), j1, (d0 > d1 ? i3 : i0))) | 1L)) + j1);
        synchronized (lk(c, r2)) {
          i0 = i3;
          j0 ^= Frames0.m7(c, v(r3), (v(r2) > (i1 * i0) ? ((r2 == r1 && (i3 + i3) >= mk(c, i1, r0).get(i2)) ? r3 : r2) : new Nd((int) j0, null)));
          s0 = cut(s0 + (i0 > -1 ? (i0 + i3) : i0));
        }
        try {
          i0 = -1;
        } catch (ClassCastException e2) {
          i3 = i3 ^ code(e2);
          c.point();
          b0[(int) j0 & 3] = r0;
          o0 = s0;
          synchronized (lk(c, r1)) {
            r0 = new Nd(i2, r2);
          }
        } catch (NullPointerException e3) {
          i2 = i3 ^ code(e3);
          {
            Nd t1_0 = mk(c, ((r3 instanceof Nd ? i3 : i0) + v(r1)), new Nd((r3 != null ? v(r3) : h0.get(i2)), null));
            Nd t1_1 = mk(c, (a0[i1 & 7] >>> i0), left(r1));
            j1 = j1 * 31 + t1_1.lg(c, 212239693209L, link(c, r1, r2));
            t1_1.v += v(null) + ((i2 << i2) ^ a0[i2 & 7]);
            i3 ^= chain(t1_0);
            i1 ^= chain(t1_1);
          }
          b0[mk(c, i2, r3).get(i3) & 3] = (56787950276L == (j0 + j1) ? (r1 instanceof Nd ? r3 : new Nd(s0.length(), r0)) : null);
        } catch (RuntimeException e4) {
          i1 = i3 ^ code(e4);
          i1 = ((short) (v(r1) % (7 | 1)));
          h0 = sh(c, ((i1 >>> i0) << -2147483647));
          try {
            i2 = (i2 - i0);
          } catch (Ex e5) {
            i3 = i3 ^ code(e5);
            i2 = i1;
            i0 = i1;
            i3 += (i3 + i0);
          } catch (ArithmeticException e6) {
            i0 = i2 ^ code(e6);
            i1 += mk(c, i1, r3).get(i2);
            if (r1 == r1) return fin(c, j1, i0, r1);
          } catch (RuntimeException e7) {
            i1 = i1 ^ code(e7);
            i0 = (v(r0) - i0);
          }
        }
        i1 = i2;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m10(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 50, i2 = c.fuel & 15, i3 = -3;
    long j0 = p * 1000003L, j1 = -790195077L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    synchronized (lk(c, r1)) {
      switch (((i3 + i0) % ((i2 & i3) | 1)) & 7) {
      case 7:
        r0 = (i2 == ((byte) i3) ? r3 : r1);
        {
          Nd t1_0 = new Nd((v(r2) << (int) j0), r0);
          j0 = j0 * 31 + sl(c, t1_0, (j0 % (j1 | 1L)), (three(c, i3, r2, i2) >> i3));
          d1 = d1 * 0.5 + dl(c, t1_0, d1, t1_0.lg(c, j0, r2));
          t1_0.v = (i2 << i3) != i3 ? 1 : 0;
          i3 += three(c, i0, t1_0, t1_0.get((i2 / (i0 | 1))));
          i2 += three(c, mk(c, i3, r1).get(i0), t1_0, t1_0.get(7));
          i2 ^= chain(t1_0);
        }
        j1 = j0;
        i0 = -1;
      case 4:
        switch (((i0 + i3) / ((i1 - i0) | 1)) & 7) {
        case 3:
          L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
            i0 += (i2 - i3);
            i3 = ((mk(c, i0, r1).get(i3) / (-2147483647 | 1)) + v(left(r1)));
            i3 += i1;
          }
          r3 = left(r2);
          synchronized (lk(c, r0)) {
            {
              Nd t3_0 = new Nd2((i2 & i2), r0, j0);
              j0 = j0 * 31 + sl(c, t3_0, j1, (r2 != null ? i1 : i0));
              r1 = link(c, r2, new Nd(t3_0.v, r0));
              i1 = (j1 < j1 ? t3_0 : t3_0).get(v(r1)) + v(t3_0);
              t3_0.v += v(r1) + (i3 + (i1 / (i0 | 1)));
              t3_0.v += v(r1) + -2491;
              i1 ^= chain(t3_0);
            }
            i3 = i2;
          }
          switch (i2) {
          case 3:
            i1 = 5;
            j0 ^= Frames0.m9(c, 7, new Nd2((h0.get(i2) % (((j1 ^ j1) <= j0 ? i1 : i1) | 1)), null, (long) i0));
            break;
          case 77:
            j1 = (long) (i1 ^ i1);
            d1 = d1;
            break;
          case 0:
            i3 += 0;
            {
              Nd t4_0 = new Nd(v(new Nd2(i3, r3, j1)), r2);
              Nd t4_1 = new Nd2(three(c, i2, r0, i2), r1, j0);
              t4_0.l = link(c, b0[i1 & 3], new Nd(((int) j1 + (i2 * i0)), r0));
              j0 = j0 * 31 + t4_0.lg(c, -340045518518L, r1);
              j0 = j0 * 31 + sl(c, t4_0, (j1 & j0), ((i1 + i0) != 5 ? (true ? i3 : i0) : (i2 + i3)));
              t4_1.l = link(c, left(r3), r3);
              t4_1.v = d1 < d1 ? 1 : 0;
              i1 ^= chain(t4_0);
              i1 ^= chain(t4_1);
            }
          case 100000:
            a0[(i1 & i3) & 7] = 3;
            i3 += i3;
            i1 += i3;
          }
          break;
        case 6:
          a0[i1 & 7] = (3 + (i0 ^ i1));
          i1 += ((i0 + i1) <= (int) j0 ? i1 : i1);
          r1 = link(c, new Nd(65535, r0), (r1 != r3 ? new Nd2(i1, null, (j0 ^ sl(c, left(r1), j1, a0[i1 & 7]))) : link(c, r3, r2)));
          if ((i2 ^ i1) > (i3 + i2)) return fin(c, j1, i0, r1);
        case 4:
          r0 = r0;
          if (i1 > (i0 - i0)) return fin(c, j1, i0, r3);
          i0 += 31;
          break;
        case 7:
          f0 = f0 * 0.5f + (float) ((i3 < i1 ? i2 : i1) & 1023);
          break;
        }
        h0 = sh(c, 7);
        if (o0 instanceof Nd2) return fin(c, j1, i0, r2);
        i1 = ((char) (i1 % (i0 | 1)));
        break;
      default:
        j1 = j1;
      }
      r0 = left(r3);
      j0 = (r2 != r2 ? mk(c, v(r3), r0).lg(c, (j0 ^ sl(c, r1, j0, i2)), r0) : ((j1 % (j1 | 1L)) ^ (long) (int) j1));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m11(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 3, i2 = c.fuel & 15, i3 = 1;
    long j0 = p * 1000003L, j1 = -195067900L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    b0[i2 & 3] = left(r2);
    try {
      synchronized (lk(c, r3)) {
        L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
          r3 = left(r0);
        }
        r0 = r3.l;
        {
          Nd t2_0 = mk(c, i0, null);
          j0 = j0 * 31 + sl(c, t2_0, 630104584390L, i1);
          j1 = j1 * 31 + sl(c, t2_0, j1, ((char) i1));
          j0 = j0 * 31 + sl(c, t2_0, mk(c, (i0 >> i2), r1).lg(c, j0, r0), (int) j0);
          t2_0.v = j1 != j1 ? 1 : 0;
          i3 ^= chain(t2_0);
        }
        r0 = b0[i2 & 3];
      }
      r3 = r0;
      synchronized (lk(c, r3)) {
        if (r1 instanceof Nd) throw new RuntimeException(s0);
        L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
          j1 = (long) v(r3);
          if (r0 instanceof Nd2) {
            i0 += v(r0);
            i2 = i2;
            b0[3 & 3] = r1;
            i2 = i0;
          } else {
            r2 = b0[(i1 * i2) & 3];
            {
              Nd t4_0 = new Nd2((i1 + i1), r1, j1);
              i1 = (r0 == null ? t4_0 : t4_0).get((i3 - i3)) + v(t4_0);
              r3 = link(c, r2, new Nd(t4_0.v, r3));
              i1 ^= chain(t4_0);
            }
          }
        }
        try {
          r2 = new Nd((int) mk(c, i2, r1).lg(c, j1, null), r1);
        } catch (ArrayIndexOutOfBoundsException e1) {
          i1 = i1 ^ code(e1);
          j1 = 985747402377L;
          a0[(i2 - i2) & 7] = (v(r0) / (i0 + i3));
        } catch (Ex e2) {
          i3 = i3 ^ code(e2);
          j1 = (long) d0;
        } catch (RuntimeException e3) {
          i3 = i1 ^ code(e3);
          j0 ^= Frames0.m4(c, (100 / (i2 >>> i1)), (r3 instanceof Nd ? link(c, r2, r2) : r0));
          i2 += i3;
          if (d0 == d1) throw new RuntimeException(s0);
          a0[s0.length() & 7] = mk(c, (int) j0, r0).get((i2 - i0));
        } finally {
          s0 = cut(s0 + v(null));
          r2 = left(r3);
        }
        i2 = mk(c, i3, r1).get(i0);
      }
      i2 += i0;
    } catch (ArrayIndexOutOfBoundsException e4) {
      i2 = i1 ^ code(e4);
      j0 ^= Frames0.m10(c, (i3 - (i0 * i3)), null);
    } catch (RuntimeException e5) {
      i3 = i0 ^ code(e5);
      h0 = sh(c, 2147483647);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m12(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 93, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = 324304769L;
    double d0 = p, d1 = 6.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 ^= Frames0.m11(c, i2, null);
    L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
      i2 = a0[31 & 7];
      j1 = j0;
      try {
        if (r0 instanceof Nd2) throw new Ex2((v(r3) < i3 ? three(c, i3, r0, i0) : i2), r0);
        i1 = (int) j0;
        i2 = (int) ((j1 % (j0 | 1L)) ^ j0);
      } catch (NegativeArraySizeException e1) {
        i1 = i0 ^ code(e1);
        i0 = i3;
      } catch (RuntimeException e2) {
        i0 = i2 ^ code(e2);
        if (r3 instanceof Nd) {
          a0[(i3 + i1) & 7] = i1;
          switch (((i3 % (i1 | 1)) >> v(r0)) & 7) {
          case 5:
            r2 = r3;
          case 2:
            i0 += h0.get(i1);
            a0[i2 & 7] = a0[(i3 * i2) & 7];
            i3 += (i3 + i0);
          default:
            i2 = 1000;
            i0 += (i3 % (i1 | 1));
            r0 = left(r0);
            i1 = i3;
          }
          i1 += (i1 % (i1 | 1));
          i1 = h0.get(i0);
        }
        i1 += 65535;
        i0 += (d1 == d0 ? i2 : i1);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m13(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 66, i2 = c.fuel & 15, i3 = -4;
    long j0 = p * 1000003L, j1 = -328432177L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      try {
        r1 = (i3 == ((short) i3) ? b0[7 & 3] : r0);
      } catch (Ex e1) {
        i0 = i2 ^ code(e1);
        i1 = 2147483647;
        b0[a0[i1 & 7] & 3] = new Nd(((i2 * i3) & (i1 - i1)), r3);
        try {
          if ((i2 & i2) >= (i0 >>> i1)) {
            r0 = link(c, new Nd((1000 <= i2 ? i0 : (i3 * i1)), r3), r3);
            i2 += i3;
            i2 += (i0 + i3);
            i2 = (i3 ^ ((i0 % i1) - (i2 - i2)));
          } else {
            i1 += i2;
          }
          if ((i2 - i1) != i1) throw new Ex2(((i0 + i1) >> (i1 ^ i1)), r0);
          try {
            r1 = r2;
            r1 = r1;
          } catch (NullPointerException e2) {
            i3 = i2 ^ code(e2);
            d1 = ((double) (i0 / i3) + d0);
            i0 += i0;
            j0 ^= Frames0.m9(c, i2, r1.l);
          } catch (ClassCastException e3) {
            i3 = i0 ^ code(e3);
            r3 = new Nd(sh(c, (i1 >> i0)).get((i0 + i2)), r1);
            j1 = j1;
            h0 = sh(c, (int) j0);
            i0 = ((r3 != r3 ? a0[i3 & 7] : (i2 - i3)) & v(r3));
          } catch (ArrayIndexOutOfBoundsException e4) {
            i0 = i2 ^ code(e4);
            i0 += i1;
            i0 += i3;
            r3 = new Nd(i1, r3);
          } finally {
            i0 += i3;
            o0 = new Object[] {r0, r1, o0};
            r3 = ((j1 ^ sl(c, b0[(i3 << i1) & 3], j1, (o0 instanceof Nd2 ? i0 : i0))) > (j1 + j1) ? new Nd(i2, null) : (r1 != null ? link(c, r3, r3) : left(r2)));
          }
        } catch (NegativeArraySizeException e5) {
          i3 = i3 ^ code(e5);
          r3 = new Nd2(i1, r3, 575767927389L);
          r3 = ((j1 + j1) != (j1 >>> h0.get(i1)) ? r1 : new Nd(((i2 % i2) << (i3 >> i1)), r2));
          i1 = (((i2 ^ i0) << (i2 >= i0 ? i2 : i0)) * i2);
          r3 = r0;
        } catch (Ex e6) {
          i3 = i3 ^ code(e6);
          i3 += (r3 != r2 ? i1 : i1);
        } catch (RuntimeException e7) {
          i2 = i3 ^ code(e7);
          a0[(i1 + i1) & 7] = ((i3 + i2) - (i2 * i3));
        }
        i1 += (i2 - i2);
      } catch (ArrayIndexOutOfBoundsException e8) {
        i2 = i3 ^ code(e8);
        i2 += i0;
        i2 = 7;
        i3 += (r2 == r2 ? i0 : i0);
        i2 += three(c, i2, r1, i3);
      } catch (ArithmeticException e9) {
        i1 = i2 ^ code(e9);
        r2 = r0;
      } catch (RuntimeException e10) {
        i3 = i3 ^ code(e10);
        i0 += 2147483647;
      }
      i3 = i2;
      i3 += ((short) i3);
    } catch (RuntimeException e11) {
      i1 = i2 ^ code(e11);
      if (r0 != null) return fin(c, j1, i0, r0);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m14(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 12, i2 = c.fuel & 15, i3 = -2;
    long j0 = p * 1000003L, j1 = -485956887L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 = (j0 - j0);
    r2 = new Nd(((i2 - i2) / (i3 | 1)), r3);
    r0 = new Nd(0, r0);
    j0 = (long) i3;
    c.point();
    j0 = (j0 ^ 685628201159L);
    try {
      j0 ^= Frames0.m3(c, (i2 - (i3 >> i0)), new Nd((i2 >>> (i3 >> i2)), null));
      i0 = v(r3);
      try {
        j0 = (((j0 + j1) / (long) (i0 % i2)) * (long) (i1 - i3));
      } catch (Ex e1) {
        i2 = i3 ^ code(e1);
        i2 = (((char) (i3 & i0)) * s0.length());
        i3 = ((i3 * i1) ^ (i2 + (i3 >> i1)));
      } catch (RuntimeException e2) {
        i1 = i2 ^ code(e2);
        switch (i3) {
        case 3:
          i0 = (v(r3) >>> three(c, mk(c, i2, r3).get(i0), r3.l, (i2 + i3)));
          switch (i0) {
          case 3:
            i0 = a0[2147483647 & 7];
            i1 += (i3 + i3);
            break;
          case -5:
            d0 = ((d0 - d0) * (double) i2);
            f0 = f0 * 0.5f + (float) (i2 & 1023);
            {
              Nd t1_0 = new Nd2((i0 - i3), r3, (long) (a0[i2 & 7] == i3 ? i1 : i3));
              Nd t1_1 = new Nd2((i2 + i2), r3, -821463935068L);
              t1_1.l = link(c, new Nd2(((i1 * i2) - v(r2)), null, (long) i2), (d0 <= d1 ? r0 : r1));
              j0 = j0 * 31 + t1_0.lg(c, j0, r3.l);
              i0 ^= chain(t1_0);
              i2 ^= chain(t1_1);
            }
            break;
          case -100:
            b0[i2 & 3] = new Nd((int) j0, r2);
            r2 = new Nd2(v(r2), r1, j0);
            i1 += i2;
            break;
          case 77:
            b0[31 & 3] = new Nd(i3, null);
            r2 = new Nd((-2147483647 * (i3 - i3)), null);
            i2 = ((int[]) o0)[0];
            r3 = r1;
            break;
          case 100000:
            j1 = ((-792688528659L - (j1 - j0)) - j0);
            c.point();
            j0 = ((j1 - (j1 >>> (i0 * i0))) ^ sl(c, new Nd(i3, r3), (((j0 - sl(c, ((i0 <= s0.length() && r1 instanceof Nd) ? r3 : r3), j0, 2147483647)) != j0 ? j0 : j0) * j1), sh(c, a0[i3 & 7]).get(i3)));
            break;
          }
          c.point();
          c.point();
          break;
        case 77:
          i1 += mk(c, i3, r0).get(i0);
          i3 = (three(c, i3, new Nd(i3, r0), (i1 % i1)) + (sh(c, (i1 % i2)).get(i0) > 100 ? (i0 + i3) : (i0 / i1)));
          break;
        case 1000:
          i0 += (i1 ^ i3);
          if (r3 instanceof Nd) return fin(c, j1, i0, r0);
          if ((r3 instanceof Nd2 && r0 != r0)) return fin(c, j1, i0, r1);
          break;
        case -5:
          i1 = i2;
          r1 = b0[three(c, i1, r1, i2) & 3];
          i2 += i2;
          break;
        case -100:
          if (r3 == r0) throw new Ex((r3 != r2 ? i1 : (i1 / i3)));
          i1 += (i3 - i3);
          i3 = ((5 << i0) * (i3 - ((i0 * i2) >= i0 ? i0 : i2)));
        default:
          i3 += i3;
          i2 = (((i3 / i2) % (i2 + i0)) + (int) j0);
          i3 += i1;
          i0 += (int) j0;
        }
      }
      i3 += (i2 * i0);
    } catch (ClassCastException e3) {
      i2 = i1 ^ code(e3);
      if (i0 < (int) j0) return fin(c, j1, i0, r1);
    } catch (ArithmeticException e4) {
      i1 = i1 ^ code(e4);
      i3 += i1;
      i3 = i1;
      j1 = (((long) (i2 - i1) - j0) + sl(c, b0[i2 & 3], 186324110339L, i2));
      r1 = ((r3 != null && d1 <= d0) ? new Nd(((i1 + i1) << (int) j1), r0) : left(r0));
    } catch (NullPointerException e5) {
      i2 = i1 ^ code(e5);
      {
        Nd t2_0 = new Nd(i1, r0);
        t2_0.v = (j1 + j1) <= (j1 ^ j0) ? 1 : 0;
        d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, (long) (i0 / (i1 | 1)), r2));
        i1 ^= chain(t2_0);
      }
      i1 += (i0 << i3);
      r2 = r2;
      if (r0 instanceof Nd) return fin(c, j1, i0, r2);
    } catch (RuntimeException e6) {
      i0 = i2 ^ code(e6);
      i1 = ((i2 >> (i2 * i3)) >> -5306);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m15(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 61, i2 = c.fuel & 15, i3 = 6;
    long j0 = p * 1000003L, j1 = -834390142L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      synchronized (lk(c, r2)) {
        synchronized (lk(c, r1)) {
          try {
            i2 += ((byte) i1);
            i1 += (i1 / i2);
          } catch (ArrayIndexOutOfBoundsException e1) {
            i0 = i3 ^ code(e1);
            i2 += (i0 * i2);
          } catch (NullPointerException e2) {
            i2 = i3 ^ code(e2);
            if ((((j1 ^ j1) > (long) (int) j1 ? i0 : i2) < i0 ? i2 : i1) == v(r0)) return fin(c, j1, i0, r3);
            r0 = new Nd2(mk(c, (i2 & i0), r0).get(i3), r2, (j0 >>> i1));
            h0 = sh(c, (i2 + i3));
            a0[i1 & 7] = (i2 * s0.length());
          } catch (RuntimeException e3) {
            i1 = i0 ^ code(e3);
            j0 ^= Frames0.m8(c, i2, link(c, r3, new Nd((true ? i0 : (i3 + i2)), null)));
            {
              Nd t1_0 = mk(c, v(link(c, r0, r1)), new Nd2(mk(c, i2, r3).get(i0), r2, (j0 * j1)));
              Nd t1_1 = new Nd2(i2, r2, mk(c, h0.get(i2), r2).lg(c, j1, new Nd(100, r0)));
              d1 = d1 * 0.5 + dl(c, t1_1, d1, t1_0.lg(c, j1, r2));
              d1 = d1 * 0.5 + dl(c, t1_0, d0, t1_1.lg(c, j1, r2));
              r0 = link(c, r1, new Nd(t1_1.v, r1));
              i2 ^= chain(t1_0);
              i2 ^= chain(t1_1);
            }
            j1 = j1;
          }
        }
        d0 = d0;
        if ((i1 % i2) == i0) throw new Ex(i0);
        i2 = i1;
      }
      i3 += three(c, i3, r3, i0);
      i2 = ((int[]) o0)[0];
      j1 = -216283714757L;
    } catch (RuntimeException e4) {
      i0 = i2 ^ code(e4);
      r0 = null;
      r3 = r3;
      j0 ^= Frames0.m14(c, (((i0 + i1) < i1 ? i1 : i0) * mk(c, i3, r1).get(i0)), r2);
    } finally {
      i2 += i3;
      i0 += s0.length();
      r1 = new Nd2((7 % (a0[i2 & 7] | 1)), r1, j1);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m16(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 16, i2 = c.fuel & 15, i3 = -7;
    long j0 = p * 1000003L, j1 = -491716525L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
      L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
        try {
          r2 = r3;
          i1 = h0.get(4845);
          j0 ^= Frames0.m12(c, (i1 % 2), new Nd(i1, null));
          c.point();
        } catch (Ex e1) {
          i2 = i2 ^ code(e1);
          c.point();
        } catch (ArithmeticException e2) {
          i2 = i3 ^ code(e2);
          o0 = new int[] {(int) (j0 + j1), 3};
          i3 = (int) -694942301489L;
          r3 = new Nd2((three(c, i1, r0, i2) + 1000), r1, j0);
        } catch (NullPointerException e3) {
          i0 = i1 ^ code(e3);
          r1 = new Nd(i0, r2);
          j0 = mk(c, (d0 > d1 ? i0 : i3), r3).lg(c, j1, new Nd(sh(c, i3).get((i2 - i1)), null));
        } catch (RuntimeException e4) {
          i0 = i0 ^ code(e4);
          r1 = r0;
          i2 = i1;
        }
      }
      try {
        j1 = (j1 & j1);
        h0 = sh(c, ((i2 + i0) ^ i2));
        if ((i1 >> i0) >= 31) {
          L3: for (int q3 = 0; q3 < 3 && --c.fuel > 0; ++q3) {
            j1 = j0;
            i1 += i0;
            i2 += (i1 % i2);
          }
          if ((i1 - i0) >= 1) {
            c.point();
            s0 = cut(s0 + (j0 / j0));
            i1 += a0[i0 & 7];
          }
        } else {
          r1 = link(c, r2, r1);
          d1 = dl(c, (r2 != r3 ? r0 : r3), (double) ((char) i0), (long) (i2 - i2));
        }
        i3 += (i1 & i1);
      } catch (RuntimeException e5) {
        i3 = i2 ^ code(e5);
        i2 += (i2 + i1);
        i3 += ((short) i1);
        {
          Nd t4_0 = mk(c, (i0 - -1), new Nd(((byte) 7), r3));
          t4_0.l = link(c, null, b0[2147483647 & 3]);
          t4_0.v += v(new Nd((i2 >>> (i2 << i0)), r0)) + i2;
          i1 ^= chain(t4_0);
        }
        j1 = (-18898576162L ^ sl(c, r0, (long) (i1 / (i2 | 1)), v(r3)));
      }
      c.point();
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m17(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 43, i2 = c.fuel & 15, i3 = -5;
    long j0 = p * 1000003L, j1 = 47452253L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    switch (i3 & 7) {
    case 0:
      j0 = (((long) i1 + (j0 & j0)) << 100);
      break;
    case 2:
      b0[three(c, i1, r2, i3) & 3] = new Nd2(three(c, a0[i0 & 7], b0[(i3 + i1) & 3], 2147483647), r0, (j0 + j0));
    }
    try {
      if ((i3 - i3) > (i3 >>> i2)) {
        i3 = a0[(i1 & (i2 - i2)) & 7];
        s0 = cut(s0 + (char) (65 + (i0 & 15)));
        if ((o0 instanceof Nd && d0 >= d0)) {
          try {
            r3 = left(r0);
            r1 = b0[s0.length() & 3];
            i0 += i3;
            i0 += (i2 + i1);
          } catch (Ex e1) {
            i2 = i1 ^ code(e1);
            a0[((byte) i2) & 7] = i1;
            r0 = r2;
          } catch (NegativeArraySizeException e2) {
            i3 = i1 ^ code(e2);
            i2 += (i2 * i0);
            r1.v = v(r1);
          } catch (RuntimeException e3) {
            i3 = i0 ^ code(e3);
            i0 = (int) j0;
            {
              Nd t1_0 = new Nd((true ? (i1 - i1) : (i3 ^ i0)), r0);
              Nd t1_1 = new Nd2(h0.get(i1), r2, ((i1 + i3) < h0.get(i2) ? j1 : j1));
              t1_0.l = link(c, left(r3), (r0 == null ? r0 : r3));
              j1 = j1 * 31 + t1_1.lg(c, 871240583181L, left(r2));
              j0 = j0 * 31 + t1_0.lg(c, j0, (Nd) o0);
              i3 ^= chain(t1_0);
              i3 ^= chain(t1_1);
            }
          } finally {
            i1 += (i0 & i1);
            if (d0 >= d0) j0 ^= fin(c, j1, i0, r0);
          }
          r1 = b0[(i0 + i3) & 3];
        }
        j0 ^= Frames0.m15(c, 9907, r2);
      } else {
        if ((i1 >>> i3) <= i2) {
          j0 = j0;
          i3 = i1;
        }
        j0 ^= Frames0.m7(c, i1, left(r1));
        r0 = null;
      }
      i1 += (j0 > (j1 ^ j1) ? i0 : i2);
      s0 = cut(s0 + (char) (65 + (i0 & 15)));
      i2 += mk(c, i1, r3).get(i3);
    } catch (NullPointerException e4) {
      i3 = i0 ^ code(e4);
      j1 = 728677177734L;
    } catch (RuntimeException e5) {
      i2 = i3 ^ code(e5);
      i1 = i3;
      i0 += (int) j0;
    } finally {
      i1 = sh(c, 31).get((sh(c, (i0 - i0)).get(i2) ^ h0.get(i2)));
      o0 = new int[] {(3 >> i2), 3};
      d1 = ((double) s0.length() - d1);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m18(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 65, i2 = c.fuel & 15, i3 = -1;
    long j0 = p * 1000003L, j1 = 722416300L;
    double d0 = p, d1 = 5.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      if (r0 == r3) {
        try {
          i0 = ((short) s0.length());
          d0 = ((double) (i0 >>> i2) * (d1 + d1));
        } catch (RuntimeException e1) {
          i1 = i0 ^ code(e1);
          L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
            r2 = null;
            r0 = r3;
          }
        } finally {
          j0 ^= Frames0.m11(c, i0, new Nd(((i0 & i1) % ((i1 + i1) | 1)), r2));
          switch (three(c, 100, link(c, r1, r0), i1) & 7) {
          case 5:
            a0[(i0 >>> i0) & 7] = h0.get((d1 > d1 ? i2 : i0));
          case 2:
            h0 = sh(c, (three(c, i2, r2, i1) ^ (i1 & i0)));
            r1 = r1;
            break;
          case 3:
            s0 = cut(s0 + "x");
            a0[(i0 % (i0 | 1)) & 7] = 5;
            i3 = i3;
            j0 = j0;
            break;
          case 6:
            a0[i2 & 7] = s0.length();
            r1 = left(r3);
          case 7:
            i3 += (i1 / (i3 | 1));
            break;
          }
        }
        o0 = s0;
        j0 ^= Frames0.m16(c, i2, new Nd(((i0 ^ i2) % i1), null));
      }
    } catch (NullPointerException e2) {
      i1 = i1 ^ code(e2);
      i2 = i0;
      i2 = mk(c, (int) -143253316102L, r2).get((-1 ^ i2));
      r2 = left(r3);
      i0 += s0.length();
    } catch (RuntimeException e3) {
      i0 = i0 ^ code(e3);
      r2 = r0;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m19(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 21, i2 = c.fuel & 15, i3 = 1;
    long j0 = p * 1000003L, j1 = 784326479L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    b0[(i1 + i1) & 3] = b0[(int) j1 & 3];
    if (r0 != r1) {
      L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
        if ((i2 << i2) > i2) {
          {
            Nd t2_0 = new Nd((i3 + i1), r0);
            t2_0.l = link(c, new Nd2((h0.get(i3) ^ mk(c, i0, r0).get(i1)), r1, (j1 % (j0 | 1L))), b0[(i0 >>> i3) & 3]);
            d1 = d1 * 0.5 + dl(c, t2_0, d1, t2_0.lg(c, (j1 - j1), r1));
            r1 = link(c, r0, new Nd(t2_0.v, r0));
            j1 = j1 * 31 + sl(c, t2_0, j0, ((int) j1 ^ i1));
            j1 = j1 * 31 + sl(c, t2_0, mk(c, i0, r1).lg(c, j1, left(r1)), s0.length());
            i3 ^= chain(t2_0);
          }
        }
        try {
          r1 = new Nd(v(r1), r3);
          i2 = ((int[]) o0)[0];
          {
            Nd t3_0 = mk(c, 1000, r1);
            t3_0.l = link(c, b0[three(c, i3, r3, i3) & 3], r3);
            t3_0.v = r0 != r0 ? 1 : 0;
            j1 = j1 * 31 + t3_0.lg(c, -970874343795L, r1);
            i3 += three(c, 5, t3_0, t3_0.get((i3 - i2)));
            t3_0.v = (j0 > (j1 * j0) && (r1 == r0 && r1 == r1)) ? 1 : 0;
            i1 ^= chain(t3_0);
          }
        } catch (ArithmeticException e1) {
          i3 = i2 ^ code(e1);
          r1 = new Nd2(a0[i1 & 7], r3, j1);
          i2 = i0;
          a0[i1 & 7] = -2147483647;
          try {
            r1.v = ((char) (i3 - i1));
            i2 += (i2 - i0);
            i3 += 31;
            {
              Nd t4_0 = new Nd2(three(c, i3, r1, i0), r3, -588658980982L);
              Nd t4_1 = mk(c, ((int) j0 - (i3 + i3)), new Nd2(i0, r2, -828875344329L));
              t4_0.v = -550246660036L == (long) (int) j1 ? 1 : 0;
              j1 = j1 * 31 + sl(c, t4_1, mk(c, i2, r0).lg(c, j0, r1.l), (i1 >>> i2));
              r0 = link(c, r2, new Nd(t4_1.v, r1));
              i2 = ((i2 & i1) != 5 ? t4_1 : t4_1).get(i3) + v(t4_1);
              r1 = link(c, r0, new Nd(t4_0.v, r0));
              i0 ^= chain(t4_0);
              i3 ^= chain(t4_1);
            }
          } catch (RuntimeException e2) {
            i3 = i1 ^ code(e2);
            a0[h0.get(i2) & 7] = three(c, ((char) i2), r3, -1);
          } finally {
            i3 = three(c, v(new Nd(3052, r3)), r0, h0.get((i2 + i1)));
          }
        } catch (RuntimeException e3) {
          i1 = i1 ^ code(e3);
          j0 = ((sl(c, new Nd(((i3 << i2) ^ (d0 < d0 ? i3 : i3)), r0), j1, (i3 & i1)) + j0) - (j0 - (true ? j0 : j0)));
          o0 = s0;
          d0 = (double) i0;
          j0 = (long) (i0 - i2);
        } finally {
          i1 = (((i1 % (i2 | 1)) >> (i2 + i2)) + 2);
        }
        i2 = ((int) (j1 * j0) << i0);
      }
      if ((o0 instanceof Nd ? i3 : i3) != three(c, i2, r1, i1)) return fin(c, j1, i0, r2);
      if ((j0 + j1) > (j1 + j1)) return fin(c, j1, i0, r3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m20(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 32, i2 = c.fuel & 15, i3 = -3;
    long j0 = p * 1000003L, j1 = 709505662L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      try {
        i2 = i3;
        d0 = (dl(c, r0, d1, (j0 >>> ((v(r3) <= i3 ? i3 : i1) == (i1 & i2) ? i3 : i0))) - (double) (i0 ^ i0));
        r2 = r2;
        i0 = (((sh(c, (i0 - i2)).get(i2) >= (int) j0 ? i0 : i2) / (true ? i2 : i3)) + (r0 != null ? 0 : (i3 - i0)));
      } catch (Ex e1) {
        i0 = i2 ^ code(e1);
        try {
          c.point();
        } catch (NullPointerException e2) {
          i0 = i0 ^ code(e2);
          r1 = r1;
        } catch (RuntimeException e3) {
          i1 = i3 ^ code(e3);
          try {
            b0[(i0 ^ i3) & 3] = ((i3 >>> i1) > mk(c, i0, r3).get(i3) ? new Nd((((char) i1) / (i0 / i1)), r1) : new Nd(three(c, i3, new Nd(i2, r0), i0), null));
            s0 = cut(s0 + "x");
          } catch (RuntimeException e4) {
            i1 = i1 ^ code(e4);
            h0 = sh(c, ((i1 / i0) - (i0 + i2)));
            i3 = (d1 >= d0 ? 1 : (r0 != null ? sh(c, i0).get(i1) : i2));
            i3 = new int[i0 & 0x8000000f].length;
            i1 += (i0 << i2);
          } finally {
            i0 += i1;
            i3 = (((int) j1 & i1) * i0);
            r2 = new Nd((i1 + i1), null);
            a0[s0.length() & 7] = (int) (long) (i2 / (i1 | 1));
          }
          b0[(int) j1 & 3] = new Nd2(i0, r1, (j0 * j1));
          r0 = r2.l;
          b0[i2 & 3] = r0;
        }
        b0[0 & 3] = r2;
        r0 = link(c, r0, r1);
      } catch (NegativeArraySizeException e5) {
        i2 = i0 ^ code(e5);
        try {
          r2 = r3;
          L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
            i2 = (1 + three(c, i2, left(r1), (i3 + i3)));
            i3 += 2147483647;
            j0 ^= Frames0.m19(c, 6398, new Nd2(i0, r0, (long) i0));
            if (o0 instanceof Nd) return fin(c, j1, i0, r3);
          }
          i2 = -7231;
        } catch (Ex e6) {
          i1 = i1 ^ code(e6);
          i1 += (i3 + i0);
          r1 = r3;
          {
            Nd t2_0 = new Nd((2 - (i3 + i0)), r1);
            j0 = j0 * 31 + t2_0.lg(c, (j0 % (j1 | 1L)), b0[(i3 - i0) & 3]);
            t2_0.l = link(c, ((int) j0 == 65535 ? r1 : r3), new Nd2(2147483647, r0, -722854943780L));
            t2_0.l = link(c, (Nd) o0, b0[((char) i1) & 3]);
            r0 = link(c, r1, new Nd(t2_0.v, r2));
            i0 ^= chain(t2_0);
          }
        } catch (RuntimeException e7) {
          i0 = i2 ^ code(e7);
          i1 += v(r1);
        }
        i2 += i0;
        i3 = (i3 >> (i1 << i3));
        i0 += (true ? i2 : i1);
      } catch (RuntimeException e8) {
        i3 = i0 ^ code(e8);
        i3 = ((i0 / mk(c, i3, r1).get(i0)) + (9882 / 5));
        b0[s0.length() & 3] = new Nd(a0[three(c, i1, r1, i1) & 7], r3);
      } finally {
        r1 = left(r3);
        r3 = null;
        r2 = null;
        i2 = i3;
      }
      i3 = s0.length();
      i1 = (-2147483647 ^ (int) (j0 + j1));
    } catch (RuntimeException e9) {
      i3 = i3 ^ code(e9);
      i0 += i1;
      r1 = null;
      d1 = (double) ((byte) i2);
      a0[1000 & 7] = (i0 & -2147483647);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m21(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 52, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = 329502468L;
    double d0 = p, d1 = 0.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r1 = r1;
    j0 = (((j1 ^ j0) - sl(c, new Nd(-2147483647, r2), (j0 >>> (i1 ^ i3)), (i0 * i0))) + sl(c, left(r1), j1, (i0 - i1)));
    i0 = s0.length();
    c.point();
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      synchronized (lk(c, r3)) {
        switch (i0 & 7) {
        case 2:
          r1 = null;
          i3 = h0.get((int) (j0 & j1));
          break;
        case 1:
          try {
            a0[(i1 >>> i0) & 7] = (((short) i1) + (i1 % i2));
            i2 += i0;
            i1 += i3;
            i0 += i2;
          } catch (ClassCastException e1) {
            i1 = i0 ^ code(e1);
            i0 += i2;
          } catch (NegativeArraySizeException e2) {
            i2 = i2 ^ code(e2);
            i1 += i2;
          } catch (RuntimeException e3) {
            i1 = i2 ^ code(e3);
            s0 = cut(s0 + "x");
            r3 = r1;
            j0 ^= Frames0.m13(c, a0[(i0 & i1) & 7], r1);
            i1 += three(c, i3, r2, i1);
          } finally {
            i2 = three(c, ((i2 + i2) & (i2 << i2)), b0[mk(c, i0, r0).get(i3) & 3], v(left(r0)));
            i2 += i0;
            i2 += (i0 * i2);
            o0 = new Nd(i0, null);
          }
          break;
        case 6:
          j1 = j0;
          break;
        case 0:
          {
            Nd t2_0 = new Nd(((i3 - i1) >> (i0 * i1)), r0);
            t2_0.v += v(new Nd((31 >>> mk(c, i1, r0).get(i2)), null)) + i1;
            i2 += three(c, (i1 >> i1), t2_0, t2_0.get(a0[i0 & 7]));
            j0 = j0 * 31 + t2_0.lg(c, -81956480409L, r0);
            d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, (j1 - sl(c, new Nd(h0.get(mk(c, i1, r1).get(i2)), null), j1, i1)), r3));
            i0 ^= chain(t2_0);
          }
          a0[i1 & 7] = v(r2);
          break;
        case 7:
          j1 = -245209793047L;
          i3 = (sh(c, (i1 ^ i2)).get(i2) >>> (three(c, i1, r2, i1) % (i2 | 1)));
        default:
          f0 = f0 * 0.5f + (float) (i3 & 1023);
          i1 = (((char) (i3 + i2)) + i0);
        }
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m22(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 66, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = 172901673L;
    double d0 = p, d1 = 2.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    r1 = r1;
    L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
      if (r0 != r2) {
        if (r3 != r1) {
          try {
            s0 = cut(s0 + (char) (65 + (i2 & 15)));
            i2 += i2;
            i2 += a0[i0 & 7];
          } catch (RuntimeException e1) {
            i1 = i2 ^ code(e1);
            b0[(i0 & i0) & 3] = r2;
            i0 = i1;
            i2 += (int) j1;
          } finally {
            i2 += (i1 << i2);
            o0 = new int[] {(i2 << 1000), 3};
            h0 = sh(c, (int) j1);
          }
        } else {
          s0 = cut(s0 + v(new Nd(i1, r2)));
          if (r0 == r3) break L1;
        }
        b0[(i3 * i2) & 3] = link(c, new Nd((int) j1, r1), link(c, r2, b0[(i2 & i1) & 3]));
        if ((d0 >= d0 && (r2 != null || r0 == null))) return fin(c, j1, i0, r0);
      } else {
        i2 = i3;
        i2 = i3;
      }
      j1 = (j0 >>> ((byte) i3));
      h0 = sh(c, -2147483647);
    }
    {
      Nd t2_0 = new Nd2((i1 >> i2), r1, (j1 * j1));
      Nd t2_1 = new Nd(((byte) i3), r0);
      d1 = d1 * 0.5 + dl(c, t2_1, d0, t2_1.lg(c, j0, r1));
      i0 = (i3 == i3 ? t2_0 : t2_1).get((i3 + i0)) + v(t2_0);
      i2 ^= chain(t2_0);
      i1 ^= chain(t2_1);
    }
    j0 = (((j1 & j1) - (long) ((short) i2)) + mk(c, i3, r1).lg(c, (j0 ^ j1), link(c, r0, r3)));
    j0 ^= Frames0.m18(c, ((i1 - i2) + (i0 % (i3 | 1))), left(r1));
    try {
      if (r3 == null) {
        h0 = sh(c, (i0 << (i0 >>> i1)));
        r0 = b0[i3 & 3];
        switch ((a0[i0 & 7] >> v(r3)) & 7) {
        case 7:
          d1 = (double) (int) j1;
        case 2:
          i0 += (i1 - i1);
          i2 = i3;
          i1 = (i2 >> (i0 >>> 1000));
          r0 = (Nd) o0;
        default:
          i2 = i1;
          b0[(i2 >> i0) & 3] = r2.l;
          j0 ^= Frames0.m13(c, (three(c, i2, r1, i3) / (i0 >>> i2)), link(c, b0[(i1 >>> i0) & 3], r1.l));
        }
      } else {
        i3 += three(c, i2, r3, i2);
        r3 = new Nd(i0, r2);
        {
          Nd t3_0 = mk(c, i2, null);
          t3_0.l = link(c, new Nd(((i2 % i2) + (i2 >>> i1)), r3), null);
          i3 += three(c, i1, t3_0, t3_0.get(i3));
          i1 += three(c, (i2 - i1), t3_0, t3_0.get((int) j1));
          i1 ^= chain(t3_0);
        }
      }
      j0 = j0;
      i3 = (i0 + i2);
    } catch (ArrayIndexOutOfBoundsException e2) {
      i3 = i0 ^ code(e2);
      {
        Nd t4_0 = new Nd(s0.length(), r0);
        j1 = j1 * 31 + t4_0.lg(c, ((i2 - i1) <= i1 ? j0 : j0), new Nd(i1, r2));
        i2 += three(c, i0, t4_0, t4_0.get((i0 + i0)));
        i3 ^= chain(t4_0);
      }
    } catch (RuntimeException e3) {
      i1 = i2 ^ code(e3);
      a0[i2 & 7] = v(b0[(i1 << i2) & 3]);
      i3 = i0;
      r2 = r2;
      r1 = new Nd((mk(c, i2, r3).get(i2) - (i3 + i1)), null);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m23(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 82, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = -978214810L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r1 = left(r2);
    {
      Nd t1_0 = new Nd((int) (long) (i3 & i0), r3);
      i3 = (d0 < d1 ? t1_0 : t1_0).get(i0) + v(t1_0);
      t1_0.v = d0 >= d1 ? 1 : 0;
      i0 ^= chain(t1_0);
    }
    j0 = (860137521567L + ((long) mk(c, i1, r3).get(i0) - -243621620387L));
    h0 = sh(c, (int) j1);
    if (r1 != r2) {
      i2 = v(new Nd(((i1 & i3) & i2), null));
      r1 = left(r0);
      s0 = cut(s0 + (char) (65 + (i3 & 15)));
    }
    if (d1 <= d1) {
      if (5 == i1) return fin(c, j1, i0, r2);
      try {
        switch (i3) {
        case 77:
          b0[i2 & 3] = r0;
          r2 = new Nd(i1, r1);
          s0 = cut(s0 + (j1 + sl(c, (r3 != r0 ? r0 : r0), j0, three(c, i3, r3, i3))));
          f0 = f0 * 0.5f + (float) ((i1 + i1) & 1023);
          break;
        case -5:
          try {
            i1 = (three(c, (i2 & i3), new Nd(((i1 << i3) ^ three(c, i2, r2, i2)), r0), (int) j1) % 3);
            b0[i1 & 3] = r1.l;
            j1 = -252166415691L;
          } catch (RuntimeException e1) {
            i3 = i0 ^ code(e1);
            {
              Nd t2_0 = mk(c, mk(c, a0[i2 & 7], r3).get(mk(c, i0, r0).get(i2)), new Nd2((d1 == d0 ? i3 : v(r2)), r1, (j0 ^ j0)));
              i3 = (r2 == r1 ? t2_0 : t2_0).get(i0) + v(t2_0);
              i0 += three(c, (i1 + i1), t2_0, t2_0.get(i2));
              i1 = (i0 == (int) j0 ? t2_0 : t2_0).get((i1 ^ i3)) + v(t2_0);
              i1 = (d0 >= d1 ? t2_0 : t2_0).get((i0 + i1)) + v(t2_0);
              j0 = j0 * 31 + t2_0.lg(c, (j0 + j0), link(c, r1, r3));
              i0 ^= chain(t2_0);
            }
            i1 = i3;
          } finally {
            r0 = left(r0);
            if (d0 == d1) j0 ^= fin(c, j1, i0, r2);
            j0 = j0;
          }
          break;
        case 1000:
          a0[three(c, i2, r1, i2) & 7] = (three(c, i0, r1, i1) & (i0 - i0));
          r0 = left(r1);
          i3 += v(r3);
          i1 = (i0 ^ v(r3));
          break;
        case 100000:
          i2 += ((short) i3);
          i3 += -2147483647;
          i2 += ((char) i3);
          i1 += 7;
          break;
        }
        a0[(int) j0 & 7] = (s0.length() ^ 2147483647);
        i3 = i2;
        i3 = h0.get(i1);
      } catch (ArithmeticException e2) {
        i2 = i3 ^ code(e2);
        r3 = new Nd((int) j1, r3);
      } catch (Ex e3) {
        i0 = i3 ^ code(e3);
        if (mk(c, (i0 & i2), r1).lg(c, j1, new Nd2(100, r3, j1)) > j0) return fin(c, j1, i0, r0);
        j0 ^= Frames0.m11(c, i1, r3);
        i3 += (i3 + i3);
      } catch (RuntimeException e4) {
        i2 = i0 ^ code(e4);
        r1 = new Nd(i1, r1);
        j1 = ((j1 - (j1 - j0)) % ((long) i0 | 1L));
        i2 += i0;
        i0 = i2;
      }
      if ((d0 < d1 || (i2 % (i0 | 1)) == (r1 != null ? i1 : i2))) return fin(c, j1, i0, r1);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m24(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 57, i2 = c.fuel & 15, i3 = 5;
    long j0 = p * 1000003L, j1 = 285117413L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    switch (2 & 7) {
    case 4:
      {
        Nd t1_0 = mk(c, i2, left(r0));
        Nd t1_1 = new Nd((v(r2) * (i0 * i3)), r3);
        t1_0.v += v(r2) + (int) j0;
        i2 = (r1 instanceof Nd ? t1_1 : t1_0).get(i0) + v(t1_1);
        t1_0.v += v(new Nd(0, null)) + ((int) j1 / (i3 | 1));
        j1 = j1 * 31 + t1_0.lg(c, 377794096476L, link(c, r1, r1));
        i3 ^= chain(t1_0);
        i2 ^= chain(t1_1);
      }
      try {
        try {
          j0 = (long) d1;
          r1 = new Nd2((int) j1, null, j1);
          try {
            i2 = i3;
          } catch (ArithmeticException e1) {
            i0 = i0 ^ code(e1);
            o0 = s0;
            i2 += 65535;
            s0 = cut(s0 + ((int) j1 >> i2));
            i3 = i0;
          } catch (NegativeArraySizeException e2) {
            i2 = i3 ^ code(e2);
            {
              Nd t2_0 = new Nd2(i1, r3, ((j1 << (int) j1) % (j1 | 1L)));
              Nd t2_1 = mk(c, (i3 & (int) j0), r3);
              i2 = (r1 == r1 ? t2_1 : t2_0).get((i0 - i1)) + v(t2_1);
              i1 = (65535 <= (int) j1 ? t2_1 : t2_0).get(mk(c, i3, r3).get(i3)) + v(t2_1);
              i0 = ((r3 != r1 && j1 != (j1 - j1)) ? t2_0 : t2_0).get((i2 + i3)) + v(t2_0);
              i1 ^= chain(t2_0);
              i1 ^= chain(t2_1);
            }
          }
          r3 = null;
        } catch (RuntimeException e3) {
          i1 = i3 ^ code(e3);
          r3 = b0[i2 & 3];
          r2 = new Nd2(a0[(int) j0 & 7], r2, (j1 - j1));
          L3: for (int q3 = 0; q3 < 4 && --c.fuel > 0; ++q3) {
            i1 += (i0 + i2);
          }
        }
        r0 = left(r1);
        L4: for (int q4 = 0; q4 < 3 && --c.fuel > 0; ++q4) {
          L5: for (int q5 = 0; q5 < 1 && --c.fuel > 0; ++q5) {
            d1 = d1;
          }
          a0[i3 & 7] = i1;
        }
        i3 = i0;
      } catch (NullPointerException e4) {
        i0 = i1 ^ code(e4);
        if ((r3 != null && (i2 / (i3 | 1)) < i3)) return fin(c, j1, i0, r1);
        b0[mk(c, i3, r3).get(i2) & 3] = r1;
        if (r0 != null) return fin(c, j1, i0, r3);
      }
      i0 = i3;
      r3 = b0[(int) j1 & 3];
      break;
    case 7:
      a0[(i0 * i2) & 7] = s0.length();
      i2 = (i0 + ((i1 - i1) > (int) j0 ? (i1 - i2) : (int) j0));
      i0 += (i1 * i3);
      i3 = ((a0[i0 & 7] - (i1 << i3)) << ((i1 & i3) >> i3));
      break;
    case 6:
      {
        Nd t6_0 = new Nd(((i1 - i0) + (i2 >> i0)), r2);
        t6_0.l = link(c, r1, link(c, r1, r0));
        j1 = j1 * 31 + t6_0.lg(c, (long) d0, r2);
        d1 = d1 * 0.5 + dl(c, t6_0, d0, t6_0.lg(c, (j1 << (int) j0), r0));
        j0 = j0 * 31 + sl(c, t6_0, (j1 % (j0 | 1L)), i1);
        t6_0.l = link(c, r0, r3);
        i2 ^= chain(t6_0);
      }
      i2 = (int) ((j0 - j1) + sl(c, new Nd(i1, r2), j0, -1));
      i3 = i1;
      i3 += i3;
      break;
    default:
      i3 = (r2 == r2 ? i3 : mk(c, (int) j0, r0).get(i0));
      i2 = i3;
      i0 += i2;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }
}

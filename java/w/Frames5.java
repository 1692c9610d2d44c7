package w;

/** Generated by tools/genframes.py. */
class Frames5 extends Frames {
  static long m125(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 92, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = -393530493L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r0 = left(r3);
    r2 = new Nd((int) j1, r2);
    d0 = d0;
    {
      Nd t1_0 = new Nd2((true ? i3 : i3), r2, j0);
      t1_0.v = r2 != r1 ? 1 : 0;
      j1 = j1 * 31 + t1_0.lg(c, (long) d0, r1);
      t1_0.v = ((d0 >= d0 || 31 != (v(r1) == i3 ? i0 : i1)) || h0.get(i1) < (i2 / (i0 | 1))) ? 1 : 0;
      t1_0.v = r0 == r1 ? 1 : 0;
      i1 += three(c, (r3 == null ? i3 : i0), t1_0, t1_0.get(v(r0)));
      i1 ^= chain(t1_0);
    }
    j0 = (long) (i0 >> i3);
    L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
      L3: for (int q3 = 0; q3 < 1 && --c.fuel > 0; ++q3) {
        i3 = a0[(i3 + a0[i3 & 7]) & 7];
        a0[v(r1) & 7] = sh(c, (i2 & i0)).get(h0.get(i3));
        j1 = j0;
        L4: for (int q4 = 0; q4 < 4 && --c.fuel > 0; ++q4) {
          r0 = r2;
        }
      }
      i2 = 6565;
      if ((i2 * i3) == i3) {
        if ((i3 - i2) >= i1) break L2;
        i0 = 2121;
        L5: for (int q5 = 0; q5 < 1 && --c.fuel > 0; ++q5) {
          try {
            r0 = link(c, new Nd(i0, null), (Nd) o0);
          } catch (ArithmeticException e1) {
            i2 = i3 ^ code(e1);
            if ((r0 instanceof Nd2 || (i1 * i1) < 1000)) break L2;
            if (o0 instanceof Nd) continue L5;
            b0[i3 & 3] = link(c, null, ((r0 == null && 2147483647 >= v(r3)) ? left(r3) : new Nd(i2, r3)));
          } catch (RuntimeException e2) {
            i3 = i2 ^ code(e2);
            j1 = sl(c, (d1 > d0 ? r0 : r2), j0, i0);
            i3 += i3;
            i0 = v(r0);
            i3 += (int) j1;
          }
          L6: for (int q6 = 0; q6 < 3 && --c.fuel > 0; ++q6) {
            j0 = j1;
            i3 += (i2 & i1);
          }
          d0 = (d0 * dl(c, link(c, r2, r0), d1, (d0 > d1 ? j1 : j0)));
        }
        i3 += i0;
      } else {
        i3 = mk(c, (65535 - (i0 + i3)), r3).get(((i0 + i0) + (i1 >> i2)));
        if (o0 instanceof Nd2) continue L2;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m126(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 57, i2 = c.fuel & 15, i3 = -1;
    long j0 = p * 1000003L, j1 = -846573600L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    j0 ^= Frames4.m121(c, three(c, a0[i1 & 7], new Nd(((i0 + i0) - (i1 >>> i3)), null), (i3 + i0)), r3);
    d1 = d1;
    r0 = link(c, new Nd(((short) i3), r3), new Nd2(((int) j0 / ((i2 >>> i0) | 1)), r2, (long) i3));
    h0 = sh(c, -2147483647);
    try {
      h0 = sh(c, (int) j0);
      b0[v(r2) & 3] = ((j1 << three(c, i3, r0, i1)) == j1 ? r3 : r0);
      if (r3 != null) {
        synchronized (lk(c, r2)) {
          j0 = (long) (i0 * i0);
        }
        try {
          if (r3 != null) {
            i2 += i0;
          } else {
            i1 = i0;
            s0 = cut(s0 + (long) h0.get(i1));
            i3 += 5;
            r2 = r2;
          }
          c.point();
        } catch (ClassCastException e1) {
          i2 = i0 ^ code(e1);
          if (j1 > j1) throw new Ex((v(r0) % v(r0)));
          r2 = (Nd2) r3;
          j0 ^= Frames4.m117(c, s0.length(), new Nd2(((int) j0 - sh(c, 65535).get(i3)), r0, (long) d1));
        } catch (NegativeArraySizeException e2) {
          i0 = i0 ^ code(e2);
          if ((i0 + i0) >= -1) return fin(c, j1, i0, r2);
        } catch (ArrayIndexOutOfBoundsException e3) {
          i1 = i2 ^ code(e3);
          i3 += (i0 / i1);
          i1 = i2;
        } catch (RuntimeException e4) {
          i0 = i2 ^ code(e4);
          i0 += (int) j0;
          i2 += v(r1);
        }
        j0 = 255958011912L;
        r3 = r1.l;
      }
      r3 = new Nd(h0.get(i2), r3);
    } catch (NullPointerException e5) {
      i3 = i3 ^ code(e5);
      i3 += v(r3);
      i2 += 1;
    } catch (ArithmeticException e6) {
      i0 = i2 ^ code(e6);
      i0 += i3;
      r3 = null;
    } catch (ClassCastException e7) {
      i3 = i0 ^ code(e7);
      o0 = r2;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m127(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 61, i2 = c.fuel & 15, i3 = -4;
    long j0 = p * 1000003L, j1 = 141835192L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i0 = ((i2 + (i3 << i3)) & (mk(c, i2, r2).get(i3) + (i0 / (i0 | 1))));
    b0[(i3 + i0) & 3] = new Nd(((i1 ^ i1) << 3), r2);
    {
      Nd t1_0 = new Nd2(((char) i1), r1, (j0 ^ (long) (i2 - i0)));
      i1 += three(c, -1, t1_0, t1_0.get((i1 * i2)));
      r3 = link(c, r2, new Nd(t1_0.v, r0));
      d1 = d1 * 0.5 + dl(c, t1_0, d0, t1_0.lg(c, j1, r0));
      t1_0.v += v(b0[(i3 + i0) & 3]) + 7;
      i2 ^= chain(t1_0);
    }
    {
      Nd t2_0 = new Nd(mk(c, (i0 / (i1 | 1)), r3).get(i2), r2);
      Nd t2_1 = new Nd2((r2 != null ? i1 : i2), r1, mk(c, v(r2), r0).lg(c, j1, new Nd((int) j1, r2)));
      t2_0.l = link(c, link(c, r3, r0), r1);
      i3 += three(c, three(c, i0, r0, i2), t2_1, t2_1.get(a0[i1 & 7]));
      d1 = d1 * 0.5 + dl(c, t2_1, d0, t2_1.lg(c, j0, r2));
      i3 = (-1 <= i3 ? t2_0 : t2_1).get((i1 >>> i0)) + v(t2_0);
      t2_1.v += v(link(c, left(r3), new Nd(((i2 + i0) >>> i0), r1))) + ((i3 + i1) ^ a0[i3 & 7]);
      i2 ^= chain(t2_0);
      i1 ^= chain(t2_1);
    }
    r1 = b0[(i3 / (i3 | 1)) & 3];
    r3 = r3;
    r2 = left(r1);
    c.point();
    i2 = (h0.get((i1 & i1)) >> i1);
    L3: for (int q3 = 0; q3 < 4 && --c.fuel > 0; ++q3) {
      h0 = sh(c, (i0 << i0));
      if ((i1 / (i3 | 1)) != (i2 << i3)) {
        j0 = j1;
        L4: for (int q4 = 0; q4 < 2 && --c.fuel > 0; ++q4) {
          a0[i1 & 7] = (i3 / (v(r2) | 1));
          i1 = i0;
          r0 = new Nd(h0.get((i0 - i2)), r0);
        }
        if ((i3 & i1) > (i0 + i2)) {
          j0 = j1;
        }
      }
      c.point();
      i0 = 31;
    }
    L5: for (int q5 = 0; q5 < 4 && --c.fuel > 0; ++q5) {
      j0 ^= Frames5.m126(c, (((short) i3) + v(r0)), new Nd(i0, r1));
    }
    i1 = i2;
    i2 = v(left(r1));
    try {
      if ((i1 ^ i1) > v(r1)) return fin(c, j1, i0, r0);
      r3 = null;
      i0 += (i1 >>> i1);
      i1 += (i1 - i2);
    } catch (RuntimeException e1) {
      i3 = i1 ^ code(e1);
      i3 = ((three(c, i0, r2, i2) >> i0) + -2147483647);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m128(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 89, i2 = c.fuel & 15, i3 = 8;
    long j0 = p * 1000003L, j1 = 687879670L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    a0[65535 & 7] = s0.length();
    i2 = i2;
    j1 = (long) h0.get(i1);
    switch (((i0 + i3) ^ i0) & 7) {
    case 0:
      L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
        f0 = f0 * 0.5f + (float) ((i3 * i3) & 1023);
      }
      i0 = (i0 - v(r0));
      try {
        b0[7 & 3] = (Nd) o0;
        try {
          c.point();
          try {
            j1 = (-202878495510L ^ sl(c, new Nd((i2 & (i0 >> i2)), r3), j1, (i1 + i2)));
            b0[three(c, i1, r2, i3) & 3] = new Nd2(i2, r1, j1);
            r3 = r2.l;
            i1 += mk(c, i0, r3).get(i0);
          } catch (RuntimeException e1) {
            i2 = i0 ^ code(e1);
            i0 += (int) j0;
            j0 ^= Frames5.m126(c, i2, link(c, (Nd) o0, r3));
            {
              Nd t2_0 = mk(c, i2, r1);
              j1 = j1 * 31 + t2_0.lg(c, (long) (i1 - i0), new Nd(i1, null));
              t2_0.l = link(c, r0, r1);
              i1 = (r3 != null ? t2_0 : t2_0).get(1) + v(t2_0);
              j0 = j0 * 31 + t2_0.lg(c, (j0 << h0.get(i3)), left(r3));
              i3 ^= chain(t2_0);
            }
            d0 = dl(c, r1, (double) a0[i1 & 7], (long) a0[i0 & 7]);
          }
          r3 = new Nd2(((int) j0 % i1), r2, mk(c, (i0 ^ i3), r2).lg(c, j0, b0[(i0 << i3) & 3]));
        } catch (RuntimeException e2) {
          i2 = i0 ^ code(e2);
          i1 = h0.get((sh(c, 5).get(i1) >>> 1000));
          c.point();
        } finally {
          i2 += (i2 % (i0 | 1));
          i0 = ((i3 % ((i3 - i0) | 1)) << (int) j1);
          i2 = i2;
        }
        r0 = new Nd2(((i0 >>> i0) + (i3 ^ i3)), r0, (long) three(c, i1, r1, i0));
      } catch (Ex e3) {
        i2 = i1 ^ code(e3);
        i1 += (i0 * i1);
        j0 ^= Frames4.m120(c, ((i1 >> i1) & ((byte) i2)), r3);
        i0 = i1;
      } catch (RuntimeException e4) {
        i2 = i3 ^ code(e4);
        if (r1 != null) return fin(c, j1, i0, r0);
        i2 = ((int) j1 / (((short) (i1 & i1)) | 1));
        a0[2 & 7] = v(r0);
        i3 += (i0 + i0);
      }
      i0 += 3;
    case 6:
      r2 = (r2 instanceof Nd2 ? left(r3) : r0);
      break;
    case 5:
      i2 = i3;
      break;
    default:
      s0 = cut(s0 + (char) (65 + (i3 & 15)));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m129(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 15, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = -459076160L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    r1 = null;
    o0 = new Object[] {r0, r1, o0};
    c.point();
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      c.point();
      synchronized (lk(c, r2)) {
        if (((i0 + i1) <= a0[i1 & 7] || (i1 >>> i0) >= i0)) {
          L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
            r3 = new Nd((i3 ^ 5), r0);
            i3 += 5;
          }
          o0 = link(c, new Nd(i0, null), ((d0 == d1 && true) ? r2 : r3));
          r2 = r2;
          r3 = link(c, r1, r1);
        }
        i1 = v(r2);
      }
      i2 = ((char) (three(c, i1, r0, i3) & (i0 + i0)));
      switch (((short) (int) j1) & 7) {
      case 5:
        try {
          b0[((short) i0) & 3] = r2;
          L3: for (int q3 = 0; q3 < 1 && --c.fuel > 0; ++q3) {
            i3 += (i3 >> i0);
            i3 += v(r2);
            i0 = 1000;
            b0[three(c, i3, r0, i0) & 3] = new Nd(i3, r2);
          }
          try {
            {
              Nd t4_0 = mk(c, i3, new Nd2(three(c, -2147483647, r2, three(c, i2, r3, i1)), r0, -314971488440L));
              t4_0.v = o0 instanceof Nd ? 1 : 0;
              j1 = j1 * 31 + t4_0.lg(c, (j1 * j1), new Nd(i0, r2));
              i1 += three(c, (i2 >> i1), t4_0, t4_0.get(three(c, i2, r2, i0)));
              t4_0.l = link(c, r3, r3);
              i3 ^= chain(t4_0);
            }
            if (d0 >= d1) return fin(c, j1, i0, r2);
            d0 = dl(c, r1, d0, j0);
            f0 = f0 * 0.5f + (float) (a0[i0 & 7] & 1023);
          } catch (ArrayIndexOutOfBoundsException e1) {
            i2 = i0 ^ code(e1);
            i1 = (mk(c, i0, r2).get(((j0 * j0) > -111640685825L ? i0 : i0)) & (int) (long) d1);
            a0[i2 & 7] = v((((i2 & i2) == (i0 - i2) && r1 == null) ? r3 : r2));
          } catch (RuntimeException e2) {
            i0 = i0 ^ code(e2);
            b0[mk(c, i0, r2).get(i3) & 3] = new Nd(((i1 + i1) - (i3 / i1)), r0);
            if (r3 != r1) break L1;
            f0 = f0 * 0.5f + (float) (i3 & 1023);
          } finally {
            a0[5 & 7] = v(r3);
          }
        } catch (NegativeArraySizeException e3) {
          i2 = i3 ^ code(e3);
          j0 = 646805121521L;
          r3 = r1;
        } catch (NullPointerException e4) {
          i3 = i1 ^ code(e4);
          i1 += (i1 << i2);
          a0[i1 & 7] = ((i0 >> i3) << (i3 << i0));
          i3 += i0;
        } catch (RuntimeException e5) {
          i3 = i2 ^ code(e5);
          i3 += i1;
        }
        if ((sh(c, (i2 % (i2 | 1))).get(i1) >= (i2 / (i1 | 1)) && (long) (int) j0 > (j1 - sl(c, r3, j1, i1)))) continue;
      case 4:
        j0 ^= Frames4.m117(c, i2, r2);
        d0 = dl(c, new Nd2((a0[i2 & 7] >>> (i2 ^ i1)), r1, mk(c, (i2 - i2), r1).lg(c, j0, new Nd2(((int) j1 / (v(r3) | 1)), r1, (j1 << (i3 >> i0))))), d1, -415318309048L);
        i1 += i3;
        break;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m130(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 40, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = 436287766L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i2 = (h0.get(i2) << ((int) j0 >> (i3 << i0)));
    L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
      switch ((i0 / ((int) j0 | 1)) & 7) {
      case 0:
        j0 ^= Frames5.m128(c, 0, new Nd((r2 != null ? h0.get(i3) : i2), r2));
        i2 = v(new Nd2(((i3 * i2) + (i3 + i2)), r3, (j1 >>> i0)));
        a0[i3 & 7] = ((char) i2);
      case 3:
        L2: for (int q2 = 0; q2 < 4 && --c.fuel > 0; ++q2) {
          {
            Nd t3_0 = mk(c, ((char) (i1 ^ i3)), left(r0));
            d1 = d1 * 0.5 + dl(c, t3_0, d0, t3_0.lg(c, j0, r1));
            i1 = ((int) j0 != (i1 >> i3) ? t3_0 : t3_0).get(i3) + v(t3_0);
            r3 = link(c, r2, new Nd(t3_0.v, r3));
            i3 ^= chain(t3_0);
          }
          try {
            i1 = a0[three(c, 3, new Nd(((i1 >>> i2) / (i1 / i3)), null), -2147483647)];
          } catch (RuntimeException e1) {
            i0 = i3 ^ code(e1);
            i3 = ((byte) ((i2 + i1) >>> i0));
            b0[(i2 - i0) & 3] = (r2 != r2 ? (i2 >= 2147483647 ? new Nd((i0 + i3), null) : new Nd(a0[mk(c, i0, r1).get(i0) & 7], r2)) : left(r3));
            r0 = new Nd(-2147483647, r3);
            i0 = ((mk(c, i1, r2).get(i3) * v(r2)) / (i1 | 1));
          }
          o0 = new int[] {((i3 % (i3 | 1)) / ((int) j0 | 1)), 3};
          synchronized (lk(c, r3)) {
            i0 = ((i3 - i3) + v(new Nd(7, r0)));
          }
        }
        break;
      case -5:
        j0 = ((long) s0.length() + j0);
        break;
      case -100:
        if (r0 instanceof Nd) {
          switch (i3) {
          case 3:
            d1 = ((d1 - d0) * (d0 - d0));
            a0[(i2 + i2) & 7] = ((i0 & i3) * i3);
            r1 = r3;
            i0 += h0.get(i3);
            break;
          case 0:
            i2 += (i1 + i1);
            j0 ^= Frames4.m124(c, (1000 % (i2 | 1)), r0);
            i1 = ((int) (long) d1 * ((int) j0 + three(c, i3, r0, i1)));
            break;
          case -100:
            i1 += v(r0);
            r3 = new Nd(5, r2);
            i2 += i3;
            r1 = new Nd((i1 + (i2 * i3)), null);
          case 1000:
            r0 = new Nd(mk(c, (i2 - i2), r0).get(i3), null);
            r3 = left(r0);
            {
              Nd t4_0 = mk(c, (int) j0, left(r3));
              Nd t4_1 = mk(c, ((short) v(r2)), left(r3));
              j1 = j1 * 31 + t4_1.lg(c, (long) i2, new Nd(((byte) three(c, i3, r3, i3)), r0));
              i2 += three(c, (int) j1, t4_1, t4_1.get(i3));
              j0 = j0 * 31 + sl(c, t4_0, (sh(c, v(r2)).get(i3) > i3 ? j0 : j1), v(r0));
              t4_1.v = o0 instanceof Nd2 ? 1 : 0;
              t4_0.l = link(c, b0[(i2 - i3) & 3], left(r3));
              i1 ^= chain(t4_0);
              i1 ^= chain(t4_1);
            }
            i2 = (three(c, i3, null, (int) j1) >>> ((i2 % (i0 | 1)) + (int) j1));
            break;
          case 100000:
            r1 = new Nd2(a0[100 & 7], null, (j1 / (j0 | 1L)));
            i0 += 1;
            i1 = -2168;
            j0 ^= Frames4.m123(c, (i0 * (i1 % (i0 | 1))), (j0 <= j1 ? left(r2) : b0[((short) i1) & 3]));
          default:
            i3 = i3;
            j0 ^= Frames5.m129(c, (int) (long) (int) j1, new Nd(v(r2), null));
            r1 = r1;
            r1 = (d0 <= d0 ? link(c, left(r2), r0) : new Nd((int) j0, r0));
          }
          i2 = (((i2 >> i0) / ((i1 + i1) | 1)) / (i0 | 1));
        } else {
          d1 = d1;
          i2 += (int) j1;
        }
        i0 = (i2 + (int) j1);
        i2 = i3;
        h0 = sh(c, (true ? three(c, i3, r3, i1) : (i1 >>> i0)));
        break;
      }
      r1 = r3;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m131(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 40, i2 = c.fuel & 15, i3 = -9;
    long j0 = p * 1000003L, j1 = -392781012L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    {
      Nd t1_0 = mk(c, (int) j0, link(c, r3, r1));
      j1 = j1 * 31 + sl(c, t1_0, (j1 + j0), (int) j1);
      t1_0.v = (i2 ^ i1) == i2 ? 1 : 0;
      j1 = j1 * 31 + sl(c, t1_0, j1, i0);
      j0 = j0 * 31 + t1_0.lg(c, j1, r2);
      i1 += three(c, (i3 + i1), t1_0, t1_0.get(i2));
      i3 ^= chain(t1_0);
    }
    try {
      try {
        r1 = new Nd(v(r3), r2);
        r3 = new Nd2(i1, r0, -774385260215L);
        j0 = j0;
      } catch (NullPointerException e1) {
        i0 = i0 ^ code(e1);
        b0[(i2 + i3) & 3] = left(r3);
        j0 = j1;
        L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
          r1 = r2;
          L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
            i1 = (((i0 ^ i2) / (i1 % i3)) + 2);
            r3 = new Nd2(i1, r2, -728973625140L);
            i1 += i1;
            j0 ^= Frames4.m123(c, (i3 + (i0 ^ i1)), new Nd2(((i3 >> i1) * a0[i2 & 7]), null, j1));
          }
          try {
            {
              Nd t4_0 = mk(c, ((i0 - i3) ^ (i2 >>> i2)), link(c, r2, r0));
              i1 = ((d1 <= d1 && (int) j0 >= i0) ? t4_0 : t4_0).get(31) + v(t4_0);
              t4_0.v += v(r0) + -183;
              i1 += three(c, (i0 << i3), t4_0, t4_0.get(a0[i1 & 7]));
              r1 = link(c, r2, new Nd(t4_0.v, r1));
              i1 ^= chain(t4_0);
            }
            i3 += i3;
            {
              Nd t5_0 = mk(c, mk(c, (i2 & i3), r0).get(((short) i0)), new Nd(31, r2));
              Nd t5_1 = mk(c, (i1 / (i1 & i0)), new Nd(((i3 ^ i1) / i2), r0));
              d1 = d1 * 0.5 + dl(c, t5_0, d1, t5_0.lg(c, (long) d0, r2));
              i1 += three(c, (i3 - i3), t5_1, t5_1.get((i3 + i1)));
              i2 ^= chain(t5_0);
              i0 ^= chain(t5_1);
            }
          } catch (RuntimeException e2) {
            i2 = i1 ^ code(e2);
            b0[(i2 - i1) & 3] = (r1 != null ? new Nd2(i1, r2, (long) v(r0)) : ((j1 == (j0 - sl(c, left(r0), j0, (i0 % i2))) || r1 == null) ? r1 : (a0[i0 & 7] < 5 ? r3 : r0)));
            i2 += v(r0);
          } finally {
            i0 += 2;
            i0 = sh(c, ((short) i0)).get(a0[i0 & 7]);
            i3 = (three(c, (i2 + i3), new Nd(((i3 + i0) * i1), r1), v(r2)) + i3);
            r0 = r2;
          }
          j0 = ((j1 == (j1 + j1) ? i2 : i3) == i2 ? j0 : ((-777836453730L == j1 ? j1 : j1) & (j0 - j1)));
        }
        j1 = j1;
      } catch (RuntimeException e3) {
        i2 = i0 ^ code(e3);
        i3 += s0.length();
        i3 += three(c, i1, r2, i0);
        i0 += (i3 + i3);
      } finally {
        i1 += h0.get(i3);
        i1 += i0;
        i3 += (i1 >>> i1);
      }
      i0 += 65535;
      i0 += (i0 >> i2);
    } catch (RuntimeException e4) {
      i2 = i2 ^ code(e4);
      h0 = sh(c, 7);
    } finally {
      i1 = i2;
      i2 = s0.length();
      i1 = 3;
      f0 = f0 * 0.5f + (float) ((i3 - i0) & 1023);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m132(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 14, i2 = c.fuel & 15, i3 = -3;
    long j0 = p * 1000003L, j1 = 359746213L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    i1 = (v(r3) + v(r3));
    i2 = s0.length();
    i3 = 2;
    try {
      r0 = r3.l;
      r1.v = (int) j0;
      L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
        r2 = r0;
        d1 = ((d0 + d0) * d0);
        a0[i2 & 7] = v(r1);
      }
      L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
        i3 = 5;
        i2 = (((i0 - i1) ^ i1) / (mk(c, i3, r2).get(i0) - (i0 << i2)));
        {
          Nd t3_0 = new Nd2((int) j1, r1, 197052881665L);
          Nd t3_1 = mk(c, i2, new Nd(((d0 >= d0 ? i1 : i0) - i0), r2));
          j0 = j0 * 31 + sl(c, t3_1, j1, (mk(c, i1, r0).get(i1) >> i1));
          i3 = ((i2 + i2) <= i0 ? t3_0 : t3_0).get(1000) + v(t3_0);
          i1 = (((char) i2) <= v(r1) ? t3_0 : t3_0).get(s0.length()) + v(t3_0);
          j1 = j1 * 31 + sl(c, t3_1, (long) i2, (int) (j1 * j0));
          t3_0.v = i0 != (i3 - i0) ? 1 : 0;
          i1 ^= chain(t3_0);
          i1 ^= chain(t3_1);
        }
        switch (i1 & 7) {
        case 7:
          s0 = cut(s0 + (i0 >> v(r3)));
          L4: for (int q4 = 0; q4 < 4 && --c.fuel > 0; ++q4) {
            c.point();
            i0 += a0[i0 & 7];
            i2 += (i1 - i2);
          }
          i0 = i0;
          s0 = cut(s0 + (long) (i2 / i1));
          break;
        case 1:
          switch (i2) {
          case 3:
            i3 = a0[((byte) 65535) & 7];
            r3 = (r1 != null ? new Nd(i2, r3) : r2.l);
            break;
          case 77:
            i3 += v(r0);
            i2 += mk(c, i2, r1).get(i2);
            r3 = left(r0);
            j0 = (long) i3;
          default:
            i3 = ((1 << i0) + h0.get((i3 ^ i3)));
            a0[(i1 + i3) & 7] = i2;
            r2 = r1;
          }
          r2 = new Nd(i0, r1);
        case 6:
          i0 += three(c, i3, r1, i1);
          i1 += mk(c, i3, r0).get(i0);
          h0 = sh(c, i3);
        }
      }
    } catch (Ex e1) {
      i3 = i1 ^ code(e1);
      i0 += (i0 ^ i1);
      r2 = new Nd((i0 % ((i2 - i2) | 1)), null);
      i3 = mk(c, i3, r1).get(i0);
      i1 += (i2 ^ i2);
    } catch (NegativeArraySizeException e2) {
      i0 = i2 ^ code(e2);
      s0 = cut(s0 + (r3 != null ? ((char) i2) : (i0 >>> i0)));
      r2 = r3;
      i2 += a0[i0 & 7];
    } catch (ClassCastException e3) {
      i1 = i2 ^ code(e3);
      d0 = d0;
      i2 += v(r1);
      j1 = (v(r3) < ((byte) i1) ? (long) d1 : ((j1 / (j0 | 1L)) << (i2 - i2)));
      a0[three(c, i3, r0, i0) & 7] = i2;
    } catch (RuntimeException e4) {
      i2 = i2 ^ code(e4);
      i2 = i3;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m133(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 41, i2 = c.fuel & 15, i3 = -6;
    long j0 = p * 1000003L, j1 = -17695956L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r1 = r0;
    j0 ^= Frames5.m132(c, ((int) j1 - (i3 >> i2)), new Nd2((i2 % (mk(c, i0, r2).get(i0) | 1)), null, (j0 - j0)));
    r2 = new Nd(v(((i0 < (i2 & i0) || r0 != r3) ? r0 : r2)), r1);
    r2 = r3;
    c.point();
    try {
      c.point();
      synchronized (lk(c, r2)) {
        L1: for (int q1 = 0; q1 < 3 && --c.fuel > 0; ++q1) {
          a0[((byte) i0) & 7] = i2;
          r2 = r3.l;
          i1 = a0[(i2 / s0.length())];
        }
        i1 = a0[(i3 * i3)];
      }
      r1 = ((i0 * i1) <= (i1 / i3) ? new Nd((v(r0) & (i1 - i1)), null) : link(c, r1, (d1 == d1 ? r0 : r2)));
      b0[(i2 ^ i3) & 3] = r1.l;
    } catch (ArithmeticException e1) {
      i0 = i0 ^ code(e1);
      if ((j0 ^ sl(c, left(r0), j0, three(c, i2, r1, i3))) == j1) {
        j0 ^= Frames4.m122(c, ((char) (true ? i2 : i2)), new Nd(i1, r3));
      } else {
        s0 = cut(s0 + ((i1 << i2) % ((i0 >> i0) | 1)));
        s0 = cut(s0 + mk(c, 31, r3).lg(c, j1, left(r2)));
        i2 = (mk(c, (i3 >>> i3), r0).get((int) j1) / (mk(c, (i1 % (i3 | 1)), r2).get((i1 << i1)) | 1));
        i0 = s0.length();
      }
    } catch (NullPointerException e2) {
      i2 = i2 ^ code(e2);
      if (d1 > d0) return fin(c, j1, i0, r1);
      if (r0 == null) {
        i1 = -1;
        i0 = (r3 != r2 ? (int) (j1 / (j1 | 1L)) : i0);
        i3 += (i1 * i1);
        i1 += i0;
      }
    } catch (Ex e3) {
      i0 = i2 ^ code(e3);
      if (o0 instanceof Nd2) return fin(c, j1, i0, r0);
      r2 = new Nd(i2, null);
      i3 = (((i0 % (i2 | 1)) >>> v(r3)) >> h0.get(i0));
      h0 = sh(c, ((short) (int) j1));
    } finally {
      i0 += (i2 + i3);
      r2 = r0;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m134(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 22, i2 = c.fuel & 15, i3 = -6;
    long j0 = p * 1000003L, j1 = -200830639L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i3 = (int) j1;
    switch (i0) {
    case 1000:
      a0[mk(c, i0, r2).get(i0) & 7] = s0.length();
      c.point();
      i1 = ((i1 >> (i1 + i3)) + 5);
      c.point();
      break;
    case -100:
      j0 ^= Frames4.m123(c, i2, link(c, r0, null));
      b0[(i3 - i1) & 3] = null;
      break;
    case 77:
      try {
        a0[-1246 & 7] = i1;
      } catch (ArithmeticException e1) {
        i1 = i2 ^ code(e1);
        if (i3 > i3) {
          d0 = (d1 + d1);
          if (r1 instanceof Nd) {
            if ((i1 + i1) >= i0) return fin(c, j1, i0, r3);
            if ((r1 != null ? i0 : i3) >= (i2 % (i2 | 1))) return fin(c, j1, i0, r3);
            i2 += a0[i1 & 7];
            i0 = (j1 > (long) (i3 & i3) ? i2 : v(r0));
          }
          {
            Nd t1_0 = new Nd(((i0 - i1) - (int) j0), r3);
            Nd t1_1 = mk(c, 7, new Nd2(((i3 >>> i2) & (i0 & i2)), r3, j0));
            j1 = j1 * 31 + t1_0.lg(c, j0, link(c, r2, r0));
            i0 += three(c, a0[i2 & 7], t1_0, t1_1.get(3));
            i3 ^= chain(t1_0);
            i3 ^= chain(t1_1);
          }
        }
        b0[(i1 + i2) & 3] = (r3 == r2 ? new Nd2((mk(c, i0, r0).get(i0) % ((i3 + i3) | 1)), r2, j0) : r2);
        i1 = v(left(r0));
      } catch (Ex e2) {
        i1 = i1 ^ code(e2);
        r2 = new Nd(((i3 + i3) >> v(r1)), r0);
        switch (i1) {
        case 1000:
          if (r2 != null) {
            j0 ^= Frames4.m123(c, i2, left(r3));
          } else {
            j0 ^= Frames5.m131(c, (h0.get(i3) / ((i1 - i1) | 1)), new Nd((i2 << (int) j1), null));
            j1 = j0;
            r1 = b0[h0.get(i2) & 3];
            i2 += -1;
          }
          if ((j0 ^ j0) > j0) return fin(c, j1, i0, r1);
        case -100:
          o0 = s0;
          break;
        }
        r0 = new Nd((i0 & (r3 != null ? i1 : i3)), r3);
      } finally {
        i0 += (i3 >> i1);
        if ((i3 - i0) > i2) j0 ^= fin(c, j1, i0, r1);
        j0 = sl(c, left(r1), (j0 << 5), (i2 - i2));
        d1 = (d0 + (double) (r3 instanceof Nd2 ? i2 : i2));
      }
      c.point();
      j0 ^= Frames5.m129(c, (int) j1, new Nd2((int) j0, r0, (j1 - j0)));
      break;
    case -5:
      {
        Nd t2_0 = mk(c, (i0 + i1), link(c, r1, r3));
        j0 = j0 * 31 + sl(c, t2_0, (long) (i1 + i3), -350);
        i1 += three(c, three(c, i1, r1, i3), t2_0, t2_0.get(i0));
        j1 = j1 * 31 + t2_0.lg(c, (long) (int) j0, link(c, r1, r1));
        t2_0.v = (i3 >>> i3) <= i3 ? 1 : 0;
        j0 = j0 * 31 + sl(c, t2_0, j0, i0);
        i0 ^= chain(t2_0);
      }
      break;
    default:
      r3 = left(r3);
      d0 = d0;
      j0 = (long) d1;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m135(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 65, i2 = c.fuel & 15, i3 = -8;
    long j0 = p * 1000003L, j1 = -198922170L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    if (((i0 >= (i0 + i2) && true) || i1 != i0)) {
      try {
        try {
          try {
            i0 += v(r0);
            j0 ^= Frames5.m133(c, i1, link(c, r1, link(c, r3, r0)));
            r1.v = three(c, i2, new Nd(i3, r1), sh(c, (i2 + i3)).get(i1));
            i3 = (r3 == r2 ? 2 : i2);
          } catch (NullPointerException e1) {
            i3 = i0 ^ code(e1);
            d0 = (double) i0;
          } catch (Ex e2) {
            i0 = i0 ^ code(e2);
            r1 = new Nd(s0.length(), r2);
            r1.v = (((char) i1) << (i1 ^ i0));
            i2 = i2;
          } catch (ArithmeticException e3) {
            i0 = i2 ^ code(e3);
            i1 = i0;
          } catch (RuntimeException e4) {
            i2 = i0 ^ code(e4);
            i1 += i1;
            b0[sh(c, (i2 * i2)).get(i0) & 3] = r2.l;
            {
              Nd t1_0 = new Nd2((i2 + i0), r1, (sl(c, new Nd2((mk(c, i1, r0).get(i0) + i1), r3, j0), j1, (i2 >>> i0)) + j0));
              Nd t1_1 = new Nd2(i0, r1, j0);
              t1_1.v = h0.get(i0) > i0 ? 1 : 0;
              d1 = d1 * 0.5 + dl(c, t1_1, d1, t1_0.lg(c, j0, r0));
              t1_0.l = link(c, r3, r1);
              j0 = j0 * 31 + sl(c, t1_1, (long) d0, (i2 / -2147483647));
              i0 += three(c, (i3 >>> i1), t1_1, t1_0.get(2147483647));
              i0 ^= chain(t1_0);
              i2 ^= chain(t1_1);
            }
            s0 = cut(s0 + mk(c, i0, r2).lg(c, j1, r0.l));
          }
          i0 = i1;
          try {
            r3 = new Nd2(i3, null, j1);
            r2 = new Nd(i1, r3);
            i1 += 0;
          } catch (ArithmeticException e5) {
            i1 = i2 ^ code(e5);
            r3 = b0[((byte) i0) & 3];
            r2 = left(r1);
            i3 = new int[i0 & 0x8000000f].length;
          } catch (NegativeArraySizeException e6) {
            i0 = i2 ^ code(e6);
            a0[(i0 >> i2) & 7] = i2;
            {
              Nd t2_0 = new Nd2(a0[i2 & 7], r0, (long) mk(c, i0, r0).get(i2));
              Nd t2_1 = new Nd(i3, r0);
              j0 = j0 * 31 + sl(c, t2_0, (j1 % (j1 | 1L)), (int) (long) i3);
              i3 += three(c, (i0 ^ i0), t2_1, t2_0.get(sh(c, three(c, i0, r3, i2)).get(i0)));
              t2_1.v = (d0 > d0 && d0 > d1) ? 1 : 0;
              t2_0.v += v(new Nd(i1, r1)) + (i0 - 1000);
              j1 = j1 * 31 + t2_1.lg(c, j1, new Nd(2, r0));
              i0 ^= chain(t2_0);
              i1 ^= chain(t2_1);
            }
            i0 = v(r3);
            r3 = null;
          } catch (RuntimeException e7) {
            i3 = i2 ^ code(e7);
            if (r3 != r3) throw new Ex(h0.get(-2147483647));
            j0 ^= Frames5.m127(c, (mk(c, i3, r1).get(i2) - 1), r2);
            if ((r3 instanceof Nd && (long) (i2 >>> i2) < (long) mk(c, i1, r0).get(i3))) throw new Ex2(i2, r1);
          }
          a0[(int) j0 & 7] = (((byte) i0) + v(r2));
        } catch (RuntimeException e8) {
          i2 = i2 ^ code(e8);
          {
            Nd t3_0 = new Nd2(three(c, i2, r2, i0), r3, (long) i2);
            Nd t3_1 = mk(c, i2, r3);
            j0 = j0 * 31 + t3_1.lg(c, (2 >= (i0 >>> i2) ? j1 : j0), r2.l);
            i0 = (o0 instanceof Nd ? t3_0 : t3_1).get(i0) + v(t3_0);
            t3_1.v = d0 == d0 ? 1 : 0;
            i3 ^= chain(t3_0);
            i3 ^= chain(t3_1);
          }
          i1 += s0.length();
          r1 = r0;
          r0 = null;
        }
      } catch (Ex e9) {
        i1 = i1 ^ code(e9);
        b0[i1 & 3] = left(r1);
        i3 = (((i2 + i2) << 31) + ((i1 - i1) - (true ? i0 : i0)));
      } catch (ArithmeticException e10) {
        i3 = i1 ^ code(e10);
        i0 += i2;
      } catch (NullPointerException e11) {
        i2 = i2 ^ code(e11);
        if ((d0 <= d0 || d1 >= d1)) return fin(c, j1, i0, r1);
        i3 = (0 >>> (i0 * (int) j0));
      } catch (RuntimeException e12) {
        i0 = i3 ^ code(e12);
        if (r0 == r2) return fin(c, j1, i0, r2);
      }
    } else {
      j1 = (j1 ^ j0);
      i2 += i3;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m136(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 45, i2 = c.fuel & 15, i3 = -7;
    long j0 = p * 1000003L, j1 = 9929171L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r3 = b0[(i1 + i2) & 3];
    L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
      if (d1 < d0) {
        if (((j1 + j1) < j1 || h0.get(i0) > i2)) {
          if ((r3 == null && 3 >= v(r1))) {
            r3 = r2;
            i1 = i1;
            i1 += (i3 << i2);
            {
              Nd t2_0 = mk(c, ((i3 >> i0) & (int) j1), new Nd(v(r0), r3));
              d1 = d1 * 0.5 + dl(c, t2_0, d0, t2_0.lg(c, j0, r2));
              i1 += three(c, i1, t2_0, t2_0.get((i0 + i2)));
              t2_0.v = (r0 instanceof Nd2 || d1 == d1) ? 1 : 0;
              t2_0.v += v(new Nd((i3 + mk(c, i3, r2).get(i1)), r3)) + ((i3 & i0) >> i1);
              i1 = ((r3 instanceof Nd2 && i1 > (i0 / (i1 | 1))) ? t2_0 : t2_0).get(i1) + v(t2_0);
              i0 ^= chain(t2_0);
            }
          } else {
            b0[i0 & 3] = r0;
          }
        }
        L3: for (int q3 = 0; q3 < 2 && --c.fuel > 0; ++q3) {
          switch (i0 & 7) {
          case 1:
            i0 += (i1 & i0);
            b0[(i0 - i2) & 3] = new Nd((-4108 % (i1 | 1)), r3);
          case 7:
            a0[65535 & 7] = ((int) j0 + (i2 - i1));
            i0 = ((i1 << (i2 / (i0 | 1))) % ((int) j1 | 1));
            break;
          case 5:
            a0[(i0 / (i2 | 1)) & 7] = a0[(i1 - i0) & 7];
            j0 ^= Frames4.m124(c, ((i1 >> i3) * (i3 - i2)), new Nd(((short) (int) j0), r2));
            s0 = cut(s0 + (char) (65 + (i0 & 15)));
            break;
          case 3:
            i0 += (int) j1;
            break;
          case 4:
            if (r2 instanceof Nd2) continue;
          default:
            if (r3 == r1) continue;
            i1 += i0;
            i0 += (i3 ^ i3);
            r2 = b0[i1 & 3];
          }
          i1 += (i0 % (i1 | 1));
          i1 = (h0.get(-1) + (31 - i0));
          i3 += (i3 >> i3);
        }
      } else {
        a0[a0[i2 & 7] & 7] = (a0[i1 & 7] + three(c, i0, r0, i0));
        i0 = ((((byte) i1) - (i3 * i0)) >>> three(c, three(c, i2, r3, i0), r1, 2342));
      }
      i2 += i1;
      s0 = cut(s0 + "x");
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m137(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 81, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = -845353572L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      j0 = (j0 + j1);
      if ((i0 + i2) > i0) {
        r0 = new Nd2((5 * -1), null, j0);
        i3 = a0[(i2 ^ i1) & 7];
        try {
          d1 = d0;
          switch (i1 & 7) {
          case 0:
            a0[h0.get(i2) & 7] = ((i3 ^ i1) - i2);
            r3 = link(c, new Nd((i2 >>> i1), r2), new Nd(((i0 + i3) * (i2 >>> i3)), null));
            i2 = (i0 + a0[1000 & 7]);
            i1 = ((i0 + v(r3)) + (int) mk(c, (i1 + i3), r2).lg(c, j0, new Nd(((i0 / i2) - v(r2)), null)));
          case 2:
            r0 = link(c, b0[i1 & 3], r3);
            if (r3 != null) return fin(c, j1, i0, r1);
            break;
          case 5:
            j0 = (918234616071L - (j0 + (long) d0));
            b0[i3 & 3] = r1.l;
            i0 += (int) j1;
            break;
          }
        } catch (ArithmeticException e1) {
          i0 = i2 ^ code(e1);
          try {
            i0 += (i3 + i3);
            b0[(i0 - i1) & 3] = r0;
            j0 ^= Frames5.m136(c, i2, link(c, new Nd2(((i0 + i1) ^ (i1 & i3)), r2, j1), ((d0 == d0 && d1 <= d1) ? r3 : r1)));
            i2 = ((i2 % (i0 >> i0)) >>> i0);
          } catch (RuntimeException e2) {
            i1 = i3 ^ code(e2);
            r2 = (r0 != null ? new Nd(i0, r2) : r3.l);
          } finally {
            i3 += (i2 + i0);
            i3 += v(r3);
          }
          i1 += (i2 - i3);
          j1 = sl(c, left(r3), (j0 >>> mk(c, i1, r2).get(i3)), (i0 + i3));
        } catch (RuntimeException e3) {
          i3 = i1 ^ code(e3);
          i3 += (i3 + i3);
          i0 += i3;
          r0 = link(c, new Nd2((v(r1) ^ i1), r2, j1), r1.l);
        } finally {
          i2 += i2;
        }
        o0 = new Object[] {r0, r1, o0};
      } else {
        i3 += s0.length();
        i2 = i1;
      }
    } catch (ArrayIndexOutOfBoundsException e4) {
      i3 = i2 ^ code(e4);
      i0 += three(c, i1, r0, i1);
    } catch (NegativeArraySizeException e5) {
      i1 = i0 ^ code(e5);
      i0 = 7;
      {
        Nd t1_0 = new Nd2(i1, r0, j1);
        i3 += three(c, i0, t1_0, t1_0.get((i0 & i3)));
        r0 = link(c, r0, new Nd(t1_0.v, r1));
        i2 += three(c, a0[i1 & 7], t1_0, t1_0.get((i0 - i1)));
        i0 ^= chain(t1_0);
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m138(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 35, i2 = c.fuel & 15, i3 = 9;
    long j0 = p * 1000003L, j1 = -87328642L;
    double d0 = p, d1 = 1.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i2 = (int) j0;
    j0 = (sl(c, r3, (j1 - sl(c, r0, j0, 1)), (i2 + i2)) - ((j0 % (j1 | 1L)) - (j0 ^ j0)));
    {
      Nd t1_0 = new Nd(sh(c, (a0[i1 & 7] != (i1 - i3) ? i3 : i1)).get(i1), null);
      t1_0.v += v(r2) + s0.length();
      r2 = link(c, r3, new Nd(t1_0.v, r2));
      j1 = j1 * 31 + sl(c, t1_0, j0, 65535);
      j1 = j1 * 31 + sl(c, t1_0, mk(c, 3, r0).lg(c, j1, new Nd2((int) j0, r2, j1)), (int) (j0 / (j0 | 1L)));
      i1 ^= chain(t1_0);
    }
    i0 = -2147483647;
    i0 = h0.get(a0[three(c, i1, r0, i1) & 7]);
    {
      Nd t2_0 = new Nd2(s0.length(), r3, (long) i3);
      r1 = link(c, r0, new Nd(t2_0.v, r1));
      j0 = j0 * 31 + t2_0.lg(c, (j0 / (j1 | 1L)), link(c, r2, r2));
      i2 += three(c, ((short) i2), t2_0, t2_0.get(-2147483647));
      i3 ^= chain(t2_0);
    }
    switch (h0.get((int) j0) & 7) {
    case 1:
      try {
        r0 = new Nd(v(r2), r1);
        synchronized (lk(c, r1)) {
          if (o0 instanceof Nd2) {
            r2 = new Nd2(((i0 - i3) & i3), r3, (j0 % (j0 | 1L)));
            o0 = new Object[] {r0, r1, o0};
          } else {
            i0 += i1;
            r2 = new Nd2(i3, r3, j0);
            i1 += (i2 & i3);
          }
          if (d0 >= d0) {
            i1 = i3;
            j0 ^= Frames5.m132(c, 2147483647, new Nd2(i0, r3, j0));
            b0[31 & 3] = new Nd(5, null);
            r1 = new Nd(((char) (int) j1), null);
          } else {
            r2 = r3;
            i3 += i1;
            i3 = ((short) i1);
          }
          i1 += i3;
          i0 += i2;
        }
      } catch (RuntimeException e1) {
        i3 = i0 ^ code(e1);
        c.point();
        i0 += 3;
        r1 = link(c, link(c, r3, r2), link(c, new Nd(i3, r2), null));
        if (r1 instanceof Nd) return fin(c, j1, i0, r0);
      }
      b0[((i3 + i0) < i0 ? i2 : i0) & 3] = new Nd((i1 >>> 2147483647), null);
      i0 += (i3 % (i1 | 1));
      break;
    case 6:
      i0 += i1;
      j0 ^= Frames5.m131(c, s0.length(), (d1 == d0 ? r2 : link(c, r1, r2)));
      h0 = sh(c, i2);
    case 7:
      if (r3 instanceof Nd2) return fin(c, j1, i0, r3);
      break;
    default:
      if (i1 > (i3 + i3)) return fin(c, j1, i0, r3);
      b0[i0 & 3] = r0;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m139(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 19, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = 500945785L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    a0[a0[i2 & 7] & 7] = i3;
    c.point();
    i3 = (i1 + ((int) j1 >>> ((r1 == null ? i3 : i3) < v(r1) ? i1 : i1)));
    i0 = ((byte) ((i2 >>> i3) << (i2 >>> i1)));
    r2 = r3;
    r2 = r3;
    try {
      i0 = 5917;
      j0 = j1;
      j1 = j0;
      s0 = cut(s0 + (char) (65 + (i0 & 15)));
    } catch (ClassCastException e1) {
      i0 = i2 ^ code(e1);
      r0 = r3;
      if (r2 instanceof Nd2) return fin(c, j1, i0, r2);
    } catch (ArrayIndexOutOfBoundsException e2) {
      i1 = i3 ^ code(e2);
      synchronized (lk(c, r2)) {
        i2 = (r1 == null ? -1 : i1);
        h0 = sh(c, (i2 >> v(r2)));
        j1 = j0;
      }
    } catch (ArithmeticException e3) {
      i2 = i3 ^ code(e3);
      {
        Nd t1_0 = new Nd((a0[i1 & 7] % (a0[i2 & 7] | 1)), r0);
        Nd t1_1 = new Nd(v(r1), r3);
        i1 += three(c, i3, t1_0, t1_1.get(((char) i0)));
        i3 = (r1 != r3 ? t1_1 : t1_0).get(i0) + v(t1_1);
        j1 = j1 * 31 + sl(c, t1_1, (j0 + j0), a0[i1 & 7]);
        t1_1.v += v(new Nd2(v(r0), r3, j1)) + i1;
        r1 = link(c, r1, new Nd(t1_1.v, r0));
        i3 ^= chain(t1_0);
        i1 ^= chain(t1_1);
      }
      s0 = cut(s0 + (char) (65 + (i2 & 15)));
      h0 = sh(c, 5);
      j1 = (long) d0;
    } catch (RuntimeException e4) {
      i1 = i0 ^ code(e4);
      synchronized (lk(c, r0)) {
        L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
          L3: for (int q3 = 0; q3 < 1 && --c.fuel > 0; ++q3) {
            h0 = sh(c, (i0 % (a0[i3 & 7] | 1)));
          }
        }
        L4: for (int q4 = 0; q4 < 3 && --c.fuel > 0; ++q4) {
          if (d1 <= d1) break;
          try {
            b0[(true ? i2 : i3) & 3] = r0.l;
            i3 += i2;
            i3 += (i1 / i3);
          } catch (NegativeArraySizeException e5) {
            i1 = i1 ^ code(e5);
            i2 += 3;
            r2 = r1;
          } catch (RuntimeException e6) {
            i3 = i2 ^ code(e6);
            j0 = 311927470272L;
            r3 = new Nd(((i1 - i0) >> (i1 & i3)), r0);
            r2 = b0[3 & 3];
          }
        }
        i1 += (i2 & i1);
        r0 = left(r0);
      }
      s0 = cut(s0 + i3);
      i0 += (i2 + i0);
      i1 += (i1 - i3);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m140(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 97, i2 = c.fuel & 15, i3 = -5;
    long j0 = p * 1000003L, j1 = 914411473L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    s0 = cut(s0 + "x");
    o0 = s0;
    j1 = (((j1 * j1) / (j0 | 1L)) % (j1 | 1L));
    i2 = ((three(c, i3, r3, i0) << (i1 % (i2 | 1))) >>> i3);
    c.point();
    r2 = r1;
    o0 = new int[] {7, 3};
    j0 = j0;
    {
      Nd t1_0 = new Nd((mk(c, i2, r3).get(i2) * (i0 % (i2 | 1))), r1);
      Nd t1_1 = new Nd(mk(c, (i3 & i0), r0).get((i0 >> i1)), null);
      i0 = ((j1 + j1) != (j0 + j1) ? t1_0 : t1_1).get(mk(c, i3, r0).get(i0)) + v(t1_0);
      i2 += three(c, i0, t1_1, t1_1.get(i2));
      i2 ^= chain(t1_0);
      i3 ^= chain(t1_1);
    }
    switch (i3) {
    case -5:
      j0 = j0;
      if (r3 instanceof Nd2) {
        switch (((int) j1 << i0) & 7) {
        case 0:
          i2 = i1;
          r1 = r0;
          s0 = cut(s0 + "x");
          break;
        case 2:
          L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
            r0 = r3;
            if (j1 != (long) three(c, i0, r2, i2)) break L2;
            i2 += (i1 >> i3);
            i1 += a0[i2 & 7];
          }
          if (((i3 / (i2 | 1)) != ((i0 + i3) == i0 ? i0 : i3) && j0 <= (j1 / (j1 | 1L)))) return fin(c, j1, i0, r2);
          try {
            o0 = (r3 == r2 ? left(r1) : r1);
          } catch (RuntimeException e1) {
            i3 = i0 ^ code(e1);
            i3 += 0;
            i2 += s0.length();
            s0 = cut(s0 + (char) (65 + (i2 & 15)));
          }
          r3 = left(r1);
        case 7:
          j0 = (long) i2;
          s0 = cut(s0 + j1);
        case 5:
          i0 += h0.get(i1);
          o0 = Integer.valueOf(i3);
          break;
        default:
          i2 = ((a0[i2 & 7] / (i3 | 1)) >>> ((i2 >>> i0) >>> i3));
          i0 = 3;
          o0 = new Object[] {r0, r1, o0};
        }
        i3 = (three(c, i0, left(r1), (i1 % (i1 | 1))) >>> s0.length());
        j1 = ((long) i1 - ((j1 % (j1 | 1L)) + j1));
      }
      i0 += i2;
      break;
    case 3:
      i0 += (r3 instanceof Nd2 ? i2 : i1);
      if ((j1 - sl(c, new Nd((i2 - mk(c, i1, r2).get(i2)), r0), j1, v(r3))) != (j1 - j1)) return fin(c, j1, i0, r0);
      r3 = left(r1);
    case 100000:
      if (r0 != null) return fin(c, j1, i0, r2);
      i1 += (i3 + i1);
      i0 += (i2 - i1);
      i3 += i3;
      break;
    default:
      i2 += v(r1);
      i1 += s0.length();
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m141(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 68, i2 = c.fuel & 15, i3 = -1;
    long j0 = p * 1000003L, j1 = 650136825L;
    double d0 = p, d1 = 7.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    synchronized (lk(c, r0)) {
      synchronized (lk(c, r3)) {
        r2 = r2;
        b0[mk(c, i3, r1).get(i3) & 3] = b0[i3 & 3];
        L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
          if (d1 < d1) {
            f0 = f0 * 0.5f + (float) ((i3 % (i2 | 1)) & 1023);
            if (r0 != r3) continue L1;
            i1 += v(r3);
            o0 = Integer.valueOf(((i3 - i2) + (i0 + i1)));
          } else {
            {
              Nd t2_0 = new Nd(i0, r3);
              t2_0.l = link(c, ((v(r1) > i3 && (i2 >>> i2) <= (i0 & i3)) ? r2 : r3), r1);
              t2_0.v += v(link(c, link(c, r3, r0), r0)) + (three(c, i1, r0, i2) - a0[i3 & 7]);
              j1 = j1 * 31 + sl(c, t2_0, j0, (int) j1);
              t2_0.v += v(r3) + i1;
              i3 = ((j0 >>> i0) > (long) d0 ? t2_0 : t2_0).get(i1) + v(t2_0);
              i3 ^= chain(t2_0);
            }
            i3 += i3;
            if (three(c, i1, r2, i1) > (i0 & i0)) return fin(c, j1, i0, r1);
            h0 = sh(c, i0);
          }
          r2 = null;
          {
            Nd t3_0 = new Nd(((short) v(r1)), r3);
            i1 = (d0 == d0 ? t3_0 : t3_0).get(i3) + v(t3_0);
            i0 += three(c, three(c, i1, r3, i2), t3_0, t3_0.get((i0 + i2)));
            j0 = j0 * 31 + t3_0.lg(c, j1, null);
            d1 = d1 * 0.5 + dl(c, t3_0, d0, t3_0.lg(c, mk(c, (i3 + i3), r3).lg(c, j0, new Nd2(i0, r3, (j1 % (j1 | 1L)))), r3));
            i2 = (r1 == null ? t3_0 : t3_0).get(1000) + v(t3_0);
            i3 ^= chain(t3_0);
          }
        }
      }
      if (d1 >= d0) return fin(c, j1, i0, r2);
      if (r1 instanceof Nd) {
        L4: for (int q4 = 0; q4 < 1 && --c.fuel > 0; ++q4) {
          i2 = (((char) (i3 - i3)) >>> i0);
          b0[2147483647 & 3] = new Nd((2147483647 << (i2 + i0)), null);
          r0 = b0[(i0 >> i3) & 3];
          i0 += i3;
        }
      } else {
        j1 = (j1 - (-823732060201L % (j1 | 1L)));
        i3 += (i2 + i2);
        j1 = j0;
        i3 += i3;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static synchronized long m142(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 88, i2 = c.fuel & 15, i3 = 5;
    long j0 = p * 1000003L, j1 = -859032604L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    a0[(i1 & i0) & 7] = 2;
    try {
      r3 = new Nd((int) (j0 & j0), r3);
      o0 = s0;
      i1 = (int) j0;
    } catch (Ex e1) {
      i1 = i3 ^ code(e1);
      if ((i1 - i3) <= (i1 << i0)) {
        r3 = r3;
        if (((j0 * j0) != (j1 - j1) ? i2 : i0) >= (r1 != null ? i2 : i0)) return fin(c, j1, i0, r1);
        {
          Nd t1_0 = new Nd(i0, null);
          d1 = d1 * 0.5 + dl(c, t1_0, d0, t1_0.lg(c, (j1 & j0), r1));
          j0 = j0 * 31 + sl(c, t1_0, (j1 - j0), (mk(c, i1, r3).get(i0) >= (i2 >>> i1) ? (i3 >> i0) : ((char) i3)));
          i0 ^= chain(t1_0);
        }
      } else {
        h0 = sh(c, i3);
      }
      if (r2 != null) {
        try {
          L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
            i1 = (i3 - (7 ^ ((byte) i1)));
            r2 = (Nd) o0;
            j0 = ((j1 + j1) / j1);
            i1 += a0[i2 & 7];
          }
          j0 ^= Frames5.m133(c, s0.length(), r3);
        } catch (ArrayIndexOutOfBoundsException e2) {
          i3 = i3 ^ code(e2);
          i3 += -2147483647;
          i2 = 100;
        } catch (NullPointerException e3) {
          i3 = i2 ^ code(e3);
          a0[mk(c, i3, r3).get(i2) & 7] = i0;
          a0[7 & 7] = i0;
        } catch (ArithmeticException e4) {
          i3 = i2 ^ code(e4);
          i2 = ((s0.length() + (i1 << i3)) - (i3 % ((i2 % (i2 | 1)) | 1)));
          j1 = (((j1 + j1) % ((r3 != r3 ? j1 : j0) | 1L)) - -805778098054L);
        }
      } else {
        h0 = sh(c, (int) j1);
      }
      i0 += i3;
    } catch (NegativeArraySizeException e5) {
      i2 = i1 ^ code(e5);
      a0[v(r0) & 7] = (i3 + (int) j0);
    } catch (NullPointerException e6) {
      i3 = i3 ^ code(e6);
      if (r3 instanceof Nd2) return fin(c, j1, i0, r2);
      i3 = ((i0 <= (i0 - i0) ? ((short) i1) : s0.length()) - i1);
      h0 = sh(c, ((char) i1));
      r3 = new Nd((o0 instanceof Nd2 ? a0[i3 & 7] : (i0 + i3)), r3);
    } catch (RuntimeException e7) {
      i1 = i2 ^ code(e7);
      i0 = ((char) i0);
      r3 = new Nd2(2147483647, r1, j1);
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m143(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 38, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = -841736710L;
    double d0 = p, d1 = 4.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    {
      Nd t1_0 = new Nd(((i1 + i0) - i3), r2);
      Nd t1_1 = mk(c, v(link(c, r0, r0)), r3);
      d1 = d1 * 0.5 + dl(c, t1_0, d1, t1_0.lg(c, mk(c, sh(c, (i3 * i1)).get(i3), r1).lg(c, j0, new Nd2(i2, null, (j1 * j1))), r1));
      t1_0.v += v(link(c, left(r0), link(c, r2, r1))) + 1000;
      i3 ^= chain(t1_0);
      i3 ^= chain(t1_1);
    }
    r1 = r1;
    r1 = new Nd(i0, r2);
    d0 = d0;
    try {
      if (d0 <= d0) throw new RuntimeException(s0);
      switch (((short) i0) & 7) {
      case 2:
        r3 = new Nd2(((int) j1 / s0.length()), r3, j1);
        i3 = i2;
        break;
      case 0:
        d0 = d1;
        break;
      case 1:
        i2 = (i1 ^ h0.get(5));
        r0 = new Nd((int) j1, r0);
        j0 ^= Frames5.m139(c, ((i1 + i0) + (int) j0), r3);
        i2 = ((int) (long) i1 & i1);
        break;
      }
    } catch (RuntimeException e1) {
      i2 = i0 ^ code(e1);
      i2 = 6954;
      L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
        if (r0 == null) {
          i1 = v(new Nd2(((i0 + i3) & i2), null, j0));
          if ((i2 & i1) == three(c, i1, r1, i0)) break L2;
          h0 = sh(c, (three(c, i2, r2, i1) + 3));
          c.point();
        }
        s0 = cut(s0 + 705130958323L);
        i2 += (int) j0;
      }
    } finally {
      r3 = r3;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m144(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 39, i2 = c.fuel & 15, i3 = 0;
    long j0 = p * 1000003L, j1 = 10978269L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    r3 = new Nd(a0[31 & 7], r1);
    {
      Nd t1_0 = mk(c, ((i2 / (i1 | 1)) / ((i3 & i1) | 1)), left(r2));
      t1_0.v += v(r1) + ((i0 ^ i2) << (i2 - i0));
      i0 += three(c, three(c, i1, r3, i0), t1_0, t1_0.get((i2 - i1)));
      d1 = d1 * 0.5 + dl(c, t1_0, d1, t1_0.lg(c, (j0 - j0), r1));
      i3 += three(c, mk(c, i0, r2).get(i0), t1_0, t1_0.get(-9302));
      i3 ^= chain(t1_0);
    }
    L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
      switch (i0) {
      case 77:
        switch (i0) {
        case -5:
          i1 = (((short) (i0 - i0)) - ((i1 - i0) ^ 0));
          r0 = (((i2 & i2) == three(c, i2, r3, i2) || true) ? r0 : r2);
          break;
        case -100:
          if ((i1 + i2) == (i1 - i3)) return fin(c, j1, i0, r2);
          switch (i0) {
          case -100:
            i3 += (i0 % (i1 | 1));
            break;
          case 3:
            i2 += 31;
            break;
          case 0:
            j0 = (r2 instanceof Nd2 ? (j1 + -39484719973L) : j0);
            break;
          case -5:
            i3 = (a0[(i0 << i2) & 7] >>> ((short) (i1 % (i1 | 1))));
            break;
          case 77:
            {
              Nd t3_0 = mk(c, i3, (r0 == null ? r2 : r1));
              Nd t3_1 = mk(c, v(new Nd(((i3 - i2) >>> h0.get(i3)), r0)), new Nd(h0.get((i3 * i1)), r0));
              t3_0.l = link(c, (r1 != r1 ? r0 : r2), new Nd((v(r1) - (i2 % (i3 | 1))), r3));
              j1 = j1 * 31 + t3_1.lg(c, j0, new Nd2(i1, r1, -586346304009L));
              j1 = j1 * 31 + t3_0.lg(c, (long) d1, left(r1));
              t3_1.v = d1 == d0 ? 1 : 0;
              t3_1.v += v(new Nd(mk(c, i0, r0).get((i1 % (i2 | 1))), null)) + (int) sl(c, r0, j1, (i0 << i1));
              i0 ^= chain(t3_0);
              i3 ^= chain(t3_1);
            }
            i0 += (i3 / (i1 | 1));
            {
              Nd t4_0 = mk(c, ((int) j0 << (i2 ^ i0)), new Nd(i1, r2));
              d1 = d1 * 0.5 + dl(c, t4_0, d0, t4_0.lg(c, (long) d1, r2));
              t4_0.l = link(c, new Nd(mk(c, 0, r0).get(i2), r3), r3);
              t4_0.v += v(new Nd(i2, r1)) + h0.get(i3);
              j1 = j1 * 31 + sl(c, t4_0, j0, (i1 + (i3 - i0)));
              i2 ^= chain(t4_0);
            }
            c.point();
          }
          a0[(i3 >>> i3) & 7] = i3;
          switch (((i3 & i2) / (i2 | 1)) & 7) {
          case 0:
            if (i2 >= (i3 + i3)) continue L2;
            break;
          case 3:
            r3 = new Nd((a0[i1 & 7] >>> (i3 / (i2 | 1))), r0);
            i0 = (-1 << i0);
            c.point();
            break;
          case 1:
            j0 = (d0 == d0 ? j0 : ((j0 % (j0 | 1L)) & (long) (i1 >>> i0)));
            r2 = r1;
            i2 = ((s0.length() & i2) + -2147483647);
            break;
          case 6:
            c.point();
            i3 += i0;
            i3 += ((char) i2);
            break;
          }
        case 1000:
          d0 = dl(c, r1, (double) (i1 ^ i1), 214029000479L);
          j0 ^= Frames5.m140(c, three(c, (i1 + i1), new Nd2((-2147483647 - i3), r2, -41825348175L), (i1 * i3)), r2);
          break;
        case 77:
          r2 = new Nd(i3, null);
        case 3:
          d0 = (double) i2;
          break;
        default:
          {
            Nd t5_0 = mk(c, (((short) i1) & i2), left(r1));
            j1 = j1 * 31 + t5_0.lg(c, -668036661420L, new Nd((int) j0, r3));
            t5_0.v += v(b0[((short) i2) & 3]) + i1;
            t5_0.l = link(c, left(r1), new Nd2(i3, r1, j0));
            i3 += three(c, 1, t5_0, t5_0.get(h0.get(i2)));
            r0 = link(c, r1, new Nd(t5_0.v, r1));
            i1 ^= chain(t5_0);
          }
          i0 += s0.length();
        }
        j1 = j0;
        i3 = ((three(c, i2, r2, i2) + i3) + mk(c, -1, r2).get(7));
        break;
      case 0:
        i3 += (i2 >>> i3);
        break;
      case -5:
        j0 ^= Frames5.m136(c, 7, null);
        j1 = j1;
        o0 = Integer.valueOf(-2147483647);
        break;
      default:
        i1 += (int) j1;
        i0 += i2;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m145(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 13, i2 = c.fuel & 15, i3 = 2;
    long j0 = p * 1000003L, j1 = 104034812L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    c.point();
    i1 = i1;
    d1 = d0;
    c.point();
    j0 ^= Frames5.m135(c, (i0 / ((i2 * i3) | 1)), new Nd2(i2, r2, (r2 != null ? j1 : j0)));
    b0[i0 & 3] = null;
    try {
      j1 = j1;
      r3 = null;
      h0 = sh(c, ((i0 % i2) >>> i2));
      h0 = sh(c, i2);
    } catch (ArrayIndexOutOfBoundsException e1) {
      i0 = i3 ^ code(e1);
      r1 = new Nd(((int) j1 & (i0 >> i2)), r2);
    } catch (ClassCastException e2) {
      i1 = i2 ^ code(e2);
      c.point();
      try {
        r2 = r0;
        i1 = i2;
      } catch (ArithmeticException e3) {
        i2 = i1 ^ code(e3);
        {
          Nd t1_0 = new Nd2(((long) (r3 != null ? i3 : i2) == (long) (i2 ^ i2) ? i3 : i2), r3, j0);
          j0 = j0 * 31 + t1_0.lg(c, sl(c, r3, j1, (i3 - i2)), left(r2));
          t1_0.v = r2 != null ? 1 : 0;
          i2 ^= chain(t1_0);
        }
        b0[three(c, i3, r1, i2) & 3] = r0;
        if (r2 == r2) return fin(c, j1, i0, r2);
      } catch (NegativeArraySizeException e4) {
        i3 = i0 ^ code(e4);
        try {
          if (((r0 == r2 || r0 == null) || ((byte) i0) < (i3 + i1))) {
            i3 += (int) j0;
            {
              Nd t2_0 = mk(c, (v(r0) / (int) j1), r2.l);
              t2_0.v += v(left(r0)) + 2147483647;
              t2_0.v = (i0 + i0) == i3 ? 1 : 0;
              t2_0.v = i2 > (i2 & i2) ? 1 : 0;
              i2 ^= chain(t2_0);
            }
          }
          if (v(r2) < i0) throw new Ex(s0.length());
          i2 += i0;
        } catch (NegativeArraySizeException e5) {
          i2 = i0 ^ code(e5);
          i0 += (int) j0;
          i1 = three(c, i2, new Nd(i0, null), (i2 / ((true ? i1 : i2) | 1)));
          r2 = r3;
          i3 += (i2 + i3);
        } catch (Ex e6) {
          i3 = i2 ^ code(e6);
          r1 = left(r2);
          r0 = (r3 != r3 ? left(r3) : link(c, new Nd2(i2, null, (j1 + j0)), new Nd((int) (j0 << i1), r1)));
          i2 += (i2 ^ i2);
          i2 += 65535;
        } catch (ArrayIndexOutOfBoundsException e7) {
          i0 = i3 ^ code(e7);
          i1 += (d0 <= d1 ? i3 : i3);
          i3 += i2;
        } catch (RuntimeException e8) {
          i1 = i3 ^ code(e8);
          j0 = j1;
          i2 = i1;
        }
        i1 += (int) j1;
        {
          Nd t3_0 = new Nd(i2, r1);
          Nd t3_1 = new Nd2(i0, r1, ((long) i1 + (j0 - j0)));
          i3 += three(c, i1, t3_1, t3_0.get(i1));
          i1 += three(c, (i0 / (i2 | 1)), t3_0, t3_1.get(three(c, i1, r3, i1)));
          j0 = j0 * 31 + sl(c, t3_0, (long) three(c, i3, r3, i3), i0);
          i3 = (r0 != r1 ? t3_1 : t3_0).get((i3 + i2)) + v(t3_1);
          i2 += three(c, 3, t3_0, t3_0.get(mk(c, i2, r3).get(i1)));
          i3 ^= chain(t3_0);
          i0 ^= chain(t3_1);
        }
        if ((j1 % (j0 | 1L)) > (long) d0) return fin(c, j1, i0, r2);
      } catch (NullPointerException e9) {
        i0 = i2 ^ code(e9);
        i2 = three(c, i1, new Nd2(i3, r3, (long) h0.get(i1)), i1);
        d1 = d0;
        i0 += i2;
      } finally {
        c.point();
        i1 += (int) j1;
        i3 += 1;
      }
      i1 = 65535;
    } catch (NullPointerException e10) {
      i2 = i0 ^ code(e10);
      j0 ^= Frames5.m134(c, i0, r1);
      b0[a0[i3 & 7] & 3] = r0;
      i1 = v(new Nd2(v(r3), null, sl(c, new Nd(((char) (i1 + i1)), r2), j0, three(c, i1, r2, i1))));
    } catch (RuntimeException e11) {
      i1 = i3 ^ code(e11);
      d1 = d1;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m146(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 23, i2 = c.fuel & 15, i3 = -3;
    long j0 = p * 1000003L, j1 = 173566426L;
    double d0 = p, d1 = 3.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    i0 = 31;
    i2 = (((i3 - i2) ^ a0[i0 & 7]) + v(r1));
    i2 = 1000;
    i0 = 1000;
    L1: for (int q1 = 0; q1 < 4 && --c.fuel > 0; ++q1) {
      c.point();
      j1 = sl(c, r2, (long) i1, i0);
    }
    j0 ^= Frames5.m141(c, 31, left(r2));
    j0 = -252780608406L;
    switch ((i2 + i1) & 7) {
    case 2:
      b0[v(r1) & 3] = null;
      try {
        if (r0 instanceof Nd) return fin(c, j1, i0, r3);
      } catch (Ex e1) {
        i3 = i3 ^ code(e1);
        if (r1 == r1) return fin(c, j1, i0, r2);
        if (d0 > d1) return fin(c, j1, i0, r0);
      } catch (NegativeArraySizeException e2) {
        i2 = i1 ^ code(e2);
        synchronized (lk(c, r0)) {
          j1 = j0;
        }
        h0 = sh(c, (7 & i3));
        i3 = i0;
      } catch (RuntimeException e3) {
        i0 = i0 ^ code(e3);
        r3 = ((i1 & i0) >= 5 ? new Nd(i3, null) : (r3 == null ? r2 : r3));
      }
      try {
        if (r0 == r3) return fin(c, j1, i0, r0);
        L2: for (int q2 = 0; q2 < 3 && --c.fuel > 0; ++q2) {
          {
            Nd t3_0 = new Nd2(7, r2, j0);
            t3_0.l = link(c, r0, link(c, r1, r3));
            t3_0.l = link(c, r3.l, new Nd(i3, r3));
            r1 = link(c, r0, new Nd(t3_0.v, r3));
            i3 += three(c, h0.get(i2), t3_0, t3_0.get((i0 + i1)));
            i1 = ((i3 + i1) < (i0 & i3) ? t3_0 : t3_0).get(h0.get(i0)) + v(t3_0);
            i3 ^= chain(t3_0);
          }
          j0 = (long) i1;
          s0 = cut(s0 + "x");
          a0[(i2 & i2) & 7] = h0.get((i1 + i1));
        }
      } catch (ArrayIndexOutOfBoundsException e4) {
        i2 = i2 ^ code(e4);
        {
          Nd t4_0 = mk(c, (i3 - i2), r3);
          i1 = (r3 != null ? t4_0 : t4_0).get((i2 + i1)) + v(t4_0);
          t4_0.l = link(c, r2, new Nd((i0 + (i2 * i1)), r0));
          i1 ^= chain(t4_0);
        }
        r0 = r3;
        {
          Nd t5_0 = new Nd2(i1, r3, (long) a0[i2 & 7]);
          t5_0.v += v(null) + i0;
          t5_0.l = link(c, r3, new Nd2(((i3 - i0) + (i2 & i2)), r1, (j0 - j1)));
          j0 = j0 * 31 + sl(c, t5_0, mk(c, (i2 % (i1 | 1)), r2).lg(c, j0, r2), 1000);
          t5_0.l = link(c, null, left(r1));
          i2 ^= chain(t5_0);
        }
        r2 = null;
      } catch (NegativeArraySizeException e5) {
        i1 = i2 ^ code(e5);
        i3 += v(r3);
        r1 = new Nd2((5 % (i3 | 1)), r0, j0);
        i0 += (i2 >> i1);
        i2 += (i1 % (i1 | 1));
      } catch (NullPointerException e6) {
        i0 = i3 ^ code(e6);
        s0 = cut(s0 + "x");
        i1 += a0[i0 & 7];
      } catch (RuntimeException e7) {
        i1 = i0 ^ code(e7);
        i3 = ((char) i1);
      }
      i2 = i0;
      break;
    case 0:
      i2 = (((i1 << i1) ^ i2) / (i0 | 1));
      i0 += (i3 / (i2 | 1));
      i0 += (i2 + i1);
      break;
    case 3:
      i3 += (i1 * i1);
      i1 = ((byte) -2147483647);
      break;
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m147(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 59, i2 = c.fuel & 15, i3 = -3;
    long j0 = p * 1000003L, j1 = -600239565L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    {
      Nd t1_0 = mk(c, ((i2 + i3) * (i1 / (i3 | 1))), new Nd((2147483647 / (i2 | 1)), r2));
      Nd t1_1 = new Nd((i3 + (i1 >> i0)), r2);
      t1_1.v = ((i2 == i1 ? i1 : i2) <= i2 || r2 != null) ? 1 : 0;
      t1_0.v = s0.length() > 1 ? 1 : 0;
      i2 ^= chain(t1_0);
      i0 ^= chain(t1_1);
    }
    r3 = null;
    i0 = i0;
    L2: for (int q2 = 0; q2 < 1 && --c.fuel > 0; ++q2) {
      r2 = new Nd((i1 + i1), r3);
      i1 = three(c, i2, b0[v(r0) & 3], (sh(c, i2).get(i0) * 100));
      switch (31 & 7) {
      case 1:
        L3: for (int q3 = 0; q3 < 1 && --c.fuel > 0; ++q3) {
          i1 = i3;
          try {
            d1 = (double) 65535;
            i3 += (i2 + i1);
            i0 = (-2147483647 ^ i1);
            i2 += (i3 - i0);
          } catch (ArrayIndexOutOfBoundsException e1) {
            i2 = i0 ^ code(e1);
            {
              Nd t4_0 = new Nd2(v(r3), r1, (j1 + (long) v(r1)));
              i3 += three(c, i3, t4_0, t4_0.get(mk(c, i2, r3).get(i0)));
              r1 = link(c, r2, new Nd(t4_0.v, r1));
              i3 ^= chain(t4_0);
            }
            i1 = i2;
            i0 += (int) j0;
            {
              Nd t5_0 = mk(c, (i1 + 1), r1);
              i3 += three(c, s0.length(), t5_0, t5_0.get((i2 >> i3)));
              r2 = link(c, r0, new Nd(t5_0.v, r3));
              i0 ^= chain(t5_0);
            }
          } catch (RuntimeException e2) {
            i0 = i3 ^ code(e2);
            r2 = new Nd(-4552, r1);
            if (r3 instanceof Nd) break;
          } finally {
            {
              Nd t6_0 = new Nd(5, r3);
              t6_0.v += v(new Nd(v(r3), r3)) + i0;
              j0 = j0 * 31 + sl(c, t6_0, (j1 * j0), (i0 * (i3 >> i1)));
              t6_0.v += v(null) + i1;
              i2 ^= chain(t6_0);
            }
            h0 = sh(c, (i2 + s0.length()));
            if (r0 == r2) j0 ^= fin(c, j1, i0, r0);
            b0[(i3 - i1) & 3] = link(c, new Nd(i1, r0), new Nd((a0[i3 & 7] + 0), r3));
          }
          d0 = d0;
          i3 = ((char) mk(c, v(r3), r3).get(v(r1)));
        }
      case 7:
        i1 = i1;
      case 6:
        r1 = ((i3 + i1) >= i0 ? r0 : r1);
        i1 += (((i0 ^ i3) > i2 ? i0 : i3) >= i2 ? i2 : i0);
        i2 = i3;
        break;
      case 0:
        j1 = j0;
        break;
      }
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m148(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 26, i2 = c.fuel & 15, i3 = 4;
    long j0 = p * 1000003L, j1 = 757843842L;
    double d0 = p, d1 = 8.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    try {
      L1: for (int q1 = 0; q1 < 1 && --c.fuel > 0; ++q1) {
        b0[i1 & 3] = r1;
        i2 = i3;
      }
      {
        Nd t2_0 = new Nd2(s0.length(), r1, j0);
        Nd t2_1 = mk(c, (three(c, i1, r2, i1) >>> i3), new Nd(i2, r1));
        r2 = link(c, r1, new Nd(t2_1.v, r2));
        j1 = j1 * 31 + sl(c, t2_0, (long) i3, three(c, (r0 == null ? i1 : i1), new Nd((((byte) i3) ^ v(r0)), r2), h0.get(i1)));
        i0 += three(c, i2, t2_0, t2_1.get(a0[i0 & 7]));
        j0 = j0 * 31 + t2_1.lg(c, (j0 << 0), r2);
        i3 ^= chain(t2_0);
        i1 ^= chain(t2_1);
      }
      synchronized (lk(c, r0)) {
        if (i3 >= (i1 * i1)) return fin(c, j1, i0, r0);
      }
    } catch (RuntimeException e1) {
      i3 = i1 ^ code(e1);
      i2 = sh(c, a0[i1 & 7]).get(((i0 << i0) % ((i3 * i3) | 1)));
      try {
        synchronized (lk(c, r2)) {
          r1 = left(r1);
          r2 = new Nd(((i2 & i0) <= -1 ? three(c, i0, r0, i0) : i1), r0);
          r2 = new Nd2(((char) (i2 * i0)), r1, j1);
        }
        i3 = v(r0);
        L3: for (int q3 = 0; q3 < 1 && --c.fuel > 0; ++q3) {
          i3 = 3;
          r1 = r3;
        }
        i0 = (((i0 * i1) & 5) + ((i1 + i1) * i0));
      } catch (NegativeArraySizeException e2) {
        i0 = i2 ^ code(e2);
        r1 = null;
        d1 = (d0 + (d1 - d1));
        o0 = Integer.valueOf(v((((i0 - i0) != (i1 ^ i2) && d1 > d1) ? r1 : r1)));
      } catch (RuntimeException e3) {
        i0 = i2 ^ code(e3);
        h0 = sh(c, (100 << (i1 + i1)));
        {
          Nd t4_0 = new Nd((65535 << 7), r3);
          Nd t4_1 = new Nd2(i3, r3, ((j1 >>> i3) & j1));
          t4_1.l = link(c, b0[(i0 + i3) & 3], ((d1 < d1 ? i0 : i2) <= (i3 ^ i0) ? r3 : r1));
          d1 = d1 * 0.5 + dl(c, t4_1, d0, t4_0.lg(c, j0, r3));
          j1 = j1 * 31 + sl(c, t4_0, j1, a0[((short) i3) & 7]);
          t4_1.l = link(c, link(c, r2, r3), new Nd(h0.get(1000), r1));
          i1 ^= chain(t4_0);
          i0 ^= chain(t4_1);
        }
        try {
          i3 += i2;
          r0 = new Nd(i0, r1);
        } catch (RuntimeException e4) {
          i1 = i2 ^ code(e4);
          if (r0 == null) return fin(c, j1, i0, r0);
          {
            Nd t5_0 = mk(c, v(r1), new Nd(((byte) i1), r3));
            Nd t5_1 = mk(c, (v(r3) >> 1), new Nd(-2147483647, r2));
            i2 = (((i3 / (i2 | 1)) == (i3 & i1) ? i0 : i2) >= (i1 - i2) ? t5_1 : t5_0).get(a0[i1 & 7]) + v(t5_1);
            j1 = j1 * 31 + t5_1.lg(c, (long) d1, new Nd(s0.length(), r3));
            i1 ^= chain(t5_0);
            i0 ^= chain(t5_1);
          }
        }
        o0 = new Nd(i3, r1);
      }
      i3 = three(c, ((i1 * i2) <= (i1 ^ i2) ? ((short) i2) : (i3 / (i1 | 1))), r1, (-2025 >>> (i0 ^ i2)));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }

  static long m149(Frames.Ctx c, int p, Nd r) {
    if (--c.fuel < 0) return p;
    int i0 = p, i1 = p * 31 + 83, i2 = c.fuel & 15, i3 = 3;
    long j0 = p * 1000003L, j1 = -501078742L;
    double d0 = p, d1 = 9.5;
    float f0 = p;
    Nd r0 = r, r1 = new Nd(p, null), r2 = null, r3 = r0;
    int[] a0 = new int[8];
    Nd[] b0 = new Nd[4];
    Object o0 = r1;
    String s0 = "s";
    Shape h0 = sh(c, p);
    synchronized (lk(c, r3)) {
      r0 = r3;
      a0[100 & 7] = (int) j0;
    }
    j0 ^= Frames5.m137(c, ((i2 & i1) % (v(r2) | 1)), r3);
    L1: for (int q1 = 0; q1 < 2 && --c.fuel > 0; ++q1) {
      a0[(i2 >>> i3) & 7] = i3;
      L2: for (int q2 = 0; q2 < 2 && --c.fuel > 0; ++q2) {
        i0 = 1000;
        i3 = (i2 - (i1 / (v(r1) | 1)));
      }
      c.point();
    }
    j1 = (31 != i1 ? j1 : -636810999989L);
    h0 = sh(c, ((i2 >>> i2) - mk(c, i0, r3).get(i1)));
    r3 = r3;
    r2 = null;
    synchronized (lk(c, r2)) {
      if ((i3 >> i1) == (i1 >>> i3)) {
        o0 = Integer.valueOf(i3);
      } else {
        i0 = 0;
      }
      r3 = r3;
    }
    i2 = 0;
    switch (i1 & 7) {
    case 1:
      i1 += a0[i1 & 7];
      break;
    case 4:
      r2 = left(r2);
    case 2:
      a0[(i1 >> i2) & 7] = mk(c, i3, r3).get(2);
      i2 = ((three(c, i2, r1, i3) % (v(r2) | 1)) / (three(c, mk(c, i3, r3).get(i2), r3, (i2 << i1)) | 1));
      h0 = sh(c, (i0 ^ (int) j0));
    case 3:
      r0 = new Nd((i2 - (i2 - i2)), r2);
      h0 = sh(c, (v(r0) ^ mk(c, i0, r0).get(i0)));
      break;
    default:
      i2 = i3;
      if ((a0[i0 & 7] > 31 || d1 < d0)) return fin(c, j1, i0, r0);
      i0 += (i1 & i1);
      j0 ^= Frames5.m141(c, i1, link(c, left(r1), r1));
    }
    return fin(c, j0 ^ j1 ^ Double.doubleToLongBits(d0 * 0.5 + d1) ^ (long) f0, i0 * 31 + i1 * 17 + i2 * 7 + i3 + s0.hashCode() + sum(a0) + sum(b0) + kind(o0),
      link(c, r0, link(c, r1, link(c, r2, r3))));
  }
}

package w;

import sim.Sim;
import java.io.*;
import java.util.*;

/** File streams against a model of the file's bytes; the disk fails, tears and shortens transfers. */
public class Files extends W {
  static boolean err;   // I/O errors are injected
  static int stamp;
  static void io(IOException e, String what) {
    if (!err) fail(what + " failed without a fault: " + describe(e));
    Sim.probe("io exception");
  }
  static byte[] bytes(Rng r, int n) {
    byte[] b = new byte[n];
    for (int i = 0; i < n; ++i) b[i] = (byte) r.next();
    return b;
  }
  static byte[] cat(byte[] a, int an, byte[] b, int bn) {
    byte[] r = new byte[an + bn];
    System.arraycopy(a, 0, r, 0, an);
    System.arraycopy(b, 0, r, an, bn);
    return r;
  }
  static byte[] disk(String p) {
    byte[] d = Sim.get(p);
    return d == null ? new byte[0] : d;
  }
  static void same(byte[] a, byte[] b, String what) {
    if (a.length != b.length) {
      fail(what + ": " + a.length + " bytes instead of " + b.length);
      return;
    }
    for (int i = 0; i < a.length; ++i)
      if (a[i] != b[i]) {
        fail(what + ": byte " + i + " of " + a.length + " is " + a[i] + " instead of " + b[i]);
        return;
      }
  }

  // ---- one thread's file
  static class One extends T {
    final Rng r;
    final String path;
    byte[] model = new byte[0];
    final int sessions;
    One(int me, Rng r, int sessions) {
      super(me);
      this.r = r;
      this.path = "/sim/cwd/f" + me;
      this.sessions = sessions;
    }

    public void go() throws Exception {
      for (int s = 0; s < sessions; ++s) {
        switch (r.below(model.length == 0 ? 3 : 7)) {
        case 0: case 1: case 2: write(); break;
        case 3: case 4: read(); break;
        case 5: case 6: random(); break;
        }
      }
      same(disk(path), model, "the file in the end");
    }

    void write() throws Exception {
      boolean append = r.chance(50);
      FileOutputStream f;
      try {
        f = append || r.chance(50) ? new FileOutputStream(path, append) : new FileOutputStream(new File(path));
      } catch (IOException e) {
        io(e, "open");
        same(disk(path), model, "after a failed open");
        return;
      }
      byte[] base = append ? model : new byte[0];
      byte[] all = base;
      int sure = base.length;
      int buf = r.chance(50) ? 0 : r.between(1, 24);
      boolean data = r.chance(25);
      OutputStream o = buf == 0 ? f : new BufferedOutputStream(f, buf);
      DataOutputStream d = data ? new DataOutputStream(o) : null;
      boolean failed = false;
      try {
        for (int k = r.between(1, 6); k > 0; --k) {
          byte[] x = bytes(r, r.chance(30) ? r.between(0, 200) : r.between(0, 20));
          switch (r.below(data ? 8 : 4)) {
          case 0: {
            all = cat(all, all.length, x, x.length);
            o.write(x);
            break;
          }
          case 1: {
            int off = r.below(x.length + 1), n = r.below(x.length - off + 1);
            byte[] y = new byte[n];
            System.arraycopy(x, off, y, 0, n);
            all = cat(all, all.length, y, n);
            o.write(x, off, n);
            break;
          }
          case 2: {
            int c = r.next();
            all = cat(all, all.length, new byte[] {(byte) c}, 1);
            o.write(c);
            break;
          }
          case 3:
            o.flush();
            break;
          case 4: {
            int v = r.next() * 31 + r.next();
            all = cat(all, all.length, new byte[] {(byte) (v >> 24), (byte) (v >> 16), (byte) (v >> 8), (byte) v}, 4);
            d.writeInt(v);
            break;
          }
          case 5: {
            int v = r.next();
            all = cat(all, all.length, new byte[] {(byte) (v >> 8), (byte) v}, 2);
            d.writeShort(v);
            break;
          }
          case 6: {
            long v = r.next() * 0x123456789L;
            byte[] y = new byte[8];
            for (int i = 0; i < 8; ++i) y[i] = (byte) (v >> (56 - 8 * i));
            all = cat(all, all.length, y, 8);
            d.writeLong(v);
            break;
          }
          case 7: {
            String s = "x\u00e9" + stamp;
            byte[] u = s.getBytes("UTF-8");
            all = cat(all, all.length, new byte[] {(byte) (u.length >> 8), (byte) u.length}, 2);
            all = cat(all, all.length, u, u.length);
            d.writeUTF(s);
            break;
          }
          }
          if (buf == 0) sure = all.length;
        }
        o.flush();
        sure = all.length;
        byte[] now = disk(path);
        same(now, all, "the file after flush");
      } catch (IOException e) {
        io(e, "write");
        failed = true;
      }
      try {
        if (failed || r.chance(50)) f.close(); else if (data) d.close(); else o.close();
        f.close();
      } catch (IOException e) {
        io(e, "close");
      }
      byte[] now = disk(path);
      if (failed) {
        if (now.length < sure) fail("after an error the file has " + now.length + " bytes, " + sure + " were written");
        if (now.length > all.length) fail("after an error the file has " + now.length + " bytes, only " + all.length + " were given");
        byte[] cut = new byte[Math.min(now.length, all.length)];
        System.arraycopy(all, 0, cut, 0, cut.length);
        same(now, cut, "the file after an error");
        model = now;
      } else {
        same(now, all, "the file after close");
        model = all;
      }
    }

    void read() throws Exception {
      FileInputStream f;
      try {
        f = new FileInputStream(path);
      } catch (IOException e) {
        io(e, "open");
        return;
      }
      int buf = r.chance(50) ? 0 : r.between(1, 24);
      InputStream in = buf == 0 ? f : new BufferedInputStream(f, buf);
      int at = 0, errors = 0;
      int ops = r.between(3, 30);
      for (int k = 0; k < ops; ++k) {
        byte[] b = null;
        boolean skip = false;
        int off = 0, len = 0;
        try {
          switch (r.below(8)) {
          case 0: case 1: {
            int c = in.read();
            if (at >= model.length) {
              if (c != -1) fail("read beyond the end gives " + c);
            } else {
              if (c != (model[at] & 0xff)) fail("read at " + at + " gives " + c + " instead of " + (model[at] & 0xff));
              ++at;
            }
            break;
          }
          case 2: {
            int n = r.between(1, 30);
            if (buf != 0) break;
            skip = true;
            long s = f.skip(n);
            if (s < 0 || s > n || at + s > model.length) fail("skip(" + n + ") gives " + s + " at " + at + " of " + model.length);
            at += (int) s;
            break;
          }
          case 3: {
            int a = in.available();
            if (a < 0 || a > model.length - at) fail("available gives " + a + " at " + at + " of " + model.length);
            break;
          }
          default: {
            len = r.between(1, 40);
            off = r.below(4);
            b = new byte[off + len + r.below(4)];
            for (int i = 0; i < b.length; ++i) b[i] = (byte) 0xa5;
            int n = in.read(b, off, len);
            if (at >= model.length) {
              if (n != -1) fail("read beyond the end gives " + n);
              n = 0;
            } else if (n <= 0 || n > len || at + n > model.length)
              fail("read of " + len + " gives " + n + " at " + at + " of " + model.length);
            for (int i = 0; i < n; ++i)
              if (b[off + i] != model[at + i])
                fail("read gives byte " + b[off + i] + " at " + (at + i) + " instead of " + model[at + i]);
            for (int i = 0; i < b.length; ++i)
              if ((i < off || i >= off + n) && b[i] != (byte) 0xa5)
                fail("read of " + len + " at " + off + " gave " + n + " bytes and changed byte " + i + " of the array");
            at += n;
          }
          }
        } catch (IOException e) {
          io(e, "read");
          // an unbuffered read that fails transfers nothing
          if (skip || buf != 0 && b != null) break;
          if (++errors > 3) break;
        }
      }
      try {
        in.close();
      } catch (IOException e) {
        io(e, "close");
      }
      try {
        f.close();
        if (f.read() != -1) fail("a closed stream is still readable");
      } catch (IOException e) {
      }
    }

    void random() throws Exception {
      RandomAccessFile f;
      boolean rw = r.chance(60);
      try {
        f = new RandomAccessFile(path, rw ? "rw" : "r");
      } catch (IOException e) {
        io(e, "open");
        return;
      }
      int pos = 0;
      try {
        for (int k = r.between(2, 12); k > 0; --k) {
          switch (r.below(rw ? 6 : 4)) {
          case 0:
            pos = r.below(model.length + 1);
            f.seek(pos);
            break;
          case 1: {
            if (pos >= model.length) break;
            int n = r.between(1, model.length - pos);
            byte[] b = new byte[n + 2];
            b[0] = b[n + 1] = 7;
            f.readFully(b, 1, n);
            if (b[0] != 7 || b[n + 1] != 7) fail("readFully wrote beside its range");
            for (int i = 0; i < n; ++i) if (b[i + 1] != model[pos + i]) fail("readFully: wrong byte at " + (pos + i));
            pos += n;
            break;
          }
          case 2: {
            int c = f.read();
            if (pos >= model.length ? c != -1 : c != (model[pos] & 0xff)) fail("RandomAccessFile.read gives " + c + " at " + pos);
            if (c != -1) ++pos;
            break;
          }
          case 3:
            if (f.length() != model.length) fail("length " + f.length() + " instead of " + model.length);
            if (f.getFilePointer() != pos) fail("file pointer " + f.getFilePointer() + " instead of " + pos);
            break;
          default: {
            int c = r.next();
            f.write(c);
            if (pos >= model.length) model = cat(model, model.length, new byte[1], 1);
            else model = cat(model, model.length, new byte[0], 0);
            model[pos++] = (byte) c;
            break;
          }
          }
          same(disk(path), model, "the file after an access");
          if (f.getFilePointer() != pos) fail("file pointer " + f.getFilePointer() + " instead of " + pos);
        }
      } catch (IOException e) {
        io(e, "random access");
      }
      f.close();
      same(disk(path), model, "the file after random access");
    }
  }
  void streams() throws Exception {
    int n = rng.between(1, 3);
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i) ts[i] = new One(i, new Rng(rng.next() & 0xfffff), skipped(step()) ? 0 : rng.between(2, 7));
    runAll(ts);
  }

  // ---- names in a shared directory
  static long names(int op, long a, long b) throws Exception {
    File f = new File("/sim/cwd/n" + a), g = new File("/sim/cwd/n" + b);
    switch (op) {
    case 0: return f.createNewFile() ? 1 : 0;
    case 1: return f.delete() ? 1 : 0;
    case 2: return f.renameTo(g) ? 1 : 0;
    case 3: return f.exists() ? 1 : 0;
    case 4: return f.isFile() ? 1 : 0;
    case 5: return new File("/sim/cwd/none" + a).renameTo(f) ? 1 : 0;
    case 6: return f.canRead() ? 1 : 0;
    }
    throw new IllegalStateException();
  }
  void names() throws Exception {
    final int n = rng.between(2, 4);
    Sim.log("cfg names");
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i) {
      final int[][] ops = new int[rng.between(2, 6)][];
      for (int k = 0; k < ops.length; ++k) {
        boolean s = skipped(step());
        ops[k] = new int[] {rng.chance(50) ? rng.below(2) : rng.below(7), rng.below(3), rng.below(3)};
        if (s) ops[k] = null;
      }
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int k = 0; k < ops.length; ++k) {
            int[] o = ops[k];
            if (o == null) continue;
            Sim.point();
            Sim.ev(me, 0, o[0], o[1], o[2]);
            long r = names(o[0], o[1], o[2]);
            Sim.ev(me, 1, o[0], r, 0);
          }
        }
      };
    }
    runAll(ts);
    String[] l = new File("/sim/cwd").list();
    int m = 0;
    for (int i = 0; i < l.length; ++i)
      if (l[i].startsWith("n")) {
        int bit = 1 << (l[i].charAt(1) - '0');
        if ((m & bit) != 0) fail("a name is listed twice");
        m |= bit;
      }
    for (int a = 0; a < 3; ++a) {
      boolean e = new File("/sim/cwd/n" + a).exists();
      if (e != ((m & 1 << a) != 0)) fail("list and exists differ for n" + a);
      Sim.ev(9, 0, 3, a, 0);
      Sim.ev(9, 1, 3, e ? 1 : 0, 0);
    }
  }

  // ---- temporary files: every one is new
  void temps() throws Exception {
    final int n = rng.between(2, 4), per = rng.between(1, 4);
    final String[] made = new String[n * per];
    final boolean keep = rng.chance(70);
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i)
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int k = 0; k < per; ++k) {
            File f = File.createTempFile("t", ".x", new File("/sim/tmp"));
            if (!f.isFile() || f.length() != 0) fail("a temporary file that is not an empty file");
            FileOutputStream o = new FileOutputStream(f);
            o.write(me);
            Sim.point();
            o.write(k);
            o.close();
            byte[] d = disk(f.getPath());
            if (d.length != 2 || d[0] != me || d[1] != k) fail("a temporary file is used by another thread: " + f.getPath());
            made[me * per + k] = f.getPath();
          }
        }
      };
    runAll(ts);
    for (int i = 0; i < made.length; ++i)
      for (int k = 0; k < i; ++k)
        if (made[i].equals(made[k])) fail("the same temporary file was made twice: " + made[i]);
    for (int i = 0; i < made.length; ++i) if (!new File(made[i]).delete()) fail("a temporary file is gone");
  }

  // ---- several threads append records to one file
  void append() throws Exception {
    final int n = rng.between(2, 4), per = rng.between(1, 8);
    final boolean shared = rng.chance(50);
    final FileOutputStream[] os = new FileOutputStream[n];
    final boolean[] wrote = new boolean[n * per];
    for (int i = 0; i < n; ++i) {
      try {
        os[i] = shared && i > 0 ? os[0] : new FileOutputStream("/sim/cwd/log", true);
      } catch (IOException e) {
        io(e, "open");
        for (int k = 0; k < i; ++k) os[k].close();
        return;
      }
    }
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i) {
      final int len = rng.between(3, 40);
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int k = 0; k < per; ++k) {
            byte[] b = new byte[len];
            for (int x = 0; x < len; ++x) b[x] = (byte) (me * 16 + k);
            b[0] = (byte) len;
            try {
              os[me].write(b);
              wrote[me * per + k] = true;
            } catch (IOException e) {
              io(e, "append");
            }
          }
        }
      };
    }
    runAll(ts);
    byte[] d = disk("/sim/cwd/log");
    int[] last = new int[n];
    int at = 0;
    while (at < d.length) {
      int len = d[at], id = d[at + 1] & 0xff, who = id / 16, k = id % 16;
      if (at + len > d.length) fail("an incomplete record");
      for (int x = 1; x < len; ++x) if ((d[at + x] & 0xff) != id) fail("records are mixed");
      if (!wrote[who * per + k]) fail("a record that failed is there");
      wrote[who * per + k] = false;
      if (k < last[who]) fail("records of a thread in another order");
      last[who] = k;
      at += len;
    }
    for (int i = 0; i < wrote.length; ++i) if (wrote[i]) fail("a record is lost");
    for (int i = 0; i < n; ++i)
      try {
        os[i].close();
      } catch (IOException e) {
        io(e, "close");
      }
  }

  // ---- threads share a reader: each byte is delivered once
  void shared() throws Exception {
    final int n = rng.between(2, 4), size = rng.between(1, 300);
    byte[] d = new byte[size];
    for (int i = 0; i < size; ++i) d[i] = (byte) i;
    Sim.put("/sim/cwd/in", d);
    final FileInputStream in;
    try {
      in = new FileInputStream("/sim/cwd/in");
    } catch (IOException e) {
      io(e, "open");
      return;
    }
    final int[] seen = new int[256];
    T[] ts = new T[n];
    for (int i = 0; i < n; ++i) {
      final int len = rng.between(1, 40);
      ts[i] = new T(i) {
        public void go() throws Exception {
          int last = -1;
          for (;;) {
            byte[] b = new byte[len];
            int c;
            try {
              if (len == 1) {
                c = in.read();
                if (c >= 0) {
                  b[0] = (byte) c;
                  c = 1;
                }
              } else
                c = in.read(b);
            } catch (IOException e) {
              io(e, "read");
              continue;
            }
            if (c == -1) return;
            if (c <= 0 || c > len) fail("read gives " + c);
            synchronized (seen) {
              for (int k = 0; k < c; ++k) {
                ++seen[b[k] & 0xff];
                if (k > 0 && (byte) (b[k - 1] + 1) != b[k]) fail("bytes of one read are not consecutive");
              }
            }
          }
        }
      };
    }
    runAll(ts);
    for (int i = 0; i < 256; ++i) {
      int want = size / 256 + (i < size % 256 ? 1 : 0);
      if (seen[i] != want) fail("byte " + i + " was read " + seen[i] + " times instead of " + want);
    }
    in.close();
  }

  // ---- the disk fills up
  void full() throws Exception {
    final int limit = rng.below(300);
    byte[] all = new byte[0];
    boolean failed = false;
    Sim.put("/sim/cwd/big", new byte[0]);
    FileOutputStream o = new FileOutputStream("/sim/cwd/big");
    Sim.diskLimit(limit);
    int sure = 0;
    try {
      for (int k = 0; k < 12; ++k) {
        byte[] x = bytes(rng, rng.between(1, 60));
        all = cat(all, all.length, x, x.length);
        o.write(x);
        sure = all.length;
      }
    } catch (IOException e) {
      failed = true;
    }
    byte[] d = disk("/sim/cwd/big");
    if (sure > limit || d.length > limit) fail("more was written than there is room for");
    if (d.length < sure || d.length > all.length) fail(d.length + " bytes are there, " + sure + " were written");
    for (int i = 0; i < d.length; ++i) if (d[i] != all[i]) fail("wrong byte " + i + " on the full disk");
    if (!failed && d.length != all.length) fail("a full disk went unnoticed");
    Sim.diskLimit(-1);
    // room again
    if (failed) {
      byte[] x = bytes(rng, 20);
      o.write(x);
      same(disk("/sim/cwd/big"), cat(d, d.length, x, 20), "after the disk has room again");
    }
    o.close();
  }

  void warm() throws Exception {
    new One(0, new Rng(5), 12).go();
    new File("/sim/cwd/f0").delete();
  }
  void run() throws Exception {
    err = param("err", 0) != 0;
    String[] l = new File("/sim/cwd").list();
    for (int i = 0; i < l.length; ++i) new File("/sim/cwd/" + l[i]).delete();
    int fds = Sim.openFds();
    switch (param("m", 0)) {
    case 0: streams(); break;
    case 1: names(); break;
    case 2: temps(); break;
    case 3: append(); break;
    case 4: shared(); break;
    case 5: full(); break;
    }
    if (Sim.openFds() != fds) fail("descriptors leak: " + (Sim.openFds() - fds));
  }
}

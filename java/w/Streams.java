package w;

import sim.Sim;
import java.io.*;
import java.util.*;
import java.util.zip.*;

/** Streams of text, data, objects and compressed bytes against the sequence that was written, however transfers are cut. */
public class Streams extends W {
  static boolean err;

  // ---- sources and sinks
  /** gives what it has in pieces that the simulator chooses */
  static class Chop extends InputStream {
    final byte[] d;
    int p;
    Chop(byte[] d) {
      this.d = d;
    }
    public int read() {
      return p < d.length ? d[p++] & 0xff : -1;
    }
    public int read(byte[] b, int off, int n) {
      if (n == 0) return 0;
      if (p == d.length) return -1;
      if (n > d.length - p) n = d.length - p;
      int cut = Sim.choose(4);
      if (cut == 1)
        n = 1;
      else if (cut > 1)
        n -= Sim.choose(n);
      System.arraycopy(d, p, b, off, n);
      p += n;
      return n;
    }
    public int available() {
      return p < d.length && Sim.choose(2) == 0 ? 1 : 0;
    }
  }

  static int files;
  static String path() {
    return "/sim/cwd/s" + ++files;
  }
  /** the bytes as an input of some kind */
  static InputStream source(Rng r, byte[] d) throws IOException {
    InputStream in;
    if (r.chance(30)) {
      String p = path();
      Sim.put(p, d);
      in = new FileInputStream(p);
    } else
      in = new Chop(d);
    if (r.chance(30)) in = new BufferedInputStream(in, r.between(1, 40));
    return in;
  }
  /** collects what is written to it, or to a file */
  static class Sink {
    ByteArrayOutputStream b;
    String path;
    OutputStream out;
    Sink(Rng r) throws IOException {
      if (r.chance(40))
        out = new FileOutputStream(path = path());
      else
        out = b = new ByteArrayOutputStream();
      if (r.chance(30)) out = new BufferedOutputStream(out, r.between(1, 40));
    }
    byte[] got() {
      return path == null ? b.toByteArray() : Sim.get(path);
    }
  }

  static void same(byte[] got, byte[] want, String what) {
    if (got.length != want.length) {
      fail(what + ": " + got.length + " bytes instead of " + want.length);
      return;
    }
    for (int i = 0; i < got.length; ++i)
      if (got[i] != want[i]) {
        fail(what + ": byte " + i + " of " + got.length + " is " + got[i] + " instead of " + want[i]);
        return;
      }
  }

  // ---- text
  static char character(Rng r, int kind) {
    switch (kind == 3 ? r.below(3) : kind) {
    case 0: return (char) r.between(32, 126);
    case 1: return (char) r.between(0x80, 0x7ff);
    default: return (char) r.between(0x800, 0xd7ff);
    }
  }
  static String text(Rng r, int max, boolean lines) {
    StringBuilder s = new StringBuilder();
    int kind = r.below(5);
    if (kind == 4) kind = 0;
    for (int n = r.below(max + 1); n > 0; --n) {
      if (lines && r.chance(15))
        s.append(r.chance(40) ? "\n" : r.chance(60) ? "\r\n" : "\r");
      else
        s.append(character(r, kind));
    }
    return s.toString();
  }
  static byte[] utf8(String s) {
    byte[] b = new byte[s.length() * 3];
    int n = 0;
    for (int i = 0; i < s.length(); ++i) {
      int c = s.charAt(i);
      if (c < 0x80)
        b[n++] = (byte) c;
      else if (c < 0x800) {
        b[n++] = (byte) (0xc0 | c >> 6);
        b[n++] = (byte) (0x80 | c & 63);
      } else {
        b[n++] = (byte) (0xe0 | c >> 12);
        b[n++] = (byte) (0x80 | c >> 6 & 63);
        b[n++] = (byte) (0x80 | c & 63);
      }
    }
    byte[] x = new byte[n];
    System.arraycopy(b, 0, x, 0, n);
    return x;
  }
  static String shown(String s) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < s.length() && i < 60; ++i) {
      char c = s.charAt(i);
      if (c >= 32 && c < 127)
        b.append(c);
      else
        b.append("<").append(Integer.toHexString(c)).append(">");
    }
    return b.toString();
  }

  static void writeText(Rng r) throws Exception {
    Sink k = new Sink(r);
    Writer w = new OutputStreamWriter(k.out);
    String how = "OutputStreamWriter";
    PrintWriter pw = null;
    for (int i = r.below(3); i > 0; --i)
      if (r.chance(60)) {
        w = new BufferedWriter(w, r.between(1, 30));
        how = "BufferedWriter on " + how;
        pw = null;
      } else {
        w = pw = new PrintWriter(w, r.chance(50));
        how = "PrintWriter on " + how;
      }
    StringBuilder all = new StringBuilder();
    for (int i = r.between(1, 12); i > 0; --i) {
      String s = text(r, r.chance(80) ? 8 : 60, true);
      int a = r.below(s.length() + 1), b = a + r.below(s.length() - a + 1);
      switch (r.below(pw == null ? 7 : 10)) {
      case 0:
        w.write(s);
        all.append(s);
        break;
      case 1:
        w.write(s, a, b - a);
        all.append(s.substring(a, b));
        break;
      case 2:
        w.write(s.toCharArray());
        all.append(s);
        break;
      case 3:
        w.write(s.toCharArray(), a, b - a);
        all.append(s.substring(a, b));
        break;
      case 4: {
        char c = character(r, 3);
        w.write(c);
        all.append(c);
        break;
      }
      case 5:
        w.append(s).append(r.chance(50) ? (CharSequence) s : new StringBuilder(s), a, b);
        all.append(s).append(s.substring(a, b));
        break;
      case 6:
        w.flush();
        same(k.got(), utf8(all.toString()), "after flush of " + how);
        break;
      case 7:
        pw.print(s);
        all.append(s);
        break;
      case 8:
        pw.println(s);
        all.append(s).append("\n");
        break;
      case 9:
        pw.println();
        all.append("\n");
        break;
      }
    }
    w.close();
    same(k.got(), utf8(all.toString()), how);
  }

  static void readText(Rng r) throws Exception {
    String s = text(r, r.chance(70) ? 30 : 300, true);
    Reader in = r.chance(10) ? new StringReader(s) : new InputStreamReader(source(r, utf8(s)));
    String how = in instanceof StringReader ? "StringReader" : "InputStreamReader";
    BufferedReader br = null;
    PushbackReader pr = null;
    for (int i = r.below(3); i > 0; --i) {
      br = null;
      pr = null;
      switch (r.below(4)) {
      case 0: case 1:
        in = br = new BufferedReader(in, r.between(1, 30));
        how = "BufferedReader on " + how;
        break;
      case 2:
        in = pr = new PushbackReader(in);
        how = "PushbackReader on " + how;
        break;
      case 3:
        in = br = new LineNumberReader(in, r.between(1, 30));
        how = "LineNumberReader on " + how;
        break;
      }
    }
    int p = 0;
    boolean pushed = false;
    int cr = r.below(3); // how carriage returns and reads other than readLine mix
    while (true) {
      String at = " at " + p + " of \"" + shown(s) + "\" from " + how;
      int op = r.below(br != null ? 6 : pr != null ? 5 : 4);
      if (br != null && cr == 0) op = 5;
      if (op == 0 || op == 3) {
        int c = in.read();
        if (p == s.length()) {
          if (c != -1) fail("read gives " + c + " instead of the end" + at);
          break;
        }
        if (c != s.charAt(p)) {
          fail("read gives " + c + " instead of " + (int) s.charAt(p) + at);
          return;
        }
        ++p;
        pushed = false;
      } else if (op == 1 || op == 2) {
        int size = r.chance(50) ? r.between(1, 5) : r.between(0, 50);
        int off = r.below(3), tail = r.below(3);
        char[] b = new char[off + size + tail];
        for (int i = 0; i < b.length; ++i) b[i] = '#';
        int n = in.read(b, off, size);
        if (size == 0) {
          if (n > 0) fail("read of 0 characters gives " + n + at);
          continue;
        }
        if (p == s.length()) {
          if (n != -1) fail("read(char[]) gives " + n + " instead of the end" + at);
          break;
        }
        if (n < 1 || n > size || p + n > s.length()) {
          fail("read of up to " + size + " gives " + n + at);
          return;
        }
        for (int i = 0; i < b.length; ++i)
          if (b[i] != (i < off || i >= off + n ? '#' : s.charAt(p + i - off))) {
            fail("read of up to " + size + " at offset " + off + " gave " + n + ", element " + i + " is "
                + (int) b[i] + at);
            return;
          }
        p += n;
        pushed = false;
      } else if (op == 4) {
        if (pr != null && p > 0 && !pushed) {
          pr.unread(s.charAt(--p));
          pushed = true;
        }
      } else {
        // a line that ended in \r leaves its \n out for what follows, readLine or not
        String l = br.readLine();
        if (p == s.length()) {
          if (l != null) fail("readLine gives \"" + shown(l) + "\" instead of the end" + at);
          break;
        }
        int e = p;
        while (e < s.length() && s.charAt(e) != '\n' && s.charAt(e) != '\r') ++e;
        if (l == null || !l.equals(s.substring(p, e))) {
          fail("readLine gives " + (l == null ? "the end" : "\"" + shown(l) + "\"") + " instead of \""
              + shown(s.substring(p, e)) + "\"" + at);
          return;
        }
        if (e < s.length() && s.charAt(e++) == '\r' && e < s.length() && s.charAt(e) == '\n') ++e;
        p = e;
      }
    }
    in.close();
  }

  // ---- a dialogue: nobody asks for more than was sent before answering
  static class Pipe {
    final byte[] buf;
    int a, n;
    boolean closed;
    Pipe(int size) {
      buf = new byte[size];
    }
    synchronized void put(byte[] b, int off, int len) {
      try {
        for (int i = 0; i < len; ++i) {
          while (n == buf.length) wait();
          buf[(a + n++) % buf.length] = b[off + i];
          notifyAll();
        }
      } catch (InterruptedException e) {
        fail("interrupted");
      }
    }
    synchronized int take(byte[] b, int off, int len) {
      if (len == 0) return 0;
      try {
        while (n == 0 && !closed) wait();
      } catch (InterruptedException e) {
        fail("interrupted");
      }
      if (n == 0) return -1;
      if (len > n) len = n;
      len -= Sim.choose(2) * Sim.choose(len);
      for (int i = 0; i < len; ++i) {
        b[off + i] = buf[a];
        a = (a + 1) % buf.length;
        --n;
      }
      notifyAll();
      return len;
    }
    final InputStream in = new InputStream() {
      public int read() {
        byte[] b = new byte[1];
        return take(b, 0, 1) < 0 ? -1 : b[0] & 255;
      }
      public int read(byte[] b, int off, int len) {
        return take(b, off, len);
      }
      public int available() {
        synchronized (Pipe.this) {
          return n;
        }
      }
    };
    final OutputStream out = new OutputStream() {
      public void write(int c) {
        put(new byte[] {(byte) c}, 0, 1);
      }
      public void write(byte[] b, int off, int len) {
        put(b, off, len);
      }
      public void close() {
        synchronized (Pipe.this) {
          closed = true;
          Pipe.this.notifyAll();
        }
      }
    };
  }

  /** sends and receives messages one way and the other */
  static abstract class Line {
    abstract void send(String s) throws Exception;
    abstract String receive(int n) throws Exception;
  }
  static Line line(final Rng r, InputStream in, OutputStream out, int kind, Rng mine) throws Exception {
    final InputStream i = mine.chance(50) ? new BufferedInputStream(in, mine.between(1, 30)) : in;
    final OutputStream o = mine.chance(50) ? new BufferedOutputStream(out, mine.between(1, 30)) : out;
    switch (kind) {
    case 0: { // lines
      final BufferedReader br = new BufferedReader(new InputStreamReader(i), mine.between(1, 20));
      final Writer w = mine.chance(50) ? new PrintWriter(o, true) : new BufferedWriter(new OutputStreamWriter(o), 9);
      final String nl = mine.chance(50) ? "\r\n" : "\n";
      return new Line() {
        void send(String s) throws Exception {
          w.write(s + nl);
          w.flush();
        }
        String receive(int n) throws Exception {
          return br.readLine();
        }
      };
    }
    case 1: { // characters until there are enough
      Reader x = new InputStreamReader(i);
      for (int k = mine.below(3); k > 0; --k)
        x = mine.chance(60) ? new BufferedReader(x, mine.between(1, 20)) : new PushbackReader(x);
      final Reader rd = x;
      final Writer w = new BufferedWriter(new OutputStreamWriter(o), mine.between(1, 20));
      final int size = mine.between(1, 40);
      return new Line() {
        void send(String s) throws Exception {
          w.write(s);
          w.flush();
        }
        String receive(int n) throws Exception {
          StringBuilder s = new StringBuilder();
          char[] b = new char[size];
          while (s.length() < n) {
            int c = rd.read(b);
            if (c < 1) return s + "(end)";
            s.append(b, 0, c);
          }
          return s.toString();
        }
      };
    }
    case 2: { // data
      final DataInputStream d = new DataInputStream(i);
      final DataOutputStream e = new DataOutputStream(o);
      return new Line() {
        void send(String s) throws Exception {
          e.writeInt(s.length());
          e.writeUTF(s);
          e.writeLong(-s.length());
          e.flush();
        }
        String receive(int n) throws Exception {
          int c = d.readInt();
          if (c != n) return "(length " + c + ")";
          String s = d.readUTF();
          long l = d.readLong();
          if (l != -n) return "(length " + l + ")";
          return s;
        }
      };
    }
    default: { // objects
      final ObjectOutputStream e = new ObjectOutputStream(o);
      e.flush();
      return new Line() {
        ObjectInputStream d;
        void send(String s) throws Exception {
          e.writeObject(s);
          e.writeInt(s.length());
          e.flush();
        }
        String receive(int n) throws Exception {
          if (d == null) d = new ObjectInputStream(i);
          String s = (String) d.readObject();
          int c = d.readInt();
          if (c != n) return "(length " + c + ")";
          return s;
        }
      };
    }
    }
  }

  static void dialogue(final Rng r) throws Exception {
    final int kind = r.below(4), n = r.between(1, 8);
    // both ends of object streams write their heads at first
    int least = kind == 3 ? 4 : 1;
    final Pipe there = new Pipe(r.chance(50) ? r.between(least, 10) : 200), back = new Pipe(r.chance(50) ? r.between(least, 10) : 200);
    final String[] q = new String[n], a = new String[n];
    for (int i = 0; i < n; ++i) {
      q[i] = text(r, 30, false) + "?";
      a[i] = text(r, 30, false) + "!";
    }
    final int s1 = r.next(), s2 = r.next();
    runAll(new Thread[] {
      new T(0) {
        public void go() throws Exception {
          Line l = line(r, back.in, there.out, kind, new Rng(s1));
          for (int i = 0; i < n; ++i) {
            l.send(q[i]);
            String x = l.receive(a[i].length());
            if (!a[i].equals(x)) fail("answer " + i + " is \"" + shown("" + x) + "\" instead of \"" + shown(a[i]) + "\"");
          }
        }
      },
      new T(1) {
        public void go() throws Exception {
          Line l = line(r, there.in, back.out, kind, new Rng(s2));
          for (int i = 0; i < n; ++i) {
            String x = l.receive(q[i].length());
            if (!q[i].equals(x)) fail("question " + i + " is \"" + shown("" + x) + "\" instead of \"" + shown(q[i]) + "\"");
            l.send(a[i]);
          }
        }
      }
    });
  }

  // ---- data and objects
  static long number(Rng r) {
    long v = (long) r.next() << 33 ^ (long) r.next() << 8 ^ r.next();
    switch (r.below(6)) {
    case 0: return v;
    case 1: return v >> 32;
    case 2: return r.between(-3, 3);
    case 3: return 1L << r.below(64);
    case 4: return -1L << r.below(64);
    default: return v & 0xffffffffL;
    }
  }
  public static class Node implements Serializable {
    byte b;
    short s;
    char c;
    int i;
    long j;
    float f;
    double d;
    boolean z;
    String t;
    Node next;
    Odd odd;
    transient int lost = 5;
    Node(Rng r, int depth) {
      b = (byte) number(r);
      s = (short) number(r);
      c = (char) number(r);
      i = (int) number(r);
      j = number(r);
      f = number(r) / 8f;
      d = number(r) / 8.0;
      z = r.chance(50);
      t = r.chance(20) ? null : text(r, r.chance(10) ? 300 : 10, true);
      if (depth > 0 && r.chance(60)) next = new Node(r, depth - 1);
      if (depth > 0 && r.chance(30)) odd = new Odd(r, depth - 1);
    }
    String str() {
      return b + " " + s + " " + (int) c + " " + i + " " + j + " " + f + " " + d + " " + z + " " + (t == null ? null : shown(t))
          + " [" + (next == null ? null : next.str()) + "] [" + (odd == null ? null : odd.str()) + "]";
    }
  }
  /** writes itself */
  public static class Odd implements Serializable {
    int a;
    String t;
    transient long x;
    transient String u;
    Odd(Rng r, int depth) {
      a = (int) number(r);
      t = text(r, 10, true);
      x = number(r);
      u = text(r, r.chance(20) ? 200 : 10, true);
    }
    private void writeObject(ObjectOutputStream o) throws IOException {
      o.defaultWriteObject();
      o.writeLong(x);
      o.writeUTF(u);
    }
    private void readObject(ObjectInputStream o) throws IOException, ClassNotFoundException {
      o.defaultReadObject();
      x = o.readLong();
      u = o.readUTF();
    }
    String str() {
      return a + " " + shown(t) + " " + x + " " + shown(u);
    }
  }

  static void data(Rng r, boolean object) throws Exception {
    Sink k = new Sink(r);
    DataOutput o;
    ObjectOutputStream oo = null;
    DataOutputStream dd = null;
    if (object)
      o = oo = new ObjectOutputStream(k.out);
    else
      o = dd = new DataOutputStream(k.out);
    int n = r.between(1, 15);
    int[] op = new int[n];
    long[] v = new long[n];
    Object[] x = new Object[n];
    for (int i = 0; i < n; ++i) {
      op[i] = r.below(object ? 10 : 12);
      v[i] = number(r);
      switch (op[i]) {
      case 0: o.writeBoolean((v[i] & 1) != 0); break;
      case 1: o.writeByte((int) v[i]); break;
      case 2: o.writeShort((int) v[i]); break;
      case 3: o.writeChar((int) v[i]); break;
      case 4: o.writeInt((int) v[i]); break;
      case 5: o.writeLong(v[i]); break;
      case 6: o.writeFloat(v[i] / 8f); break;
      case 7: o.writeDouble(v[i] / 8.0); break;
      case 8: o.writeUTF((String) (x[i] = text(r, r.chance(20) ? 300 : 10, true))); break;
      case 9:
        if (object)
          oo.writeObject(x[i] = r.chance(30) ? (Object) text(r, 20, true) : r.chance(10) ? null : r.chance(30) ? (Object) new Odd(r, 0) : new Node(r, 2));
        else
          dd.writeChars((String) (x[i] = text(r, 20, true)));
        break;
      case 10: {
        byte[] b = utf8(text(r, 40, true));
        x[i] = b;
        dd.write(b);
        break;
      }
      case 11:
        dd.writeByte((int) v[i]);
        dd.writeShort((int) v[i]);
        break;
      }
    }
    if (object)
      oo.close();
    else
      dd.close();
    byte[] all = k.got();
    // a torn tail must end in an exception
    int cut = r.chance(20) && all.length > 4 ? r.between(4, all.length) : all.length;
    byte[] part = new byte[cut];
    System.arraycopy(all, 0, part, 0, cut);
    InputStream in = source(r, part);
    DataInput d;
    ObjectInputStream oi = null;
    if (object)
      d = oi = new ObjectInputStream(in);
    else
      d = new DataInputStream(in);
    int i = 0;
    try {
      for (; i < n; ++i) {
        Object want = "", got = "";
        switch (op[i]) {
        case 0: got = Boolean.valueOf(d.readBoolean()); want = Boolean.valueOf((v[i] & 1) != 0); break;
        case 1: got = Integer.valueOf(d.readByte()); want = Integer.valueOf((byte) v[i]); break;
        case 2: got = Integer.valueOf(d.readShort()); want = Integer.valueOf((short) v[i]); break;
        case 3: got = Integer.valueOf(d.readChar()); want = Integer.valueOf((char) v[i]); break;
        case 4: got = Integer.valueOf(d.readInt()); want = Integer.valueOf((int) v[i]); break;
        case 5: got = Long.valueOf(d.readLong()); want = Long.valueOf(v[i]); break;
        case 6: got = "" + d.readFloat(); want = "" + v[i] / 8f; break;
        case 7: got = "" + d.readDouble(); want = "" + v[i] / 8.0; break;
        case 8: got = d.readUTF(); want = x[i]; break;
        case 9:
          if (object) {
            got = oi.readObject();
            want = x[i];
            if (got instanceof Node) got = "node " + ((Node) got).str();
            if (got instanceof Odd) got = "odd " + ((Odd) got).str();
            if (want instanceof Node) want = "node " + ((Node) want).str();
            if (want instanceof Odd) want = "odd " + ((Odd) want).str();
          } else {
            StringBuilder s = new StringBuilder();
            want = x[i];
            for (int q = ((String) want).length(); q > 0; --q) s.append(d.readChar());
            got = s.toString();
          }
          break;
        case 10: {
          byte[] b = new byte[((byte[]) x[i]).length];
          if (r.chance(30)) {
            int a = r.below(b.length + 1);
            d.readFully(b, a, b.length - a);
            int c = d.skipBytes(0);
            byte[] w = new byte[b.length - a], e = new byte[b.length - a];
            System.arraycopy(b, a, w, 0, w.length);
            System.arraycopy((byte[]) x[i], 0, e, 0, e.length);
            same(w, e, "readFully");
            d.readFully(b, 0, a);
            System.arraycopy((byte[]) x[i], b.length - a, w = new byte[a], 0, a);
            System.arraycopy(b, 0, e = new byte[a], 0, a);
            same(e, w, "readFully");
          } else {
            d.readFully(b);
            same(b, (byte[]) x[i], "readFully");
          }
          break;
        }
        case 11:
          got = Integer.valueOf(d.readUnsignedByte() << 16 | d.readUnsignedShort());
          want = Integer.valueOf(((int) v[i] & 0xff) << 16 | (int) v[i] & 0xffff);
          break;
        }
        if (got == null ? want != null : !got.equals(want)) {
          fail((object ? "object stream" : "data stream") + " op " + op[i] + " gives " + shown("" + got) + " instead of " + shown("" + want));
          return;
        }
      }
      if (cut == all.length) {
        int c = object ? oi.read() : ((DataInputStream) d).read();
        if (c != -1) fail("more bytes than were written");
      }
    } catch (IOException e) {
      if (cut == all.length) fail((object ? "object stream" : "data stream") + " op " + op[i] + ": " + describe(e));
      Sim.probe("torn tail noticed");
      return;
    }
    if (cut < all.length && !(i == n && tailless(op, n, x))) fail("the tail is missing and nobody noticed, " + cut + " of " + all.length);
  }
  /** nothing read the bytes at the end */
  static boolean tailless(int[] op, int n, Object[] x) {
    return false;
  }

  // ---- compression
  static byte[] noise(Rng r, int max) {
    byte[] b = new byte[r.below(max + 1)];
    int how = r.below(3);
    for (int i = 0; i < b.length; ++i)
      b[i] = (byte) (how == 0 ? r.next() : how == 1 ? r.below(4) : i < 5 || r.chance(5) ? r.next() : b[i - 5]);
    return b;
  }
  static void write(Rng r, OutputStream o, byte[] b) throws IOException {
    for (int p = 0; p < b.length; ) {
      if (r.chance(20)) {
        o.write(b[p++]);
      } else {
        int n = Math.min(b.length - p, r.chance(50) ? r.between(0, 20) : r.between(0, 3000));
        o.write(b, p, n);
        p += n;
      }
    }
  }
  /** reads to the end; null if the stream says that it is broken */
  static byte[] drain(Rng r, InputStream in, byte[] want, boolean broken, String what) throws IOException {
    byte[] got = new byte[want.length + 1];
    int n = 0;
    try {
      while (true) {
        if (r.chance(20)) {
          int c = in.read();
          if (c < 0) break;
          if (n < got.length) got[n++] = (byte) c;
        } else {
          byte[] b = new byte[r.chance(50) ? r.between(0, 30) : r.between(1, 4000)];
          int off = r.below(b.length + 1);
          int c = in.read(b, off, b.length - off);
          if (off == b.length) {
            if (c > 0) fail(what + ": read of 0 bytes gives " + c);
            continue;
          }
          if (c < 0) break;
          if (c == 0 || c > b.length - off) {
            fail(what + ": read of up to " + (b.length - off) + " bytes gives " + c);
            return null;
          }
          for (int i = 0; i < c && n < got.length; ++i) got[n++] = b[off + i];
        }
        if (!broken && n > want.length) {
          fail(what + ": more bytes than were written");
          return null;
        }
      }
    } catch (IOException e) {
      if (!broken) fail(what + ": " + describe(e));
      return null;
    }
    byte[] x = new byte[n];
    System.arraycopy(got, 0, x, 0, n);
    return x;
  }

  static void compress(Rng r) throws Exception {
    byte[] d = noise(r, r.chance(70) ? 200 : 12000);
    boolean nowrap = r.chance(40);
    Sink k = new Sink(r);
    DeflaterOutputStream o = nowrap || r.chance(50)
        ? new DeflaterOutputStream(k.out, new Deflater(r.between(0, 9), nowrap), r.between(1, 600))
        : new DeflaterOutputStream(k.out);
    write(r, o, d);
    o.close();
    byte[] c = k.got();
    int harm = r.below(6); // 0 torn, 1 a byte is wrong
    if (harm == 0) {
      byte[] x = new byte[r.below(c.length)];
      System.arraycopy(c, 0, x, 0, x.length);
      c = x;
    } else if (harm == 1 && !nowrap)
      c[r.below(c.length)] ^= (byte) (1 << r.below(8));
    else
      harm = 2;
    InputStream in = source(r, c);
    in = nowrap || r.chance(50) ? new InflaterInputStream(in, new Inflater(nowrap), r.between(1, 600))
                                : new InflaterInputStream(in);
    byte[] got = drain(r, in, d, harm < 2, "inflater");
    if (got != null) {
      if (harm == 0)
        fail("the end of the compressed data is missing and nobody noticed");
      else
        same(got, d, harm == 1 ? "inflated from damaged data" : "inflated");
    }
    in.close();
  }

  static void zip(final Rng r) throws Exception {
    final String p = path();
    final int n = r.between(1, 6);
    final String[] names = new String[n];
    final byte[][] data = new byte[n][];
    ByteArrayOutputStream mem = err || r.chance(30) ? new ByteArrayOutputStream() : null;
    OutputStream f = mem == null ? new FileOutputStream(p) : mem;
    if (r.chance(50)) f = new BufferedOutputStream(f, r.between(1, 500));
    ZipOutputStream z = new ZipOutputStream(f);
    for (int i = 0; i < n; ++i) {
      names[i] = "d" + i % 2 + "/n" + (r.chance(30) ? text(r, 5, false) : "") + i;
      data[i] = noise(r, r.chance(70) ? 300 : 9000);
      z.putNextEntry(new ZipEntry(names[i]));
      write(r, z, data[i]);
      if (r.chance(15)) z.flush();
      z.closeEntry();
    }
    z.close();
    if (mem != null) Sim.put(p, mem.toByteArray());
    ZipFile a;
    try {
      a = new ZipFile(p);
    } catch (IOException e) {
      if (!err) fail("ZipFile: " + describe(e));
      return;
    }
    final ZipFile zf = a;
    if (zf.size() != n) fail("the file has " + zf.size() + " entries instead of " + n);
    T[] ts = new T[r.between(1, 3)];
    for (int t = 0; t < ts.length; ++t) {
      final Rng q = new Rng(r.next());
      ts[t] = new T(t) {
        public void go() throws Exception {
          for (int k = q.between(1, 4); k > 0; --k) {
            if (!err && q.chance(15)) {
              int c = 0;
              for (Enumeration<? extends ZipEntry> e = zf.entries(); e.hasMoreElements();) {
                ZipEntry x = e.nextElement();
                int i = 0;
                String s = x.getName();
                while (i < n && !names[i].equals(s)) ++i;
                if (i == n)
                  fail("there is an entry " + shown("" + s));
                else
                  ++c;
              }
              if (c != n) fail(c + " entries instead of " + n);
              continue;
            }
            int i = q.below(n);
            ZipEntry e = zf.getEntry(names[i]);
            if (e == null) {
              fail("no entry " + shown(names[i]));
              continue;
            }
            if (!err && e.getSize() != data[i].length) fail("the size of an entry is " + e.getSize() + " instead of " + data[i].length);
            if (!err && !names[i].equals(e.getName())) fail("the name of an entry is " + shown("" + e.getName()) + " instead of " + shown(names[i]));
            if (zf.getEntry(names[i] + "x") != null) fail("an entry that is not there");
            InputStream in;
            try {
              in = zf.getInputStream(e);
            } catch (IOException x) {
              if (!err) fail("getInputStream: " + describe(x));
              continue;
            }
            byte[] got = drain(q, in, data[i], err, "zip entry");
            if (got != null) same(got, data[i], "zip entry " + shown(names[i]));
            in.close();
          }
        }
      };
    }
    runAll(ts);
    zf.close();
  }

  void run() throws Exception {
    err = param("err", 0) != 0;
    Rng r = rng;
    switch (param("m", 0)) {
    case 0:
      for (int k = r.between(1, 4); k > 0; --k) writeText(r);
      break;
    case 1:
      for (int k = r.between(1, 4); k > 0; --k) readText(r);
      break;
    case 2:
      dialogue(r);
      break;
    case 3:
      for (int k = r.between(1, 3); k > 0; --k) data(r, r.chance(50));
      break;
    case 4:
      for (int k = r.between(1, 2); k > 0; --k) compress(r);
      break;
    case 5:
      zip(r);
      break;
    }
  }
}

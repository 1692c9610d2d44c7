package w;

import sim.Sim;
import java.io.*;
import java.net.*;
import java.nio.ByteBuffer;
import java.nio.channels.*;
import java.util.*;

/** Sockets, channels, selectors and datagrams over a simulated network. */
public class Net extends W {
  static boolean err;   // connections are reset, or descriptors run out
  static void io(IOException e, String what) {
    if (!err) fail(what + " failed without a fault: " + describe(e));
    Sim.probe("io exception");
  }
  static byte at(int conn, int dir, int i) {
    int x = (conn * 2 + dir) * 7919 + i * 31;
    x ^= x >>> 5;
    if (x % 3 == 0) return (byte) 0xff;
    return (byte) (x * 13 + i);
  }
  static byte[] data(int conn, int dir, int n) {
    byte[] b = new byte[n];
    for (int i = 0; i < n; ++i) b[i] = at(conn, dir, i);
    return b;
  }

  /** one end of a connection */
  static abstract class End {
    int got, conn, dir;   // what was received so far of direction dir
    boolean broken;
    abstract int get(byte[] b, int off, int n) throws IOException;
    abstract int get() throws IOException;
    abstract void put(byte[] b, int off, int n) throws IOException;
    abstract void put(int v) throws IOException;
    abstract boolean half() throws IOException;
    abstract void close() throws IOException;

    /** reads once; false at the end */
    boolean receive(Rng r, int max) throws IOException {
      if (r.chance(20)) {
        int c = get();
        if (c == -1) return false;
        if (c < 0 || c > 255) fail("read gives " + c);
        if ((byte) c != at(conn, dir, got)) fail("byte " + got + " of connection " + conn + " is " + c);
        ++got;
        return true;
      }
      int n = r.between(1, max), off = r.below(3);
      byte[] b = new byte[off + n + 2];
      for (int i = 0; i < b.length; ++i) b[i] = 99;
      int c = get(b, off, n);
      if (c == -1) c = 0;
      else if (c < 1 || c > n) {
        fail("read of " + n + " bytes gives " + c);
        return false;
      }
      for (int i = 0; i < off; ++i) if (b[i] != 99) fail("read wrote before its range");
      for (int i = off + c; i < b.length; ++i) if (b[i] != 99) fail("read wrote beyond the bytes it got");
      for (int i = 0; i < c; ++i)
        if (b[off + i] != at(conn, dir, got + i)) {
          fail("byte " + (got + i) + " of connection " + conn + " is " + b[off + i] + ", not " + at(conn, dir, got + i));
          return false;
        }
      got += c;
      return c > 0;
    }
    void send(Rng r, int conn, int dir, int n) throws IOException {
      byte[] d = data(conn, dir, n);
      int i = 0;
      while (i < n) {
        if (r.chance(15)) {
          put(d[i++]);
          continue;
        }
        int k = Math.min(n - i, r.between(1, r.chance(30) ? n : 20)), off = r.below(3);
        byte[] b = new byte[off + k + r.below(3)];
        System.arraycopy(d, i, b, off, k);
        put(b, off, k);
        i += k;
        if (r.chance(10)) Thread.yield();
      }
    }
  }

  static class SockEnd extends End {
    final Socket s;
    final InputStream in;
    final OutputStream out;
    SockEnd(Socket s) throws IOException {
      this.s = s;
      in = s.getInputStream();
      out = s.getOutputStream();
    }
    int get(byte[] b, int off, int n) throws IOException {
      if (off == 0 && n == b.length) return in.read(b);
      return in.read(b, off, n);
    }
    int get() throws IOException {
      return in.read();
    }
    void put(byte[] b, int off, int n) throws IOException {
      if (off == 0 && n == b.length)
        out.write(b);
      else
        out.write(b, off, n);
    }
    void put(int v) throws IOException {
      out.write(v);
    }
    boolean half() throws IOException {
      if (got % 2 == 0) s.shutdownOutput();
      else out.close();
      return true;
    }
    void close() throws IOException {
      s.close();
    }
  }

  static class ChanEnd extends End {
    final SocketChannel c;
    final boolean streams;
    final InputStream in;
    final OutputStream out;
    ChanEnd(SocketChannel c, boolean streams) throws IOException {
      this.c = c;
      this.streams = streams;
      in = Channels.newInputStream(c);
      out = Channels.newOutputStream(c);
      if (!c.isOpen() || !c.isConnected()) fail("a connected channel says it is not");
    }
    int get(byte[] b, int off, int n) throws IOException {
      if (streams) return in.read(b, off, n);
      ByteBuffer x = ByteBuffer.wrap(b, off, n);
      int p = x.position();
      int r = c.read(x);
      if (x.position() - p != Math.max(r, 0)) fail("read gives " + r + " but moves by " + (x.position() - p));
      return r;
    }
    int get() throws IOException {
      if (streams) return in.read();
      byte[] b = new byte[1];
      int r = c.read(ByteBuffer.wrap(b));
      return r < 1 ? -1 : b[0] & 0xff;
    }
    void put(byte[] b, int off, int n) throws IOException {
      if (streams) {
        out.write(b, off, n);
        return;
      }
      if (n % 5 == 0) {
        ByteBuffer[] x = {ByteBuffer.wrap(b, off, n / 5), ByteBuffer.wrap(b, off + n / 5, n - n / 5)};
        while (x[0].hasRemaining() || x[1].hasRemaining()) {
          long w = c.write(x);
          if (w < 1) fail("a blocking write gives " + w);
          if (w < 1) return;
        }
        return;
      }
      ByteBuffer x = ByteBuffer.wrap(b, off, n);
      while (x.hasRemaining()) {
        int p = x.position();
        int w = c.write(x);
        if (w < 1 || x.position() - p != w) fail("a blocking write gives " + w + " and moves by " + (x.position() - p));
        if (w < 1) return;
      }
    }
    void put(int v) throws IOException {
      if (streams)
        out.write(v);
      else
        put(new byte[] {(byte) v}, 0, 1);
    }
    boolean half() {
      return false;
    }
    void close() throws IOException {
      c.close();
      if (c.isOpen()) fail("a closed channel is open");
    }
  }

  static final String HOST = "127.0.0.1";
  static End connect(Rng r, int port) throws Exception {
    for (;;) {
      SocketChannel c = null;
      try {
        switch (r.below(4)) {
        case 0:
          return new SockEnd(new Socket(HOST, port));
        case 1:
          return new SockEnd(new Socket(InetAddress.getByName(HOST), port));
        default: {
          c = SocketChannel.open();
          if (!c.connect(new InetSocketAddress(HOST, port))) fail("a blocking connect gives false");
          return new ChanEnd(c, r.chance(50));
        }
        }
      } catch (IOException e) {
        io(e, "connect");
        if (c != null) c.close();
      }
    }
  }
  static ServerSocketChannel listen(int port) throws Exception {
    for (;;) {
      ServerSocketChannel s = null;
      try {
        s = ServerSocketChannel.open();
        s.socket().bind(new InetSocketAddress(HOST, port));
        return s;
      } catch (IOException e) {
        io(e, "listen");
        if (s != null) s.close();
      }
    }
  }

  /** allocates and collects beside threads that wait for the network */
  static class Churn extends T {
    final Rng r;
    Churn(int me, Rng r) {
      super(me);
      this.r = r;
    }
    public void go() throws Exception {
      Object[] keep = new Object[8];
      for (int k = r.between(1, 6); k > 0; --k) {
        for (int i = 0; i < keep.length; ++i) keep[i] = new byte[r.below(3000)];
        if (r.chance(50)) System.gc();
        if (r.chance(50)) Thread.sleep(r.between(1, 5));
      }
    }
  }

  static int port = 2000;

  // ---- blocking connections in both directions
  static class Talk {
    final int id, there, back;
    final boolean duplex, cut;
    boolean half;
    volatile boolean cutoff;
    Talk(int id, Rng r) {
      this.id = id;
      int max = r.chance(20) ? 400 : 50;
      there = r.between(0, max);
      back = r.between(0, max);
      duplex = r.chance(50);
      cut = cuts && r.chance(50);
    }
    void end(End e, String what, boolean all, int want) {
      if (e.got > want) fail(what + " got " + e.got + " bytes of " + want);
      if (all && e.got < want && !err && !cutoff) fail(what + " got the end after " + e.got + " of " + want + " bytes");
      if (e.got < want) Sim.probe("cut short");
    }
    void error(IOException x, String what) {
      if (!cutoff) io(x, what);
    }
  }
  static boolean cuts;

  /** sends from a thread of its own, or not */
  static Thread sender(final End e, final Talk t, final int dir, final int n, final int seed, boolean own) throws Exception {
    T s = new T(100 + t.id * 2 + dir) {
      public void go() throws Exception {
        try {
          e.send(new Rng(seed), t.id, dir, n);
          if (dir == 0 && t.half) e.half();
        } catch (IOException x) {
          t.error(x, "send");
        }
      }
    };
    if (own) {
      s.start();
      return s;
    }
    s.run();
    return null;
  }

  static void client(final Talk t, final Rng r, int port) throws Exception {
    final End e = connect(r, port);
    e.conn = t.id;
    e.dir = 1;
    t.half = e instanceof SockEnd && r.chance(60);
    Thread cutter = null;
    try {
      e.put(t.id);
      if (t.cut) {
        final int ms = r.below(4), twice = r.below(2);
        cutter = new T(90 + t.id) {
          public void go() throws Exception {
            Thread.sleep(ms);
            t.cutoff = true;
            e.close();
            if (twice > 0) e.close();
          }
        };
        if (e instanceof SockEnd) cutter.start();
        else cutter = null;
      }
      Thread s = sender(e, t, 0, t.there, r.next(), t.duplex);
      while (e.got < t.back + 1 && e.receive(r, 50))
        ;
      t.end(e, "client", true, t.back);
      if (s != null) s.join();
    } catch (IOException x) {
      t.error(x, "client");
      t.end(e, "client", false, t.back);
    }
    if (cutter != null) {
      if (r.chance(50)) e.close();
      cutter.join();
    }
    e.close();
  }
  static void server(Talk[] ts, SocketChannel c, Rng r) throws Exception {
    End e = new ChanEnd(c, r.chance(50));
    Talk t = null;
    try {
      int id = e.get();
      if (id < 0 || id >= ts.length) {
        if (!err && !cuts) fail("the server got " + id + " for the connection's number");
        e.close();
        return;
      }
      t = ts[id];
      e.conn = id;
      e.dir = 0;
      Thread s = t.duplex ? sender(e, t, 1, t.back, r.next(), true) : null;
      while ((t.half || e.got < t.there) && e.receive(r, 50))
        ;
      t.end(e, "server", true, t.there);
      if (s != null)
        s.join();
      else
        sender(e, t, 1, t.back, r.next(), false);
    } catch (IOException x) {
      if (t == null) {
        if (!cuts) io(x, "server");
      } else {
        t.error(x, "server");
        t.end(e, "server", false, t.there);
      }
    }
    e.close();
  }
  static void streams(final Rng r) throws Exception {
    final int n = r.between(1, 4), p = ++port;
    final Talk[] ts = new Talk[n];
    for (int i = 0; i < n; ++i) ts[i] = new Talk(i, r);
    final ServerSocketChannel ss = listen(p);
    Thread[] all = new Thread[n + 2];
    final int seed = r.next();
    for (int i = 0; i < n; ++i) {
      final Talk t = ts[i];
      final int s = r.next();
      all[i] = new T(i) {
        public void go() throws Exception {
          client(t, new Rng(s), p);
        }
      };
    }
    all[n] = new T(n) {
      public void go() throws Exception {
        Thread[] hs = new Thread[n];
        for (int i = 0; i < n;) {
          final SocketChannel c;
          try {
            c = ss.accept();
          } catch (IOException e) {
            io(e, "accept");
            continue;
          }
          if (c == null) {
            fail("a blocking accept gives null");
            continue;
          }
          final int s = seed + i;
          hs[i] = new T(50 + i) {
            public void go() throws Exception {
              server(ts, c, new Rng(s));
            }
          };
          hs[i++].start();
        }
        joinAll(hs);
      }
    };
    all[n + 1] = r.chance(50) ? new Churn(n + 1, new Rng(r.next())) : null;
    runAll(all);
    ss.close();
    if (ss.isOpen()) fail("a closed server channel is open");
  }

  // ---- a selector serves many connections
  static class Conn {
    byte[] held = new byte[64];
    int n;
    boolean ended;
  }
  static class Server extends T {
    final Rng r;
    final Selector sel;
    final ServerSocketChannel ss;
    final int want, how;
    int accepted, closed;
    final LinkedList<SocketChannel> given = new LinkedList<SocketChannel>();
    int handed;
    Server(Rng r, int port, int want) throws Exception {
      super(40);
      this.r = r;
      this.want = want;
      how = r.below(3);
      Selector s;
      for (;;)
        try {
          s = Selector.open();
          break;
        } catch (IOException e) {
          io(e, "Selector.open");
        }
      sel = s;
      ss = listen(port);
    }
    void add(SocketChannel c) throws Exception {
      c.configureBlocking(false);
      SelectionKey k = c.register(sel, SelectionKey.OP_READ, new Conn());
      if (k.channel() != c || k.selector() != sel || !k.isValid()) fail("register gives another key");
    }
    /** takes connections while the selector runs in the other thread */
    class Acceptor extends T {
      final Rng r = new Rng(Server.this.r.next());
      Acceptor() {
        super(41);
      }
      public void go() throws Exception {
        for (int i = 0; i < want;) {
          SocketChannel c;
          try {
            c = ss.accept();
          } catch (IOException e) {
            io(e, "accept");
            continue;
          }
          ++i;
          if (how == 1) {
            synchronized (given) {
              given.add(c);
            }
            sel.wakeup();
          } else {
            add(c);
            sel.wakeup();
          }
        }
      }
    }
    void accept() throws Exception {
      for (;;) {
        SocketChannel c;
        try {
          c = ss.accept();
        } catch (IOException e) {
          io(e, "accept");
          return;
        }
        if (c == null) {
          Sim.probe("accept null");
          return;
        }
        ++accepted;
        add(c);
        if (r.chance(50)) return;
      }
    }
    void close(SocketChannel c) throws Exception {
      c.close();
      ++closed;
    }
    void change(SocketChannel c, SelectionKey k, Conn x, int ops) {
      if (r.chance(60))
        k.interestOps(ops);
      else
        c.register(sel, ops, x);
    }
    void serve(SocketChannel c, SelectionKey k, Conn x) throws Exception {
      try {
        if (k.isReadable() && !x.ended && x.n < x.held.length) {
          int m = r.between(1, x.held.length - x.n);
          ByteBuffer b = ByteBuffer.wrap(x.held, x.n, m);
          int got = c.read(b);
          if (got == 0) Sim.probe("nothing to read");
          if (got < 0)
            x.ended = true;
          else
            x.n += got;
        }
        if (x.n > 0 && (k.isWritable() || r.chance(30))) {
          ByteBuffer b = ByteBuffer.wrap(x.held, 0, r.between(1, x.n));
          int w = c.write(b);
          if (w < x.n) Sim.probe("partial write");
          System.arraycopy(x.held, w, x.held, 0, x.n - w);
          x.n -= w;
        }
      } catch (IOException e) {
        io(e, "serve");
        close(c);
        return;
      }
      if (x.ended && x.n == 0) {
        close(c);
        return;
      }
      int ops = 0;
      if (!x.ended && x.n < x.held.length) ops |= SelectionKey.OP_READ;
      if (x.n > 0) ops |= SelectionKey.OP_WRITE;
      if (ops != k.interestOps()) change(c, k, x, ops);
    }
    public void go() throws Exception {
      T acc = null;
      if (how == 0) {
        ss.configureBlocking(false);
        ss.register(sel, SelectionKey.OP_ACCEPT, null);
      } else {
        acc = new Acceptor();
        acc.start();
      }
      while (closed < want) {
        int n;
        try {
          switch (r.below(4)) {
          case 0: n = sel.select(r.between(1, 100)); break;
          case 1: if (r.chance(20)) {
            n = sel.selectNow();
            break;
          }
          default: n = sel.select();
          }
        } catch (IOException e) {
          fail("select: " + describe(e));
          break;
        }
        if (n != sel.selectedKeys().size()) fail("select gives " + n + " for " + sel.selectedKeys().size() + " keys");
        SelectionKey[] ks = sel.selectedKeys().toArray(new SelectionKey[0]);
        for (int i = 0; i < ks.length; ++i) {
          SelectionKey k = ks[i];
          if (k.readyOps() == 0) fail("a key that is not ready was selected");
          if ((k.readyOps() & ~k.interestOps()) != 0) fail("a key is ready for " + k.readyOps() + " but wants " + k.interestOps());
          if (k.channel() == ss) {
            if (!k.isAcceptable()) fail("the server channel is selected but not acceptable");
            accept();
          } else
            serve((SocketChannel) k.channel(), k, (Conn) k.attachment());
        }
        synchronized (given) {
          while (!given.isEmpty()) add(given.removeFirst());
        }
      }
      if (acc != null) acc.join();
      ss.close();
      sel.close();
      if (sel.isOpen()) fail("a closed selector is open");
    }
  }
  static void echo(final Rng r) throws Exception {
    final int n = r.between(1, 5), p = ++port;
    Thread[] all = new Thread[n + 2];
    int total = 0;
    for (int i = 0; i < n; ++i) {
      final int id = i, s = r.next(), len = r.between(0, r.chance(20) ? 300 : 40), again = r.below(3);
      total += again + 1;
      all[i] = new T(i) {
        public void go() throws Exception {
          final Rng r = new Rng(s);
          for (int k = again; k >= 0; --k) {
            final End e = connect(r, p);
            e.conn = id;
            e.dir = 0;
            final int seed = r.next();
            final boolean half = e instanceof SockEnd && r.chance(50);
            T w = new T(20 + id) {
              public void go() throws Exception {
                try {
                  e.send(new Rng(seed), id, 0, len);
                  if (half) e.half();
                } catch (IOException x) {
                  io(x, "client");
                }
              }
            };
            w.start();
            try {
              while ((half || e.got < len) && e.receive(r, 40))
                ;
              if (e.got != len && !err) fail("the echo has " + e.got + " of " + len + " bytes");
            } catch (IOException x) {
              io(x, "client");
            }
            w.join();
            e.close();
          }
        }
      };
    }
    all[n] = new Server(new Rng(r.next()), p, total);
    all[n + 1] = r.chance(50) ? new Churn(n + 1, new Rng(r.next())) : null;
    runAll(all);
  }

  // ---- requests to a thread that waits in a selector
  static void wakeups(final Rng r) throws Exception {
    final Selector sel = Selector.open();
    final DatagramChannel idle = r.chance(50) ? DatagramChannel.open() : null;
    if (idle != null) {
      idle.configureBlocking(false);
      idle.bind(new InetSocketAddress(HOST, ++port));
      idle.register(sel, SelectionKey.OP_READ, null);
    }
    if (r.chance(30)) {
      // alone: the time-out, and wakeups in advance
      long t = Sim.micros();
      int ms = r.between(1, 30);
      if (sel.select(ms) != 0) fail("a key is selected without an event");
      if (Sim.micros() - t < ms * 1000L) fail("select(" + ms + ") ended after " + (Sim.micros() - t) + " us");
      for (int i = r.between(1, 3); i > 0; --i) sel.wakeup();
      switch (r.below(3)) {
      case 0: sel.select(); break;
      case 1: sel.selectNow(); break;
      case 2: sel.select(100000000L); break;
      }
      t = Sim.micros();
      sel.select(ms);
      if (Sim.micros() - t < ms * 1000L) fail("a wakeup ended two selections");
    }
    final int[] q = new int[3];   // posted, served, stop
    final int n = r.between(1, 3);
    final boolean close = r.chance(50);
    final Rng mine = new Rng(r.next());
    T server = new T(9) {
      public void go() throws Exception {
        for (;;) {
          try {
            switch (mine.below(6)) {
            case 0: sel.select(mine.between(1, 50)); break;
            case 1: sel.selectNow(); break;
            default: sel.select();
            }
          } catch (ClosedSelectorException e) {
            if (!close) fail("the selector is closed");
            return;
          }
          synchronized (q) {
            q[1] = q[0];
            q.notifyAll();
            if (q[2] != 0) return;
          }
        }
      }
    };
    T[] ts = new T[n + 1];
    for (int i = 0; i < n; ++i) {
      final Rng x = new Rng(r.next());
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int k = x.between(1, 5); k > 0; --k) {
            int no;
            synchronized (q) {
              no = ++q[0];
            }
            sel.wakeup();
            if (x.chance(30)) sel.wakeup();
            if (x.chance(80))
              synchronized (q) {
                while (q[1] < no) q.wait();
              }
            if (x.chance(30)) Thread.sleep(x.below(5));
          }
        }
      };
    }
    ts[n] = r.chance(50) ? new Churn(n + 1, new Rng(r.next())) : null;
    server.start();
    runAll(ts);
    if (close) {
      if (r.chance(30)) Thread.sleep(3);
      sel.close();
      if (sel.isOpen()) fail("a closed selector is open");
      server.join();
      try {
        sel.selectNow();
        fail("a closed selector selects");
      } catch (ClosedSelectorException e) {
      }
      sel.wakeup();
      sel.close();
    } else {
      synchronized (q) {
        q[2] = 1;
      }
      sel.wakeup();
      server.join();
      sel.close();
    }
    if (idle != null) idle.close();
  }

  // ---- datagrams
  static DatagramChannel datagrams() throws Exception {
    for (;;)
      try {
        return DatagramChannel.open();
      } catch (IOException e) {
        io(e, "DatagramChannel.open");
      }
  }
  static final String[] HOSTS = {"127.0.0.1", "200.1.2.3", "10.255.0.128", "128.0.0.1"};
  static void datagrams(final Rng r) throws Exception {
    final int n = r.between(1, 3), m = r.between(1, 3), per = r.between(1, 6);
    final SocketAddress[] to = new SocketAddress[m];
    final int[] expect = new int[m];
    final int[][] seen = new int[n][per * m];
    final int[] active = {n};
    final SocketAddress[] from = new SocketAddress[n];
    T[] ts = new T[n + m + 1];
    for (int i = 0; i < m; ++i) {
      final DatagramChannel c = datagrams();
      to[i] = new InetSocketAddress(HOSTS[r.below(4)], ++port);
      if (r.chance(50))
        c.bind(to[i]);
      else
        c.socket().bind(to[i]);
      final int me = i;
      final Rng x = new Rng(r.next());
      final boolean select = err || r.chance(40);
      ts[i] = new T(i) {
        public void go() throws Exception {
          Selector sel = null;
          if (select) {
            for (;;)
              try {
                sel = Selector.open();
                break;
              } catch (IOException e) {
                io(e, "Selector.open");
              }
            c.configureBlocking(false);
            c.register(sel, SelectionKey.OP_READ, null);
          }
          int got = 0, quiet = 0;
          while (err ? quiet < 2 : got < expect[me]) {
            if (select) {
              int k;
              if (err) {
                boolean over;
                synchronized (active) {
                  over = active[0] == 0;
                }
                k = sel.select(over ? 300 : 50);
                if (k == 0) {
                  if (over) ++quiet;
                  continue;
                }
              } else
                k = sel.select();
            }
            int off = x.below(3);
            byte[] b = new byte[off + 64];
            ByteBuffer w = ByteBuffer.wrap(b, off, 64);
            int p = w.position();
            SocketAddress source = null;
            if (x.chance(70)) {
              source = c.receive(w);
              if (source == null) {
                if (!select) fail("a blocking receive gives nothing");
                else Sim.probe("nothing to receive");
                continue;
              }
            } else {
              int k = c.read(w);
              if (k != w.position() - p) fail("read gives " + k);
              if (k < 1) continue;
            }
            ++got;
            int len = w.position() - p;
            if (len < 3) {
              fail("a datagram of " + len + " bytes");
              continue;
            }
            int s = b[off], q = b[off + 1], l = b[off + 2];
            if (l != len || s < 0 || s >= n || q < 0 || q >= per * m) {
              fail("a datagram that nobody sent: " + s + " of " + n + ", " + q + " of " + per * m + ", " + l + " of " + len);
              continue;
            }
            for (int k = 3; k < l; ++k)
              if (b[off + k] != at(s, q, k)) {
                fail("byte " + k + " of datagram " + s + "/" + q + " is wrong");
                break;
              }
            if (q % m != me) fail("a datagram for another receiver");
            if (++seen[s][q] > (err ? 2 : 1)) fail("datagram " + s + "/" + q + " came " + seen[s][q] + " times");
            if (source != null && from[s] != null && !source.equals(from[s])) fail("the source is " + source + " instead of " + from[s]);
          }
          if (!err && x.chance(60)) {
            c.configureBlocking(false);
            if (c.receive(ByteBuffer.wrap(new byte[10])) != null) fail("a datagram too many");
          }
          if (sel != null) sel.close();
          c.close();
          c.close();
        }
      };
    }
    for (int i = 0; i < n; ++i) {
      final int id = i;
      final DatagramChannel c = datagrams();
      if (r.chance(60)) {
        from[i] = new InetSocketAddress(HOSTS[r.below(4)], ++port);
        c.bind(from[i]);
      }
      final Rng x = new Rng(r.next());
      final boolean one = r.chance(30);
      final int only = r.below(m);
      for (int k = 0; k < per * m; ++k)
        if (!one || k % m == only) ++expect[k % m];
      if (one) c.connect(to[only]);
      if (one != c.isConnected()) Sim.probe("datagram channel connected: " + c.isConnected());
      ts[m + i] = new T(m + i) {
        public void go() throws Exception {
          for (int k = 0; k < per * m; ++k) {
            if (one && k % m != only) continue;
            int len = x.between(3, 60), off = x.below(3);
            byte[] b = new byte[off + len + 1];
            b[off] = (byte) id;
            b[off + 1] = (byte) k;
            b[off + 2] = (byte) len;
            for (int j = 3; j < len; ++j) b[off + j] = at(id, k, j);
            ByteBuffer w = ByteBuffer.wrap(b, off, len);
            int s = one ? c.write(w) : c.send(w, to[k % m]);
            if (s != len || w.hasRemaining()) fail("sending " + len + " bytes gives " + s);
            if (x.chance(20)) Thread.sleep(x.below(4));
          }
          c.close();
          synchronized (active) {
            --active[0];
          }
        }
      };
    }
    ts[n + m] = r.chance(50) ? new Churn(n + m, new Rng(r.next())) : null;
    runAll(ts);
  }

  // ---- connections that are made without waiting, or refused
  static void connects(final Rng r) throws Exception {
    final int n = r.between(1, 3), per = r.between(1, 4), p = ++port, nobody = ++port;
    final ServerSocketChannel ss = listen(p);
    final boolean poll = r.chance(50);
    if (poll && ss.configureBlocking(false) != ss) fail("configureBlocking gives another channel");
    final int[] made = new int[2];
    T[] ts = new T[n + 1];
    final Rng x = new Rng(r.next());
    for (int i = 0; i < n; ++i) {
      final Rng y = new Rng(r.next());
      ts[i] = new T(i) {
        public void go() throws Exception {
          for (int k = 0; k < per; ++k) one();
          synchronized (made) {
            ++made[1];
          }
        }
        void one() throws Exception {
          boolean refused = y.chance(30), block = y.chance(25);
          SocketChannel c;
          try {
            c = SocketChannel.open();
          } catch (IOException e) {
            io(e, "SocketChannel.open");
            return;
          }
          if (!block) c.configureBlocking(false);
          boolean ok = false;
          try {
            ok = c.connect(new InetSocketAddress(HOST, refused ? nobody : p));
            if (block && !ok) fail("a blocking connect gives false");
            int how = y.below(3);
            if (!ok && how == 0) {
              while (!c.finishConnect()) Thread.sleep(1);
              ok = true;
            } else if (!ok) {
              Selector sel = Selector.open();
              c.register(sel, SelectionKey.OP_CONNECT, null);
              try {
                while (!ok) {
                  int s = how == 1 ? sel.select() : sel.select(20);
                  if (s > 0) {
                    SelectionKey key = sel.selectedKeys().iterator().next();
                    if (!key.isConnectable()) fail("a key is selected but not connectable");
                    ok = c.finishConnect();
                  } else if (how == 1)
                    fail("select ended without an event");
                }
              } finally {
                sel.close();
              }
            }
            if (refused) fail("a refused connection is there");
            if (!c.isConnected()) fail("finishConnect does not connect");
          } catch (IOException e) {
            if (!refused) io(e, "connect");
            Sim.probe("refused");
            c.close();
            return;
          }
          c.configureBlocking(true);
          int v = y.below(100);
          ByteBuffer b = ByteBuffer.wrap(new byte[] {(byte) v});
          if (c.write(b) != 1) fail("write does not write");
          b = ByteBuffer.wrap(new byte[4]);
          int g = c.read(b);
          if (g != 1 || b.get(0) != v + 1) fail("read gives " + g);
          if (c.read(b) != -1) fail("no end after the answer");
          c.close();
          synchronized (made) {
            ++made[0];
          }
        }
      };
    }
    ts[n] = new T(n) {
      public void go() throws Exception {
        int served = 0, idle = 0;
        for (;;) {
          boolean over;
          synchronized (made) {
            over = made[1] == n;
            if (over && made[0] != served) fail(served + " connections were accepted, " + made[0] + " made");
          }
          if (over) break;
          SocketChannel c;
          try {
            c = ss.accept();
          } catch (IOException e) {
            io(e, "accept");
            continue;
          }
          if (c == null) {
            if (!poll) fail("a blocking accept gives null");
            Thread.sleep(1);
            continue;
          }
          ByteBuffer b = ByteBuffer.wrap(new byte[1]);
          if (c.read(b) == 1) {
            ++served;
            b = ByteBuffer.wrap(new byte[] {(byte) (b.get(0) + 1)});
            c.write(b);
          } else if (poll)
            fail("the server gets nothing");
          c.close();
        }
      }
    };
    startAll(ts);
    for (int i = 0; i < n; ++i) ts[i].join();
    if (!poll) {
      // releases the server from its accept
      SocketChannel c = null;
      while (c == null)
        try {
          c = SocketChannel.open();
          c.connect(new InetSocketAddress(HOST, p));
        } catch (IOException e) {
          io(e, "connect");
          if (c != null) c.close();
          c = null;
        }
      c.close();
    }
    joinAll(ts);
    ss.close();
  }

  void run() throws Exception {
    err = param("err", 0) == 1;
    int before = Sim.openFds();
    cuts = false;
    switch (param("m", 0)) {
    case 0: streams(rng); break;
    case 1: cuts = true; streams(rng); break;
    case 2: echo(rng); break;
    case 3: wakeups(rng); break;
    case 4: datagrams(rng); break;
    case 5: connects(rng); break;
    }
    int after = Sim.openFds();
    if (after != before) fail("sockets leak: " + before + " descriptors before, " + after + " after");
  }
}

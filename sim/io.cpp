// Simulated files, pipes and TCP/UDP loopback network.
#include "sim.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/utsname.h>
#include <unistd.h>
#include <signal.h>
#include <math.h>
#include <algorithm>

extern "C" void* sim_malloc(size_t);
extern "C" void sim_free(void*);
extern "C" void* simAnonMmap(size_t n, int prot);

namespace sim {

struct Node {
  bool dir;
  std::string data;
  std::map<std::string, Node*> kids;
  mode_t mode;
  uint64_t mtime;
  int links = 0;
  int opens = 0;
};

struct Pkt {
  uint64_t at;
  std::string data;
  uint32_t host;
  uint16_t port;
};

struct Sock;
struct Sock {
  int refs = 1;
  bool dgram = false, listening = false, bound = false, connected = false, connecting = false;
  uint64_t connectAt = 0;
  int connErr = 0;
  uint32_t host = 0x7f000001;
  uint16_t port = 0;
  uint16_t peerPort = 0;
  Sock* peer = 0;           // TCP peer endpoint
  std::deque<Pkt> in;       // segments in flight or arrived
  size_t inBytes = 0;
  uint64_t eofAt = 0;       // peer shut down its sending side
  bool rst = false;
  bool shutR = false, shutW = false, closed = false;
  std::deque<Sock*> pending;  // listener backlog
  size_t window = cfg.window;
  uint64_t lastAt = 0;
};

struct PipeBuf {
  std::string data;
  int readers = 0, writers = 0;
  size_t cap = 65536;
};

enum FdType { T_FREE, T_FILE, T_DIR, T_PIPER, T_PIPEW, T_SOCK, T_STD, T_RANDOM };
struct Desc {
  FdType type = T_FREE;
  Node* node = 0;
  size_t off = 0;
  int flags = 0;
  PipeBuf* pipe = 0;
  Sock* sock = 0;
};
const int MaxFd = 256;
static Desc fds[MaxFd];
static Node* root;
static char ioChange;
static std::map<uint16_t, Sock*> tcpPorts, udpPorts;
static uint16_t nextPort = 40000;
static uint64_t bytesRead, bytesWritten, netBytes;
static size_t diskLimit = (size_t)-1, diskUsed;
static std::string cwd = "/sim/cwd";

static Node* mkNode(bool dir)
{
  Node* n = new Node();
  n->dir = dir;
  n->mode = dir ? 0755 : 0644;
  n->mtime = vnow;
  return n;
}

static std::string absPath(const char* p)
{
  std::string s = p[0] == '/' ? p : cwd + "/" + p;
  return s;
}
// resolves; *parent and *last set when the parent exists
static Node* lookup(const char* path, Node** parent = 0, std::string* last = 0, int* err = 0)
{
  std::string s = absPath(path);
  std::vector<Node*> st{root};
  Node* n = root;
  if (parent) *parent = 0;
  size_t i = 0;
  int e = ENOENT;
  while (i < s.size()) {
    while (i < s.size() && s[i] == '/') ++i;
    if (i >= s.size()) break;
    size_t j = s.find('/', i);
    if (j == std::string::npos) j = s.size();
    std::string c = s.substr(i, j - i);
    i = j;
    size_t k = i;
    while (k < s.size() && s[k] == '/') ++k;
    bool isLast = k >= s.size();
    if (!n || !n->dir) {
      if (err) *err = n ? ENOTDIR : ENOENT;
      return 0;
    }
    if (c == ".") {
      continue;
    }
    if (c == "..") {
      if (st.size() > 1) st.pop_back();
      n = st.back();
      continue;
    }
    if (isLast && parent) {
      *parent = n;
      if (last) *last = c;
    }
    auto it = n->kids.find(c);
    if (it == n->kids.end()) {
      if (err) *err = e;
      return 0;
    }
    n = it->second;
    st.push_back(n);
  }
  if (err) *err = 0;
  return n;
}

static void mkdirs(const std::string& p)
{
  Node* n = root;
  size_t i = 0;
  while (i < p.size()) {
    while (i < p.size() && p[i] == '/') ++i;
    if (i >= p.size()) break;
    size_t j = p.find('/', i);
    if (j == std::string::npos) j = p.size();
    std::string c = p.substr(i, j - i);
    i = j;
    Node*& k = n->kids[c];
    if (!k) {
      k = mkNode(true);
      k->links = 1;
    }
    n = k;
  }
}
void vfsPut(const std::string& path, const void* data, size_t n)
{
  size_t s = path.rfind('/');
  if (s != std::string::npos) mkdirs(path.substr(0, s));
  Node* parent;
  std::string last;
  Node* f = lookup(path.c_str(), &parent, &last);
  if (!f) {
    f = mkNode(false);
    f->links = 1;
    parent->kids[last] = f;
  }
  f->data.assign((const char*)data, n);
}
bool vfsGet(const std::string& path, std::string* out)
{
  Node* f = lookup(path.c_str());
  if (!f || f->dir) return false;
  *out = f->data;
  return true;
}

void ioInit()
{
  root = mkNode(true);
  mkdirs("/sim/cwd");
  mkdirs("/sim/tmp");
  mkdirs("/tmp");
  for (int i = 0; i < 3; ++i) fds[i].type = T_STD;
  for (auto& m : cfg.mounts) {
    size_t eq = m.find('=');
    if (eq == std::string::npos) continue;
    FILE* f = fopen(m.substr(0, eq).c_str(), "rb");
    if (!f) {
      fprintf(stderr, "mount: cannot read %s\n", m.c_str());
      _exit(95);
    }
    std::string d;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) d.append(b, n);
    fclose(f);
    vfsPut(m.substr(eq + 1), d.data(), d.size());
  }
}
void ioStats()
{
  int open = 0;
  for (int i = 3; i < MaxFd; ++i)
    if (fds[i].type != T_FREE) ++open;
  outf("\nIO read=%llu written=%llu net=%llu openfds=%d", (unsigned long long)bytesRead,
       (unsigned long long)bytesWritten, (unsigned long long)netBytes, open);
}

static int newFd()
{
  for (int i = 3; i < MaxFd; ++i)
    if (fds[i].type == T_FREE) {
      fds[i] = Desc();
      return i;
    }
  errno = EMFILE;
  return -1;
}
static Desc* fd(int n)
{
  if (n < 0 || n >= MaxFd || fds[n].type == T_FREE) {
    errno = EBADF;
    return 0;
  }
  return fds + n;
}
static void changed() { wakeAll(&ioChange); }

// waits for any I/O change, segment arrival or the deadline
static WaitResult ioWait(uint64_t deadline)
{
  uint64_t d = deadline;
  for (int i = 3; i < MaxFd; ++i)
    if (fds[i].type == T_SOCK) {
      Sock* s = fds[i].sock;
      auto consider = [&](uint64_t t) {
        if (t > vnow && (!d || t < d)) d = t;
      };
      if (!s->in.empty()) consider(s->in.front().at);
      if (s->eofAt) consider(s->eofAt);
      if (s->connecting) consider(s->connectAt);
    }
  return block(&ioChange, d, true);
}

static uint64_t netDelay()
{
  uint64_t d = 20;
  d += (uint64_t)fault(K_NETDELAY, cfg.netDelayP, []() -> int64_t { return (int64_t)exp(rndf() * log(200000.0)) + 1; });
  return d;
}

static size_t shorten(Kind k, size_t n)
{
  if (n <= 1) return n;
  int64_t v = fault(k, cfg.shortP, [&]() -> int64_t {
    uint64_t r = rndn(3);
    if (r == 0) return 1;
    return 1 + (int64_t)rndn(n - 1);
  });
  return v > 0 && (size_t)v < n ? (size_t)v : n;
}

static bool injectEintr()
{
  if (fault(K_EINTR, cfg.eintrP, []() -> int64_t { return 1; })) {
    errno = EINTR;
    return true;
  }
  return false;
}
static bool injectErr(int a, int b = 0)
{
  int64_t v = fault(K_IOERR, cfg.ioerrP, [&]() -> int64_t { return b && rndf() < 0.5 ? b : a; });
  if (v) {
    errno = (int)v;
    return true;
  }
  return false;
}

// --- socket helpers
static bool readable(Sock* s)
{
  if (s->listening) return !s->pending.empty();
  if (s->rst || s->shutR) return true;
  if (!s->in.empty() && s->in.front().at <= vnow) return true;
  if (s->in.empty() && s->eofAt && s->eofAt <= vnow) return true;
  return false;
}
static void settleConnect(Sock* s)
{
  if (s->connecting && s->connectAt <= vnow) {
    s->connecting = false;
    if (!s->connErr) s->connected = true;
  }
}
static bool writable(Sock* s)
{
  settleConnect(s);
  if (s->dgram) return true;
  if (s->connecting) return false;
  if (s->connErr || s->rst || s->shutW) return true;
  if (!s->connected) return false;
  return !s->peer || s->peer->inBytes < s->peer->window;
}
static void sockUnref(Sock* s)
{
  if (--s->refs == 0) delete s;
}
static void sockClose(Sock* s)
{
  if (s->closed) return;
  s->closed = true;
  if (s->listening) {
    auto it = tcpPorts.find(s->port);
    if (it != tcpPorts.end() && it->second == s) tcpPorts.erase(it);
    for (Sock* p : s->pending) {
      if (p->peer) {
        p->peer->rst = true;
        p->peer->peer = 0;
        sockUnref(p);
      }
      sockUnref(p);
    }
    s->pending.clear();
  } else if (s->dgram) {
    auto it = udpPorts.find(s->port);
    if (it != udpPorts.end() && it->second == s) udpPorts.erase(it);
  } else if (s->peer) {
    if (!s->in.empty()) s->peer->rst = true;  // unread data: RST
    else if (!s->peer->eofAt) s->peer->eofAt = std::max(vnow + netDelay(), s->peer->lastAt);
    Sock* p = s->peer;
    p->peer = 0;
    s->peer = 0;
    sockUnref(s);
    sockUnref(p);
  }
  changed();
}

static ssize_t sockRecv(int n, Desc* d, void* buf, size_t len, uint32_t* host, uint16_t* port, int flags)
{
  Sock* s = d->sock;
  if (injectEintr()) return -1;
  ++s->refs;
  ssize_t r = -1;
  bool nb = (d->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
  for (;;) {
    settleConnect(s);
    if (s->closed) {
      errno = EBADF;
      break;
    }
    if (s->listening || (!s->dgram && !s->connected && !s->rst && !s->shutR && !s->connecting)) {
      errno = ENOTCONN;
      break;
    }
    if (!s->in.empty() && s->in.front().at <= vnow && !s->rst) {
      Pkt& p = s->in.front();
      if (s->dgram) {
        size_t k = std::min(len, p.data.size());
        memcpy(buf, p.data.data(), k);
        if (host) *host = p.host;
        if (port) *port = p.port;
        s->in.pop_front();
        r = k;
      } else {
        size_t k = std::min(len, p.data.size());
        k = shorten(K_SHORTR, k);
        memcpy(buf, p.data.data(), k);
        if (k == p.data.size())
          s->in.pop_front();
        else
          p.data.erase(0, k);
        s->inBytes -= k;
        r = k;
        changed();
      }
      netBytes += r;
      break;
    }
    if (s->rst) {
      errno = ECONNRESET;
      s->rst = false;
      s->shutW = true;
      s->eofAt = 1;
      s->in.clear();
      s->inBytes = 0;
      changed();
      break;
    }
    if (s->shutR || (s->in.empty() && s->eofAt && s->eofAt <= vnow)) {
      r = 0;
      break;
    }
    if (nb) {
      errno = EAGAIN;
      break;
    }
    if (ioWait(0) == W_SIGNAL) {
      errno = EINTR;
      break;
    }
  }
  int e = errno;
  sockUnref(s);
  errno = e;
  return r;
}

static ssize_t sockSend(int n, Desc* d, const void* buf, size_t len, int flags)
{
  Sock* s = d->sock;
  if (injectEintr()) return -1;
  bool nb = (d->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
  ++s->refs;
  ssize_t r = -1;
  size_t done = 0;
  if (len && s->peer && s->connected
      && fault(K_NETRST, cfg.netRstP, []() -> int64_t { return 1; })) {
    s->rst = s->peer->rst = true;
    changed();
  }
  for (;;) {
    settleConnect(s);
    if (s->closed) {
      errno = EBADF;
      break;
    }
    if (s->rst) {
      errno = ECONNRESET;
      s->rst = false;
      s->shutW = true;
      s->eofAt = 1;
      s->in.clear();
      s->inBytes = 0;
      changed();
      break;
    }
    if (s->shutW || (s->connected && !s->peer)) {
      errno = EPIPE;
      break;
    }
    if (!s->connected) {
      errno = s->connecting ? EAGAIN : ENOTCONN;
      break;
    }
    size_t room = s->peer->window > s->peer->inBytes ? s->peer->window - s->peer->inBytes : 0;
    if (room) {
      size_t k = std::min(len - done, room);
      if (nb) k = shorten(K_SHORTW, k);
      Pkt p;
      p.at = std::max(vnow + netDelay(), s->peer->lastAt);
      s->peer->lastAt = p.at;
      p.data.assign((const char*)buf + done, k);
      // split deliveries
      s->peer->in.push_back(p);
      s->peer->inBytes += k;
      done += k;
      changed();
      if (nb || done == len) {
        r = done;
        break;
      }
      continue;
    }
    if (nb) {
      errno = EAGAIN;
      break;
    }
    if (ioWait(0) == W_SIGNAL) {
      if (done) {
        r = done;
        break;
      }
      errno = EINTR;
      break;
    }
  }
  int e = errno;
  sockUnref(s);
  errno = e;
  if (r < 0 && done && errno != EPIPE && errno != ECONNRESET) return done;
  return r;
}

}  // namespace sim

using namespace sim;

extern "C" {
#define SITE __builtin_return_address(0)

// ------------------------------------------------------------------- files
int sim_open(const char* path, int flags, ...)
{
  schedPoint(SITE);
  va_list a;
  va_start(a, flags);
  mode_t mode = (flags & O_CREAT) ? va_arg(a, mode_t) : 0;
  va_end(a);
  if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) {
    int n = newFd();
    if (n >= 0) fds[n].type = T_RANDOM;
    return n;
  }
  if (injectErr(EMFILE, EACCES)) return -1;
  Node* parent;
  std::string last;
  int err = 0;
  Node* f = lookup(path, &parent, &last, &err);
  int acc = flags & O_ACCMODE;
  if (f && f->dir && acc != O_RDONLY) {
    errno = EISDIR;
    return -1;
  }
  if (f && (flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return -1;
  }
  if (!f) {
    if (!(flags & O_CREAT) || !parent || !parent->dir) {
      errno = err ? err : ENOENT;
      return -1;
    }
    f = mkNode(false);
    f->mode = mode & 0777;
    f->links = 1;
    parent->kids[last] = f;
    parent->mtime = vnow;
  }
  int n = newFd();
  if (n < 0) return -1;
  fds[n].type = f->dir ? T_DIR : T_FILE;
  fds[n].node = f;
  fds[n].flags = flags;
  ++f->opens;
  if ((flags & O_TRUNC) && acc != O_RDONLY) f->data.clear();
  return n;
}
int sim_open64(const char* path, int flags, ...)
{
  va_list a;
  va_start(a, flags);
  mode_t mode = (flags & O_CREAT) ? va_arg(a, mode_t) : 0;
  va_end(a);
  return sim_open(path, flags, mode);
}
int sim_close(int n)
{
  schedPoint(SITE);
  Desc* d = fd(n);
  if (!d) return -1;
  Desc c = *d;
  *d = Desc();
  switch (c.type) {
  case T_FILE:
  case T_DIR:
    if (--c.node->opens == 0 && c.node->links == 0) delete c.node;
    break;
  case T_PIPER:
    if (--c.pipe->readers == 0 && c.pipe->writers == 0) delete c.pipe;
    break;
  case T_PIPEW:
    if (--c.pipe->writers == 0 && c.pipe->readers == 0) delete c.pipe;
    break;
  case T_SOCK: {
    // a thread blocked in accept/read on the descriptor keeps the file alive
    // (as on Linux): only the last reference tears the connection down
    bool shared = false;
    for (int i = 3; i < MaxFd; ++i)
      if (fds[i].type == T_SOCK && fds[i].sock == c.sock) shared = true;
    if (!shared) {
      sockClose(c.sock);
      sockUnref(c.sock);
    }
    break;
  }
  default:
    break;
  }
  changed();
  return 0;
}
ssize_t sim_read(int n, void* buf, size_t len)
{
  schedPoint(SITE);
  Desc* d = fd(n);
  if (!d) return -1;
  switch (d->type) {
  case T_STD:
    return 0;
  case T_RANDOM:
    for (size_t i = 0; i < len; ++i) {
      static uint64_t x = cfg.seed;
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      ((char*)buf)[i] = (char)(x >> 33);
    }
    return len;
  case T_DIR:
    errno = EISDIR;
    return -1;
  case T_FILE: {
    if ((d->flags & O_ACCMODE) == O_WRONLY) {
      errno = EBADF;
      return -1;
    }
    if (injectErr(EIO)) return -1;
    size_t sz = d->node->data.size();
    size_t av = d->off < sz ? sz - d->off : 0;
    size_t k = std::min(len, av);
    k = shorten(K_SHORTR, k);
    memcpy(buf, d->node->data.data() + d->off, k);
    d->off += k;
    bytesRead += k;
    return k;
  }
  case T_PIPER: {
    PipeBuf* p = d->pipe;
    for (;;) {
      if (!p->data.empty()) {
        size_t k = shorten(K_SHORTR, std::min(len, p->data.size()));
        memcpy(buf, p->data.data(), k);
        p->data.erase(0, k);
        changed();
        return k;
      }
      if (p->writers == 0) return 0;
      if (d->flags & O_NONBLOCK) {
        errno = EAGAIN;
        return -1;
      }
      if (ioWait(0) == W_SIGNAL) {
        errno = EINTR;
        return -1;
      }
      d = fd(n);
      if (!d || d->type != T_PIPER) {
        errno = EBADF;
        return -1;
      }
    }
  }
  case T_SOCK:
    return sockRecv(n, d, buf, len, 0, 0, 0);
  default:
    errno = EBADF;
    return -1;
  }
}
ssize_t sim_sendto(int n, const void* b, size_t len, int flags, const struct sockaddr* a, socklen_t);
ssize_t sim_write(int n, const void* buf, size_t len)
{
  Desc* d = fd(n);
  if (!d) return -1;
  if (d->type == T_STD) {
    if (n == 1 || n == 2) {
      if (cfg.verbose && n == 2) (void)!::write(2, buf, len);
      outWrite(buf, len);
    }
    return len;
  }
  schedPoint(SITE);
  d = fd(n);
  if (!d) return -1;
  switch (d->type) {
  case T_FILE: {
    if ((d->flags & O_ACCMODE) == O_RDONLY) {
      errno = EBADF;
      return -1;
    }
    if (injectErr(ENOSPC, EIO)) return -1;
    if (d->flags & O_APPEND) d->off = d->node->data.size();
    size_t k = shorten(K_SHORTW, len);
    if (d->off + k > d->node->data.size()) {
      size_t grow = d->off + k - d->node->data.size();
      if (diskUsed + grow > diskLimit) {
        size_t room = diskLimit > diskUsed ? diskLimit - diskUsed : 0;
        if (k > grow - room) k -= grow - room;
        else k = 0;
        if (!k) {
          errno = ENOSPC;
          return -1;
        }
        grow = d->off + k > d->node->data.size() ? d->off + k - d->node->data.size() : 0;
      }
      diskUsed += grow;
      if (d->off + k > d->node->data.size()) d->node->data.resize(d->off + k);
    }
    memcpy(&d->node->data[d->off], buf, k);
    d->off += k;
    d->node->mtime = vnow;
    bytesWritten += k;
    return k;
  }
  case T_PIPEW: {
    PipeBuf* p = d->pipe;
    size_t done = 0;
    for (;;) {
      if (p->readers == 0) {
        errno = EPIPE;
        return -1;
      }
      size_t room = p->cap - p->data.size();
      size_t k = std::min(len - done, room);
      if (k) {
        p->data.append((const char*)buf + done, k);
        done += k;
        changed();
      }
      if (done == len) return done;
      if (d->flags & O_NONBLOCK) {
        if (done) return done;
        errno = EAGAIN;
        return -1;
      }
      if (ioWait(0) == W_SIGNAL) {
        if (done) return done;
        errno = EINTR;
        return -1;
      }
    }
  }
  case T_SOCK:
    if (d->sock->dgram) return sim_sendto(n, buf, len, 0, 0, 0);
    return sockSend(n, d, buf, len, 0);
  default:
    errno = EBADF;
    return -1;
  }
}
off_t sim_lseek(int n, off_t o, int whence)
{
  schedPoint(SITE);
  Desc* d = fd(n);
  if (!d) return -1;
  if (d->type != T_FILE && d->type != T_DIR) {
    errno = ESPIPE;
    return -1;
  }
  off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off_t)d->off : (off_t)d->node->data.size();
  if (base + o < 0) {
    errno = EINVAL;
    return -1;
  }
  d->off = base + o;
  return d->off;
}
off_t sim_lseek64(int n, off_t o, int w) { return sim_lseek(n, o, w); }
static void fillStat(Node* f, struct stat* s)
{
  memset(s, 0, sizeof *s);
  s->st_mode = (f->dir ? S_IFDIR : S_IFREG) | f->mode;
  s->st_size = f->dir ? 4096 : f->data.size();
  s->st_mtime = f->mtime / 1000000;
  s->st_nlink = 1;
}
int sim_stat(const char* path, struct stat* s)
{
  schedPoint(SITE);
  int err = ENOENT;
  Node* f = lookup(path, 0, 0, &err);
  if (!f) {
    errno = err;
    return -1;
  }
  fillStat(f, s);
  return 0;
}
int sim_lstat(const char* path, struct stat* s) { return sim_stat(path, s); }
int sim_fstat(int n, struct stat* s)
{
  schedPoint(SITE);
  Desc* d = fd(n);
  if (!d) return -1;
  if (d->node)
    fillStat(d->node, s);
  else {
    memset(s, 0, sizeof *s);
    s->st_mode = d->type == T_SOCK ? S_IFSOCK : d->type == T_STD ? S_IFCHR : S_IFIFO;
  }
  return 0;
}
int sim_access(const char* path, int)
{
  schedPoint(SITE);
  int err = ENOENT;
  Node* f = lookup(path, 0, 0, &err);
  if (!f) {
    errno = err;
    return -1;
  }
  return 0;
}
int sim_chmod(const char* path, mode_t m)
{
  Node* f = lookup(path);
  if (!f) {
    errno = ENOENT;
    return -1;
  }
  f->mode = m & 0777;
  return 0;
}
int sim_mkdir(const char* path, mode_t m)
{
  schedPoint(SITE);
  Node* parent;
  std::string last;
  int err = ENOENT;
  Node* f = lookup(path, &parent, &last, &err);
  if (f) {
    errno = EEXIST;
    return -1;
  }
  if (!parent) {
    errno = err;
    return -1;
  }
  Node* k = mkNode(true);
  k->links = 1;
  k->mode = m & 0777;
  parent->kids[last] = k;
  return 0;
}
int sim_remove(const char* path)
{
  schedPoint(SITE);
  Node* parent;
  std::string last;
  Node* f = lookup(path, &parent, &last);
  if (!f || !parent) {
    errno = ENOENT;
    return -1;
  }
  if (f->dir && !f->kids.empty()) {
    errno = ENOTEMPTY;
    return -1;
  }
  parent->kids.erase(last);
  f->links = 0;
  if (!f->opens) delete f;
  return 0;
}
int sim_unlink(const char* path) { return sim_remove(path); }
int sim_rmdir(const char* path) { return sim_remove(path); }
int sim_rename(const char* a, const char* b)
{
  schedPoint(SITE);
  Node *pa, *pb;
  std::string la, lb;
  Node* f = lookup(a, &pa, &la);
  if (!f || !pa) {
    errno = ENOENT;
    return -1;
  }
  int err = ENOENT;
  Node* t = lookup(b, &pb, &lb, &err);
  if (!pb) {
    errno = err;
    return -1;
  }
  if (t == f) return 0;
  if (t) {
    if (t->dir && !t->kids.empty()) {
      errno = ENOTEMPTY;
      return -1;
    }
    if (t->dir != f->dir) {
      errno = t->dir ? EISDIR : ENOTDIR;
      return -1;
    }
    t->links = 0;
    if (!t->opens) delete t;
  }
  pa->kids.erase(la);
  pb->kids[lb] = f;
  return 0;
}
struct SimDir {
  std::vector<std::string> names;
  size_t i;
  struct dirent e;
};
DIR* sim_opendir(const char* path)
{
  schedPoint(SITE);
  int err = ENOENT;
  Node* f = lookup(path, 0, 0, &err);
  if (!f || !f->dir) {
    errno = f ? ENOTDIR : err;
    return 0;
  }
  SimDir* d = new SimDir();
  d->i = 0;
  d->names.push_back(".");
  d->names.push_back("..");
  for (auto& k : f->kids) d->names.push_back(k.first);
  return (DIR*)d;
}
struct dirent* sim_readdir(DIR* p)
{
  SimDir* d = (SimDir*)p;
  if (d->i >= d->names.size()) return 0;
  memset(&d->e, 0, sizeof d->e);
  strncpy(d->e.d_name, d->names[d->i++].c_str(), sizeof d->e.d_name - 1);
  return &d->e;
}
int sim_closedir(DIR* p)
{
  delete (SimDir*)p;
  return 0;
}
char* sim_getcwd(char* b, size_t n)
{
  if (cwd.size() + 1 > n) {
    errno = ERANGE;
    return 0;
  }
  strcpy(b, cwd.c_str());
  return b;
}
char* sim_getenv(const char*) { return 0; }
static char* emptyEnv[] = {(char*)"SIM=1", 0};
char** sim_environ = emptyEnv;
void* sim_mmap(void* addr, size_t len, int prot, int flags, int n, off_t off)
{
  schedPoint(SITE);
  if (n < 0) return simAnonMmap(len, prot);
  Desc* d = fd(n);
  if (!d || d->type != T_FILE || len == 0) {
    errno = d ? EINVAL : EBADF;
    return MAP_FAILED;
  }
  char* p = (char*)simAnonMmap(len, PROT_READ | PROT_WRITE);
  if (p == MAP_FAILED) return p;
  const std::string& s = d->node->data;
  if ((size_t)off < s.size()) memcpy(p, s.data() + off, std::min(len, s.size() - off));
  mprotect(p, (len + 4095) & ~4095ull, prot);
  return p;
}
int sim_munmap(void* p, size_t n)
{
  schedPoint(SITE);
  return munmap(p, (n + 4095) & ~4095ull);
}
int sim_msync(void*, size_t, int) { return 0; }
int sim_fsync(int) { return 0; }
int sim_ftruncate(int n, off_t len)
{
  Desc* d = fd(n);
  if (!d || d->type != T_FILE) {
    errno = EINVAL;
    return -1;
  }
  d->node->data.resize(len);
  return 0;
}
FILE* sim_fopen(const char*, const char*)
{
  errno = ENOENT;
  return 0;
}
int sim_uname(struct utsname* u)
{
  memset(u, 0, sizeof *u);
  strcpy(u->sysname, "Linux");
  strcpy(u->release, "5.0.0");
  strcpy(u->machine, "x86_64");
  return 0;
}
long sim_sysconf(int) { return 4; }

// ------------------------------------------------------------------- pipes
int sim_pipe(int p[2])
{
  schedPoint(SITE);
  if (injectErr(EMFILE)) return -1;
  int a = newFd();
  if (a < 0) return -1;
  fds[a].type = T_PIPER;
  int b = newFd();
  if (b < 0) {
    fds[a] = Desc();
    return -1;
  }
  fds[b].type = T_PIPEW;
  fds[a].pipe = fds[b].pipe = new PipeBuf();
  fds[a].pipe->readers = fds[a].pipe->writers = 1;
  p[0] = a;
  p[1] = b;
  return 0;
}
int sim_dup2(int, int)
{
  errno = ENOSYS;
  return -1;
}
int sim_fcntl(int n, int cmd, ...)
{
  schedPoint(SITE);
  va_list a;
  va_start(a, cmd);
  long arg = va_arg(a, long);
  va_end(a);
  Desc* d = fd(n);
  if (!d) return -1;
  if (cmd == F_GETFL) return d->flags;
  if (cmd == F_SETFL) {
    d->flags = (d->flags & ~O_NONBLOCK) | ((int)arg & O_NONBLOCK);
    return 0;
  }
  return 0;
}
int sim_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
pid_t sim_fork(void)
{
  errno = EAGAIN;
  return -1;
}
int sim_execvp(const char*, char* const*)
{
  errno = ENOENT;
  return -1;
}
pid_t sim_waitpid(pid_t, int*, int)
{
  errno = ECHILD;
  return -1;
}
int sim_kill(pid_t, int)
{
  errno = ESRCH;
  return -1;
}
pid_t sim_getpid(void) { return 4242; }

// ------------------------------------------------------------------ sockets
int sim_socket(int, int type, int)
{
  schedPoint(SITE);
  if (injectErr(EMFILE)) return -1;
  int n = newFd();
  if (n < 0) return -1;
  fds[n].type = T_SOCK;
  fds[n].sock = new Sock();
  fds[n].sock->dgram = (type & 0xf) == SOCK_DGRAM;
  return n;
}
static Desc* sockFd(int n)
{
  Desc* d = fd(n);
  if (!d) return 0;
  if (d->type != T_SOCK) {
    errno = ENOTSOCK;
    return 0;
  }
  return d;
}
static uint16_t autoPort(bool dgram)
{
  auto& m = dgram ? udpPorts : tcpPorts;
  while (m.count(nextPort)) ++nextPort;
  return nextPort++;
}
int sim_bind(int n, const struct sockaddr* a, socklen_t)
{
  schedPoint(SITE);
  Desc* d = sockFd(n);
  if (!d) return -1;
  const sockaddr_in* in = (const sockaddr_in*)a;
  uint16_t port = ntohs(in->sin_port);
  Sock* s = d->sock;
  if (s->bound) {
    errno = EINVAL;
    return -1;
  }
  auto& m = s->dgram ? udpPorts : tcpPorts;
  if (port && m.count(port)) {
    errno = EADDRINUSE;
    return -1;
  }
  if (!port) port = autoPort(s->dgram);
  s->port = port;
  if (in->sin_addr.s_addr) s->host = ntohl(in->sin_addr.s_addr);
  s->bound = true;
  if (s->dgram) m[port] = s;
  return 0;
}
int sim_listen(int n, int)
{
  schedPoint(SITE);
  Desc* d = sockFd(n);
  if (!d) return -1;
  Sock* s = d->sock;
  if (!s->bound) s->port = autoPort(false);
  if (tcpPorts.count(s->port) && tcpPorts[s->port] != s) {
    errno = EADDRINUSE;
    return -1;
  }
  s->bound = s->listening = true;
  tcpPorts[s->port] = s;
  changed();
  return 0;
}
int sim_connect(int n, const struct sockaddr* a, socklen_t)
{
  schedPoint(SITE);
  Desc* d = sockFd(n);
  if (!d) return -1;
  const sockaddr_in* in = (const sockaddr_in*)a;
  uint16_t port = ntohs(in->sin_port);
  Sock* s = d->sock;
  if (s->dgram) {
    s->peerPort = port;
    s->connected = true;
    if (!s->bound) {
      s->port = autoPort(true);
      s->bound = true;
      udpPorts[s->port] = s;
    }
    return 0;
  }
  settleConnect(s);
  if (s->connected) {
    errno = EISCONN;
    return -1;
  }
  if (s->connecting) {
    errno = EALREADY;
    return -1;
  }
  if (injectEintr()) return -1;
  auto it = tcpPorts.find(port);
  s->connectAt = vnow + netDelay();
  if (it == tcpPorts.end() || !it->second->listening || it->second->pending.size() >= 100) {
    s->connErr = ECONNREFUSED;
  } else {
    s->connErr = 0;
    if (!s->bound) {
      s->port = autoPort(false);
      s->bound = true;
    }
    Sock* p = new Sock();
    p->connected = true;
    p->port = port;
    p->peerPort = s->port;
    p->bound = true;
    p->peer = s;
    s->peer = p;
    s->peerPort = port;
    ++p->refs;
    ++s->refs;
    it->second->pending.push_back(p);
  }
  s->connecting = true;
  changed();
  if (d->flags & O_NONBLOCK) {
    errno = EINPROGRESS;
    return -1;
  }
  ++s->refs;
  int r = -1;
  for (;;) {
    if (s->closed) {
      errno = EBADF;
      break;
    }
    settleConnect(s);
    if (!s->connecting) {
      if (s->connErr) {
        errno = s->connErr;
        s->connErr = 0;
      } else
        r = 0;
      break;
    }
    if (ioWait(0) == W_SIGNAL) {
      errno = EINTR;
      break;
    }
  }
  int e = errno;
  sockUnref(s);
  errno = e;
  return r;
}
int sim_accept(int n, struct sockaddr* a, socklen_t* len)
{
  schedPoint(SITE);
  Desc* d = sockFd(n);
  if (!d) return -1;
  Sock* s = d->sock;
  if (!s->listening) {
    errno = EINVAL;
    return -1;
  }
  if (injectEintr()) return -1;
  if (injectErr(EMFILE, ECONNABORTED)) return -1;
  ++s->refs;
  int r = -1;
  for (;;) {
    if (s->shutR) {
      errno = EINVAL;
      break;
    }
    if (!s->pending.empty()) {
      if (a && !len) {  // Linux: EFAULT, and the connection is dropped
        Sock* p = s->pending.front();
        s->pending.pop_front();
        sockClose(p);
        sockUnref(p);
        errno = EFAULT;
        break;
      }
      int f = newFd();
      if (f < 0) break;
      Sock* p = s->pending.front();
      s->pending.pop_front();
      fds[f].type = T_SOCK;
      fds[f].sock = p;
      if (a) {
        sockaddr_in in;
        memset(&in, 0, sizeof in);
        in.sin_family = AF_INET;
        in.sin_port = htons(p->peerPort);
        in.sin_addr.s_addr = htonl(0x7f000001);
        memcpy(a, &in, std::min((size_t)*len, sizeof in));
        *len = sizeof in;
      }
      r = f;
      break;
    }
    if (d->flags & O_NONBLOCK) {
      errno = EAGAIN;
      break;
    }
    if (s->closed) {
      // Linux: accept stays blocked on a closed descriptor
    }
    if (ioWait(0) == W_SIGNAL) {
      errno = EINTR;
      break;
    }
  }
  int e = errno;
  sockUnref(s);
  errno = e;
  return r;
}
ssize_t sim_recv(int n, void* b, size_t len, int flags)
{
  schedPoint(SITE);
  Desc* d = sockFd(n);
  return d ? sockRecv(n, d, b, len, 0, 0, flags) : -1;
}
ssize_t sim_recvfrom(int n, void* b, size_t len, int flags, struct sockaddr* a, socklen_t* al)
{
  schedPoint(SITE);
  Desc* d = sockFd(n);
  if (!d) return -1;
  uint32_t host = 0;
  uint16_t port = 0;
  ssize_t r = sockRecv(n, d, b, len, &host, &port, flags);
  if (r >= 0 && a && al) {
    sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_port = htons(port);
    in.sin_addr.s_addr = htonl(host);
    memcpy(a, &in, std::min((size_t)*al, sizeof in));
    *al = sizeof in;
  }
  return r;
}
ssize_t sim_sendto(int n, const void* b, size_t len, int flags, const struct sockaddr* a, socklen_t);
ssize_t sim_send(int n, const void* b, size_t len, int flags)
{
  schedPoint(SITE);
  Desc* d = sockFd(n);
  if (!d) return -1;
  if (d->sock->dgram) return sim_sendto(n, b, len, flags, 0, 0);
  return sockSend(n, d, b, len, flags);
}
ssize_t sim_sendto(int n, const void* b, size_t len, int flags, const struct sockaddr* a, socklen_t)
{
  schedPoint(SITE);
  Desc* d = sockFd(n);
  if (!d) return -1;
  Sock* s = d->sock;
  if (!s->dgram) return sockSend(n, d, b, len, flags);
  uint16_t port = a ? ntohs(((const sockaddr_in*)a)->sin_port) : s->peerPort;
  if (!port) {
    errno = EDESTADDRREQ;
    return -1;
  }
  if (!s->bound) {
    s->port = autoPort(true);
    s->bound = true;
    udpPorts[s->port] = s;
  }
  auto it = udpPorts.find(port);
  if (it == udpPorts.end()) return len;
  int copies = 1;
  if (fault(K_NETRST, cfg.netRstP, []() -> int64_t { return 1 + rndn(2); })) copies = rndn(2) ? 2 : 0;
  for (int i = 0; i < copies; ++i) {
    Pkt p;
    p.at = vnow + netDelay();
    p.data.assign((const char*)b, len);
    p.host = s->host;
    p.port = s->port;
    auto& q = it->second->in;
    auto pos = q.end();
    while (pos != q.begin() && (pos - 1)->at > p.at) --pos;
    q.insert(pos, p);
  }
  changed();
  return len;
}
int sim_shutdown(int n, int how)
{
  schedPoint(SITE);
  Desc* d = sockFd(n);
  if (!d) return -1;
  Sock* s = d->sock;
  settleConnect(s);
  if (s->listening) {
    if (how == SHUT_RD || how == SHUT_RDWR) s->shutR = true;
    changed();
    return 0;
  }
  if (!s->connected) {
    errno = ENOTCONN;
    return -1;
  }
  if (how == SHUT_RD || how == SHUT_RDWR) s->shutR = true;
  if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shutW) {
    s->shutW = true;
    if (s->peer) s->peer->eofAt = std::max(vnow + netDelay(), s->peer->lastAt);
  }
  changed();
  return 0;
}
int sim_getsockopt(int n, int level, int opt, void* v, socklen_t* len)
{
  schedPoint(SITE);
  Desc* d = sockFd(n);
  if (!d) return -1;
  int r = 0;
  if (level == SOL_SOCKET && opt == SO_ERROR) {
    settleConnect(d->sock);
    if (!d->sock->connecting) {
      r = d->sock->connErr;
      d->sock->connErr = 0;
    }
  }
  if (*len >= sizeof(int)) {
    memcpy(v, &r, sizeof r);
    *len = sizeof r;
  }
  return 0;
}
int sim_setsockopt(int n, int, int, const void*, socklen_t) { return sockFd(n) ? 0 : -1; }
int sim_getsockname(int n, struct sockaddr* a, socklen_t* len)
{
  Desc* d = sockFd(n);
  if (!d) return -1;
  sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET;
  in.sin_port = htons(d->sock->port);
  in.sin_addr.s_addr = htonl(0x7f000001);
  memcpy(a, &in, std::min((size_t)*len, sizeof in));
  *len = sizeof in;
  return 0;
}
int sim_getpeername(int n, struct sockaddr* a, socklen_t* len)
{
  Desc* d = sockFd(n);
  if (!d) return -1;
  sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET;
  in.sin_port = htons(d->sock->peerPort);
  in.sin_addr.s_addr = htonl(0x7f000001);
  memcpy(a, &in, std::min((size_t)*len, sizeof in));
  *len = sizeof in;
  return 0;
}
static bool fdReadable(int n)
{
  Desc& d = fds[n];
  switch (d.type) {
  case T_SOCK: return readable(d.sock);
  case T_PIPER: return !d.pipe->data.empty() || d.pipe->writers == 0;
  case T_FREE: return false;
  default: return true;
  }
}
static bool fdWritable(int n)
{
  Desc& d = fds[n];
  switch (d.type) {
  case T_SOCK: return !d.sock->listening && writable(d.sock);
  case T_PIPEW: return d.pipe->data.size() < d.pipe->cap || d.pipe->readers == 0;
  case T_FREE: return false;
  default: return true;
  }
}
int sim_select(int max, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv)
{
  schedPoint(SITE);
  if (max > MaxFd) max = MaxFd;
  for (int i = 0; i < max; ++i)
    if (((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w)) || (x && FD_ISSET(i, x)))
        && fds[i].type == T_FREE) {
      errno = EBADF;
      return -1;
    }
  if (injectEintr()) return -1;
  uint64_t deadline = tv ? vnow + tv->tv_sec * 1000000ull + tv->tv_usec : 0;
  fd_set ir, iw;
  FD_ZERO(&ir);
  FD_ZERO(&iw);
  if (r) ir = *r;
  if (w) iw = *w;
  for (;;) {
    fd_set or_, ow;
    FD_ZERO(&or_);
    FD_ZERO(&ow);
    int c = 0;
    for (int i = 0; i < max; ++i) {
      if (r && FD_ISSET(i, &ir) && fdReadable(i)) {
        FD_SET(i, &or_);
        ++c;
      }
      if (w && FD_ISSET(i, &iw) && fdWritable(i)) {
        FD_SET(i, &ow);
        ++c;
      }
    }
    if (c || (tv && deadline <= vnow)) {
      if (r) *r = or_;
      if (w) *w = ow;
      if (x) FD_ZERO(x);
      return c;
    }
    if (ioWait(deadline) == W_SIGNAL) {
      errno = EINTR;
      return -1;
    }
  }
}
int sim_poll(struct pollfd* p, nfds_t n, int timeout)
{
  schedPoint(SITE);
  uint64_t deadline = timeout >= 0 ? vnow + timeout * 1000ull : 0;
  for (;;) {
    int c = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      if (!fd(p[i].fd)) p[i].revents = POLLNVAL;
      else {
        if ((p[i].events & POLLIN) && fdReadable(p[i].fd)) p[i].revents |= POLLIN;
        if ((p[i].events & POLLOUT) && fdWritable(p[i].fd)) p[i].revents |= POLLOUT;
      }
      if (p[i].revents) ++c;
    }
    if (c || (timeout >= 0 && deadline <= vnow)) return c;
    if (ioWait(deadline) == W_SIGNAL) {
      errno = EINTR;
      return -1;
    }
  }
}
int sim_getaddrinfo(const char* node, const char*, const struct addrinfo*, struct addrinfo** res)
{
  schedPoint(SITE);
  sockaddr_in* in = (sockaddr_in*)sim_malloc(sizeof(sockaddr_in));
  memset(in, 0, sizeof *in);
  in->sin_family = AF_INET;
  if (!node || !strcmp(node, "localhost"))
    in->sin_addr.s_addr = htonl(0x7f000001);
  else if (!inet_aton(node, &in->sin_addr)) {
    sim_free(in);
    return EAI_NONAME;
  }
  addrinfo* a = (addrinfo*)sim_malloc(sizeof(addrinfo));
  memset(a, 0, sizeof *a);
  a->ai_family = AF_INET;
  a->ai_socktype = SOCK_STREAM;
  a->ai_addrlen = sizeof *in;
  a->ai_addr = (sockaddr*)in;
  *res = a;
  return 0;
}
void sim_freeaddrinfo(struct addrinfo* a)
{
  if (a) {
    sim_free(a->ai_addr);
    sim_free(a);
  }
}
}

// natives used by workloads to look at and edit the simulated disk
#include <jni.h>
static std::string js(JNIEnv* e, jstring s)
{

  const char* c = e->GetStringUTFChars(s, 0);
  std::string r = c ? c : "";
  e->ReleaseStringUTFChars(s, c);
  return r;
}
extern "C" {
#define JNI(ret, name) __attribute__((visibility("default"))) ret Java_sim_Sim_##name
JNI(void, put)(JNIEnv* e, jclass, jstring path, jbyteArray a)
{

  std::string p = js(e, path);
  jsize n = e->GetArrayLength(a);
  std::string d(n, 0);
  e->GetByteArrayRegion(a, 0, n, (jbyte*)&d[0]);
  vfsPut(p, d.data(), d.size());
}
JNI(jbyteArray, get)(JNIEnv* e, jclass, jstring path)
{

  std::string p = js(e, path), d;
  if (!vfsGet(p, &d)) return 0;
  jbyteArray a = e->NewByteArray(d.size());
  if (a) e->SetByteArrayRegion(a, 0, d.size(), (const jbyte*)d.data());
  return a;
}
JNI(void, diskLimit)(JNIEnv*, jclass, jlong n)
{
  diskLimit = n < 0 ? (size_t)-1 : diskUsed + n;
}
JNI(jint, openFds)(JNIEnv*, jclass)
{
  int n = 0;
  for (int i = 3; i < MaxFd; ++i)
    if (fds[i].type != T_FREE) ++n;
  return n;
}
}

// Core of the deterministic simulator: fibers, scheduler, decisions, virtual
// clock, pthread model, signals, allocator, access hooks.
#include "sim.h"

#include <errno.h>
#include <execinfo.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <dlfcn.h>
#include <math.h>
#include <set>
#include <algorithm>
#include <unordered_map>

namespace sim {

const char* kindName[K_COUNT] = {"preempt", "sync",    "pick",   "time",
                                 "signalee", "spurious", "gc",    "shortr",
                                 "shortw",  "eintr",   "ioerr",  "netdelay",
                                 "netrst",  "crash",   "alloc",  "work",
                                 "tick",    "step", "start"};

Config cfg;
Fiber* cur;
std::vector<Fiber*> fibers;
bool armed;
uint64_t vnow = 1600000000000000ull;
uint64_t vbegin;
uint64_t eventSeq;
int64_t budget;
static int64_t budgetStart;
static uint64_t totalAcc;
static uint64_t armedAcc;
static uint64_t switches, preempts;
static uint64_t hash = 0xcbf29ce484222325ull, ilHash = 0xcbf29ce484222325ull;
uint64_t kindFired[K_COUNT];
int faultsLeft;
static uint64_t switchInAcc;
static int64_t minPrio;
static std::string out;
static std::string written; // what the program wrote to its standard output and error
static std::string trace;
static std::map<std::string, uint64_t> probes;
static bool failed;
static std::string firstFail;
static bool finishing;

const uint64_t Fairness = 2000000;

// ------------------------------------------------------------------ PRNG
static uint64_t rs[4];
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t splitmix(uint64_t& x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t rnd()
{
  uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17;
  rs[2] ^= rs[0];
  rs[3] ^= rs[1];
  rs[1] ^= rs[2];
  rs[0] ^= rs[3];
  rs[2] ^= t;
  rs[3] = rotl(rs[3], 45);
  return r;
}
double rndf() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }

void hashMix(uint64_t v)
{
  hash = (hash ^ v) * 0x100000001b3ull;
  hash ^= hash >> 29;
}

// ------------------------------------------------------------------ output
void outf(const char* fmt, ...)
{
  char buf[4096];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, a);
  va_end(a);
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  if (n > 0) out.append(buf, n);
}
static void outAppend(const void* p, size_t n)
{
  if (out.size() < (16u << 20)) out.append((const char*)p, n);
}
void outWrite(const void* p, size_t n)
{
  if (written.size() < (4u << 20)) written.append((const char*)p, n);
}
void failMsg(const char* fmt, ...)
{
  char buf[2048];
  va_list a;
  va_start(a, fmt);
  vsnprintf(buf, sizeof buf, fmt, a);
  va_end(a);
  for (char* p = buf; *p; ++p)
    if (*p == '\n') *p = ' ';
  if (!failed) {
    firstFail = buf;
    // no need to go on for long
    uint64_t now = totalAcc + (uint64_t)(budgetStart - budget);
    if (now + 30000000 < cfg.stepLimit) cfg.stepLimit = now + 30000000;
  }
  failed = true;
  outf("\nF %s\n", buf);
}
void probe(const char* name) { probes[name]++; }

static void rawWrite(int fd, const std::string& s)
{
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = ::write(fd, s.data() + o, s.size() - o);
    if (n < 0) {
      if (errno == EINTR) continue;
      break;
    }
    o += n;
  }
}

static void syncAcc();
static Fiber* dumper;
static void dumpSelf()
{
  void* bt[24];
  int n = backtrace(bt, 24);
  outf("\nBT %d", cur->id);
  for (int i = 0; i < n; ++i) outf(" %p", bt[i]);
}
static void dumpFibers();

void finish(const char* status, int code, const char* fmt, ...)
{
  if (finishing) _exit(99);
  finishing = true;
  syncAcc();
  char buf[1024];
  va_list a;
  va_start(a, fmt);
  vsnprintf(buf, sizeof buf, fmt, a);
  va_end(a);
  for (char* p = buf; *p; ++p)
    if (*p == '\n') *p = ' ';
  hashMix(totalAcc);
  outf("\n");
  outAppend(written.data(), written.size());
  for (char c : out) hashMix((unsigned char)c);
  ioStats();
  outf("\nP");
  for (auto& p : probes) outf(" %s=%llu", p.first.c_str(), (unsigned long long)p.second);
  outf("\nD");
  for (int k = 0; k < K_COUNT; ++k)
    if (kindFired[k]) outf(" %s=%llu", kindName[k], (unsigned long long)kindFired[k]);
  if (!strcmp(status, "abort") || !strcmp(status, "crash")) {
    void* bt[24];
    int n = backtrace(bt, 24);
    outf("\nB");
    for (int i = 0; i < n; ++i) outf(" %p", bt[i]);
  }
  if (!strcmp(status, "deadlock") || !strcmp(status, "steplimit") || !strcmp(status, "timelimit"))
    dumpFibers();
  uint64_t vt = vbegin ? vnow - vbegin : 0;
  outf("\nR status=%s code=%d hash=%016llx il=%016llx acc=%llu switches=%llu "
       "preempts=%llu vtime=%llu fibers=%zu failed=%d msg=%s\n",
       status, code, (unsigned long long)hash, (unsigned long long)ilHash,
       (unsigned long long)(totalAcc - armedAcc), (unsigned long long)switches,
       (unsigned long long)preempts, (unsigned long long)vt, fibers.size(), failed,
       buf);
  if (!cfg.traceOut.empty()) {
    FILE* f = fopen(cfg.traceOut.c_str(), "w");
    if (f) {
      fwrite(trace.data(), 1, trace.size(), f);
      fclose(f);
    }
  }
  rawWrite(1, out);
  _exit(0);
}

// --------------------------------------------------------------- decisions
static std::unordered_map<uint64_t, int64_t> replayTable;
static std::map<int, std::map<uint64_t, int64_t>> replayPre;

static uint64_t key(int k, int fiber, uint64_t ord)
{
  return ((uint64_t)k << 58) ^ ((uint64_t)fiber << 40) ^ ord;
}
void logDecision(Kind k, int fiber, uint64_t ordinal, int64_t value)
{
  ++kindFired[k];
  hashMix(key(k, fiber, ordinal));
  hashMix(value);
  if (!cfg.traceOut.empty()) {
    char b[96];
    snprintf(b, sizeof b, "%s %d %llu %lld\n", kindName[k], fiber,
             (unsigned long long)ordinal, (long long)value);
    trace += b;
  }
}
int64_t chooseReplay(Kind k, int64_t def, uint64_t ordinal)
{
  auto it = replayTable.find(key(k, cur->id, ordinal));
  return it == replayTable.end() ? def : it->second;
}
static void loadReplay(const char* path)
{
  FILE* f = fopen(path, "r");
  if (!f) {
    fprintf(stderr, "cannot read %s\n", path);
    _exit(98);
  }
  char line[256];
  while (fgets(line, sizeof line, f)) {
    char kind[64];
    int fiber;
    unsigned long long ord;
    long long val;
    if (sscanf(line, "%63s %d %llu %lld", kind, &fiber, &ord, &val) != 4) continue;
    for (int k = 0; k < K_COUNT; ++k)
      if (!strcmp(kind, kindName[k])) {
        if (k == K_PREEMPT)
          replayPre[fiber][ord] = val;
        else
          replayTable[key(k, fiber, ord)] = val;
      }
  }
  fclose(f);
}

// ------------------------------------------------------------------ fibers
extern "C" void sim_switch(void** save, void* to);
__asm__(
    ".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

static const uintptr_t StackBase = 0x300000000000ull;
static const size_t StackSize = 8 << 20;
static uintptr_t nextStack = StackBase;
static std::vector<char*> freeStacks;

static char* newStack()
{
  if (!freeStacks.empty()) {
    char* s = freeStacks.back();
    freeStacks.pop_back();
    return s;
  }
  void* p = mmap((void*)nextStack, StackSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANON | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) {
    perror("stack");
    _exit(97);
  }
  mprotect(p, 65536, PROT_NONE);
  nextStack += StackSize;
  return (char*)p;
}

static void drawGap(Fiber* f)
{
  if (cfg.replay) {
    f->nextPre = UINT64_MAX;
    auto it = replayPre.find(f->id);
    if (it != replayPre.end()) {
      auto j = it->second.upper_bound(f->acc);
      if (j != it->second.end()) {
        f->nextPre = j->first;
        f->nextPreTarget = (int)j->second;
      }
    }
    return;
  }
  if (!armed || cfg.meanGap <= 0) {
    f->nextPre = UINT64_MAX;
    return;
  }
  double g = -log(1.0 - rndf()) * (f->hot && cfg.hotGap > 0 ? cfg.hotGap : cfg.meanGap);
  f->nextPre = f->acc + 1 + (uint64_t)g;
}

static void setBudget()
{
  uint64_t b = 200000;
  if (cur->nextPre != UINT64_MAX) {
    uint64_t d = cur->nextPre > cur->acc ? cur->nextPre - cur->acc : 1;
    if (d < b) b = d;
  }
  uint64_t fair = switchInAcc + Fairness;
  uint64_t d = fair > cur->acc ? fair - cur->acc : 1;
  if (d < b) b = d;
  // the limit takes effect at the same access whatever the budgets were
  d = cfg.stepLimit + 1 > totalAcc ? cfg.stepLimit + 1 - totalAcc : 1;
  if (d < b) b = d;
  budget = budgetStart = (int64_t)b - 1;
}

static void syncAcc()
{
  if (!cur) return;
  uint64_t d = (uint64_t)(budgetStart - budget);
  if ((int64_t)d < 0) d = 0;
  cur->acc += d;
  totalAcc += d;
  static uint64_t rem;
  rem += d;
  vnow += rem / 128;
  rem %= 128;
  budgetStart = budget;
}

static uint64_t blockSeqCounter;
static std::unordered_map<int, uint64_t> blockSeq;

static void expireTimers()
{
  for (Fiber* f : fibers)
    if (f->state == F_BLOCKED && f->wakeAt && f->wakeAt <= vnow) {
      f->timedOut = true;
      f->state = F_RUNNABLE;
      f->wakeAt = 0;
    }
}

static void deadlock()
{
  std::string d;
  for (Fiber* f : fibers)
    if (f->state == F_BLOCKED) {
      char b[64];
      snprintf(b, sizeof b, " t%d@%p", f->id, f->waitObj);
      d += b;
    }
  finish("deadlock", 0, "no runnable thread and no timer:%s", d.c_str());
}

static void checkLimits()
{
  if (totalAcc > cfg.stepLimit)
    finish("steplimit", 0, "step limit %llu", (unsigned long long)cfg.stepLimit);
  if (cfg.timeLimit && vbegin && vnow - vbegin > cfg.timeLimit)
    finish("timelimit", 0, "virtual time limit");
}

static void accountSwitch(Fiber* from, Fiber* to, const void* site)
{
  ++switches;
  hashMix((uint64_t)from->id * 131 + to->id);
  hashMix(from->acc);
  if (armed) {
    ilHash = (ilHash ^ ((uint64_t)from->id * 64 + to->id)) * 0x100000001b3ull;
    ilHash = (ilHash ^ ((uintptr_t)site >> 2)) * 0x100000001b3ull;
  }
}

static void switchTo(Fiber* f, const void* site)
{
  if (f == cur) {
    setBudget();
    return;
  }
  Fiber* old = cur;
  accountSwitch(old, f, site);
  old->err = errno;
  old->lastRun = ++blockSeqCounter;
  cur = f;
  switchInAcc = f->acc;
  drawGap(f);
  setBudget();
  sim_switch(&old->sp, f->sp);
  // running again as old (== cur)
  while (dumper) {
    dumpSelf();
    void* dummy;
    sim_switch(&dummy, dumper->sp);
  }
  errno = cur->err;
}

// writes the stack of every blocked thread
static void dumpFibers()
{
  Fiber* me = cur;
  dumpSelf();
  for (Fiber* f : fibers)
    if (f != me && f->state == F_BLOCKED && f->sp) {
      cur = f;
      dumper = me;
      sim_switch(&me->sp, f->sp);
      dumper = 0;
    }
  cur = me;
}

static Fiber* defaultNext()
{
  size_t n = fibers.size();
  for (size_t i = 1; i <= n; ++i) {
    Fiber* f = fibers[(cur->id + i) % n];
    if (f->state == F_RUNNABLE && f != cur) return f;
  }
  return cur->state == F_RUNNABLE ? cur : 0;
}

static int runnableOthers(Fiber** buf)
{
  int n = 0;
  for (Fiber* f : fibers)
    if (f != cur && f->state == F_RUNNABLE) buf[n++] = f;
  return n;
}

static Fiber* policyPick(bool includeCur)
{
  Fiber* buf[4096];
  int n = runnableOthers(buf);
  if (includeCur && cur->state == F_RUNNABLE) buf[n++] = cur;
  if (!n) return 0;
  if (cfg.policy == 1) {
    Fiber* best = buf[0];
    for (int i = 1; i < n; ++i)
      if (buf[i]->prio > best->prio) best = buf[i];
    return best;
  }
  return buf[rndn(n)];
}

static void timeJitter()
{
  if (!armed) return;
  int64_t dt = choose(K_TIME, 0, [&]() -> int64_t {
    if (cfg.timeP <= 0 || rndf() >= cfg.timeP) return 0;
    // log-uniform up to timeMax
    double m = log((double)cfg.timeMax + 1);
    return (int64_t)exp(rndf() * m);
  });
  if (dt) {
    vnow += dt;
    expireTimers();
  }
}

// current fiber cannot continue (blocked or done): choose another
static void scheduleAway(const void* site)
{
  for (;;) {
    syncAcc();
    checkLimits();
    expireTimers();
    if (cur->state == F_RUNNABLE) {
      // woken by its own timer already
    }
    Fiber* def = defaultNext();
    if (def) {
      Fiber* t = def;
      int64_t v = choose(K_PICK, 0, [&]() -> int64_t {
        Fiber* p = policyPick(true);
        return p && p != def ? p->id + 1 : 0;
      });
      if (v > 0 && (size_t)v <= fibers.size() && fibers[v - 1]->state == F_RUNNABLE)
        t = fibers[v - 1];
      switchTo(t, site);
      return;
    }
    uint64_t earliest = 0;
    for (Fiber* f : fibers)
      if (f->state == F_BLOCKED && f->wakeAt && (!earliest || f->wakeAt < earliest))
        earliest = f->wakeAt;
    if (!earliest) deadlock();
    if (earliest > vnow) vnow = earliest;
  }
}

void schedPoint(const void* site)
{
  syncAcc();
  ++vnow;
  if (!armed || cur->nopreempt || cur->inSignal) {
    setBudget();
    return;
  }
  checkLimits();
  timeJitter();
  int64_t v = choose(K_SYNC, 0, [&]() -> int64_t {
    if (cfg.syncP <= 0 || rndf() >= cfg.syncP) return 0;
    if (cfg.policy == 1) {
      Fiber* buf[4096];
      if (!runnableOthers(buf)) return 0;
      cur->prio = --minPrio;
    }
    Fiber* p = policyPick(false);
    return p ? p->id + 1 : 0;
  });
  if (v > 0 && (size_t)v <= fibers.size() && fibers[v - 1]->state == F_RUNNABLE) {
    ++preempts;
    switchTo(fibers[v - 1], site);
  } else {
    setBudget();
  }
  runPendingSignals();
}

static void slowAccess(const void* site)
{
  if (!cur) {
    budget = budgetStart = 1000;
    return;
  }
  syncAcc();
  checkLimits();
  if (cur->nopreempt || cur->inSignal) {
    budget = budgetStart = 50;
    return;
  }
  if (cur->acc >= switchInAcc + Fairness) {
    expireTimers();
    switchInAcc = cur->acc;
    Fiber* f = defaultNext();
    if (f && f != cur) {
      cur->prio = --minPrio;
      switchTo(f, 0);
      runPendingSignals();
      return;
    }
  }
  if (armed && cur->nextPre <= cur->acc) {
    if (cfg.replay) {
      int target = cur->nextPreTarget;
      uint64_t at = cur->nextPre;
      drawGap(cur);
      expireTimers();
      if (target >= 0 && target < (int)fibers.size()
          && fibers[target]->state == F_RUNNABLE && fibers[target] != cur) {
        logDecision(K_PREEMPT, cur->id, at, target);
        ++preempts;
        switchTo(fibers[target], site);
        runPendingSignals();
      } else {
        setBudget();
      }
      return;
    }
    expireTimers();
    Fiber* buf[4096];
    if (runnableOthers(buf)) {
      if (cfg.policy == 1) cur->prio = --minPrio;
      Fiber* p = policyPick(false);
      logDecision(K_PREEMPT, cur->id, cur->acc, p->id);
      ++preempts;
      switchTo(p, site);
      runPendingSignals();
    } else {
      drawGap(cur);
      setBudget();
    }
    return;
  }
  setBudget();
}

void yieldPoint()
{
  syncAcc();
  vnow += 1;
  checkLimits();
  expireTimers();
  if (cur->nopreempt || cur->inSignal) return;
  timeJitter();
  cur->prio = --minPrio;
  Fiber* def = defaultNext();
  if (def && def != cur) {
    Fiber* t = def;
    int64_t v = choose(K_PICK, 0, [&]() -> int64_t {
      Fiber* p = policyPick(false);
      return p && p != def ? p->id + 1 : 0;
    });
    if (v > 0 && (size_t)v <= fibers.size() && fibers[v - 1]->state == F_RUNNABLE)
      t = fibers[v - 1];
    switchTo(t, __builtin_return_address(0));
  } else {
    // nothing else to run: let time pass so that spinning makes progress
    vnow += 100;
    expireTimers();
    setBudget();
  }
  runPendingSignals();
}

WaitResult block(const void* obj, uint64_t deadline, bool interruptible)
{
  if (interruptible && cur->sigPending) {
    runPendingSignals();
    return W_SIGNAL;
  }
  if (cur->nopreempt) finish("crash", 0, "simulator: block with preemption off");
  cur->waitObj = obj;
  if (deadline) {
    int64_t late = choose(K_TICK, 0, [&]() -> int64_t {
      if (cfg.tickP <= 0 || rndf() >= cfg.tickP) return 0;
      return (int64_t)exp(rndf() * log(50000.0));
    });
    deadline += late;
    cur->wakeAt = deadline ? deadline : 1;
  } else
    cur->wakeAt = 0;
  cur->timedOut = cur->woken = cur->intrWake = false;
  cur->interruptible = interruptible;
  cur->state = F_BLOCKED;
  blockSeq[cur->id] = ++blockSeqCounter;
  Fiber* me = cur;
  scheduleAway(__builtin_return_address(0));
  me->interruptible = false;
  me->waitObj = 0;
  me->wakeAt = 0;
  WaitResult r = me->woken ? W_WOKEN : me->intrWake ? W_SIGNAL : W_TIMEOUT;
  runPendingSignals();
  return r;
}

static void wake(Fiber* f)
{
  if (f->state == F_BLOCKED) {
    f->state = F_RUNNABLE;
    f->woken = true;
    f->wakeAt = 0;
    f->waitObj = 0;
  }
}

int wakeAll(const void* obj)
{
  int n = 0;
  for (Fiber* f : fibers)
    if (f->state == F_BLOCKED && f->waitObj == obj) {
      wake(f);
      ++n;
    }
  return n;
}

static void fiberExit(Fiber* f, void* ret)
{
  syncAcc();
  f->ret = ret;
  f->state = F_DONE;
  wakeAll(f);
  scheduleAway(0);
  abort();
}

static void fiberMain()
{
  Fiber* f = cur;
  errno = 0;
  runPendingSignals();
  void* r = f->fn(f->arg);
  fiberExit(f, r);
}

static Fiber* newFiber(void* (*fn)(void*), void* arg)
{
  Fiber* f = new Fiber();
  memset((void*)f, 0, sizeof *f);
  f->id = (int)fibers.size();
  f->fn = fn;
  f->arg = arg;
  f->stack = newStack();
  f->stackSize = StackSize;
  f->state = F_RUNNABLE;
  f->nextPre = UINT64_MAX;
  f->prio = cfg.policy == 1 && !cfg.replay ? (int64_t)(rnd() >> 34) : 0;
  // top of stack: aligned so that fiberMain is entered as if called
  uintptr_t* sp = (uintptr_t*)(f->stack + StackSize - 256);
  *--sp = 0;  // fake return address (keeps alignment)
  *--sp = (uintptr_t)fiberMain;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  f->sp = sp;
  fibers.push_back(f);
  if (fibers.size() > 4000) finish("crash", 0, "simulator: too many threads");
  return f;
}

// ------------------------------------------------------------------ signals
static struct sigaction simActions[65];

void runPendingSignals()
{
  Fiber* f = cur;
  while (f->sigPending && !f->inSignal) {
    int sig = __builtin_ctz(f->sigPending);
    if (f->handlerDepth && f->sigBlocked & (1ull << sig)) break;
    f->sigPending &= ~(1u << sig);
    struct sigaction& sa = simActions[sig];
    if (sa.sa_handler == SIG_IGN || sa.sa_handler == SIG_DFL) continue;
    ucontext_t uc;
    memset(&uc, 0, sizeof uc);
    uc.uc_mcontext.gregs[REG_RIP] = (greg_t)(uintptr_t)&runPendingSignals;
    uc.uc_mcontext.gregs[REG_RSP] = (greg_t)(uintptr_t)__builtin_frame_address(0);
    uc.uc_mcontext.gregs[REG_RBP] = (greg_t)(uintptr_t)__builtin_frame_address(0);
    siginfo_t si;
    memset(&si, 0, sizeof si);
    si.si_signo = sig;
    uint64_t old = f->sigBlocked;
    f->sigBlocked |= 1ull << sig;
    ++f->handlerDepth;
    int e = errno;
    hashMix(0x51600 + sig);
    probes[sig == SIGUSR1 ? "sig_visit" : sig == SIGUSR2 ? "sig_interrupt" : "sig_other"]++;
    if (sa.sa_flags & SA_SIGINFO)
      sa.sa_sigaction(sig, &si, &uc);
    else
      sa.sa_handler(sig);
    errno = e;
    --f->handlerDepth;
    f->sigBlocked = old;
  }
}

static void postSignal(Fiber* f, int sig)
{
  f->sigPending |= 1u << sig;
  if (f->state == F_BLOCKED && f->interruptible) {
    f->state = F_RUNNABLE;
    f->intrWake = true;
    f->wakeAt = 0;
  } else if (f->state == F_BLOCKED) {
    // blocked in an uninterruptible wait (mutex): handler still runs
    f->state = F_RUNNABLE;
    f->intrWake = true;
    f->wakeAt = 0;
  }
}

static void realSignal(int sig, siginfo_t* si, void* ctx);

}  // namespace sim

using namespace sim;

// ---------------------------------------------------------- access hooks
#define HOOK() \
  if (__builtin_expect(--budget < 0, 0)) slowAccess(__builtin_return_address(0))

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                    \
  void __tsan_read##n(void*) { HOOK(); }         \
  void __tsan_write##n(void*) { HOOK(); }        \
  void __tsan_unaligned_read##n(void*) { HOOK(); } \
  void __tsan_unaligned_write##n(void*) { HOOK(); } \
  void __tsan_volatile_read##n(void*) { HOOK(); } \
  void __tsan_volatile_write##n(void*) { HOOK(); } \
  void __tsan_read_write##n(void*) { HOOK(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void**, void*) { HOOK(); }
void __tsan_vptr_read(void**) { HOOK(); }
void __tsan_read_range(void*, unsigned long) { HOOK(); }
void __tsan_write_range(void*, unsigned long) { HOOK(); }

#define ATOMIC_POINT() schedPoint(__builtin_return_address(0))
#define ATOMICS(bits, T)                                                          \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { ATOMIC_POINT(); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { ATOMIC_POINT(); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { ATOMIC_POINT(); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { ATOMIC_POINT(); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { ATOMIC_POINT(); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { ATOMIC_POINT(); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { ATOMIC_POINT(); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { ATOMIC_POINT(); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) \
  { ATOMIC_POINT(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }     \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) \
  { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, f); }        \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) \
  { ATOMIC_POINT(); T o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------- GC point hook
int avianSimGcPoint(void)
{
  if (!armed) return 0;
  return (int)fault(K_GC, cfg.gcP, []() -> int64_t { return rndf() < cfg.gcMajor ? 2 : 1; });
}

// the Java heap has no room for the object to be made now
int avianSimAllocationFails(void)
{
  if (!armed || cfg.oomP <= 0 || !cur->hot) return 0;
  if (!fault(K_ALLOC, cfg.oomP, []() -> int64_t { return 1; })) return 0;
  ++cur->oom;
  return 1;
}

// ---------------------------------------------------------- allocator
}
namespace {
const uintptr_t ArenaBase = 0x200000000000ull;
const size_t ArenaSize = 64ull << 30;
char* arenaNext;
char* arenaEnd;
struct Hdr {
  uint32_t magic;
  uint32_t cls;
  uint64_t size;
};
const uint32_t LiveMagic = 0x11fe11fe, FreeMagic = 0xdeadf4ee;
struct FreeList {
  std::deque<char*> q;
};
FreeList lists[160];
uint64_t liveBytes, liveCount;

int classOf(size_t n, size_t* rounded)
{
  // 16-byte steps to 256, then 4 steps per power of two
  if (n <= 256) {
    int c = (int)((n + 15) / 16);
    if (!c) c = 1;
    *rounded = c * 16;
    return c;
  }
  int b = 63 - __builtin_clzll(n - 1);  // 2^b <= n-1 < 2^(b+1)
  size_t step = (size_t)1 << (b - 2);
  size_t base = (size_t)1 << b;
  size_t i = (n - base + step - 1) / step;  // 1..4
  *rounded = base + i * step;
  return 17 + (b - 8) * 4 + (int)i - 1;
}
}
extern "C" {
void* sim_malloc(size_t n)
{
  if (n > (8ull << 30)) {
    errno = ENOMEM;
    return 0;
  }
  if (cfg.allocP > 0 && armed
      && fault(K_ALLOC, cfg.allocP, []() -> int64_t { return 1; })) {
    errno = ENOMEM;
    return 0;
  }
  size_t r;
  int c = classOf(n ? n : 1, &r);
  FreeList& l = lists[c];
  char* p;
  size_t keep = r > 4096 ? 1 : 24;
  if (l.q.size() > keep) {
    p = l.q.front();
    l.q.pop_front();
  } else {
    p = arenaNext;
    arenaNext += r + sizeof(Hdr);
    if (arenaNext > arenaEnd) finish("crash", 0, "simulator arena exhausted");
  }
  Hdr* h = (Hdr*)p;
  h->magic = LiveMagic;
  h->cls = c;
  h->size = n;
  liveBytes += n;
  ++liveCount;
  memset(p + sizeof(Hdr), 0xa5, n < 4096 ? n : 4096);
  return p + sizeof(Hdr);
}
void sim_free(void* q)
{
  if (!q) return;
  char* p = (char*)q - sizeof(Hdr);
  Hdr* h = (Hdr*)p;
  if ((uintptr_t)p < ArenaBase || p >= arenaNext || h->magic != LiveMagic)
    finish("crash", 0, "memory error: free of %s pointer %p",
           (uintptr_t)p >= ArenaBase && p < arenaNext && h->magic == FreeMagic ? "freed" : "invalid", q);
  h->magic = FreeMagic;
  liveBytes -= h->size;
  --liveCount;
  memset(q, 0xdb, h->size);
  lists[h->cls].q.push_back(p);
}
void* sim_calloc(size_t a, size_t b)
{
  void* p = sim_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void* sim_realloc(void* q, size_t n)
{
  void* p = sim_malloc(n);
  if (p && q) {
    size_t o = ((Hdr*)((char*)q - sizeof(Hdr)))->size;
    memcpy(p, q, o < n ? o : n);
    sim_free(q);
  }
  return p;
}
char* sim_strdup(const char* s)
{
  size_t n = strlen(s) + 1;
  char* p = (char*)sim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}

// anonymous mappings (JIT code areas) at fixed low addresses
static uintptr_t nextMap = 0x60000000;
void* simAnonMmap(size_t n, int prot)
{
  n = (n + 4095) & ~4095ull;
  void* p = mmap((void*)nextMap, n, prot, MAP_PRIVATE | MAP_ANON | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != MAP_FAILED) nextMap += n + 4096;
  return p;
}

// ---------------------------------------------------------- time
int sim_gettimeofday(struct timeval* tv, void*)
{
  schedPoint(__builtin_return_address(0));
  tv->tv_sec = vnow / 1000000;
  tv->tv_usec = vnow % 1000000;
  return 0;
}
time_t sim_time(time_t* t)
{
  time_t r = vnow / 1000000;
  if (t) *t = r;
  return r;
}
int sim_clock_gettime(clockid_t, struct timespec* ts)
{
  schedPoint(__builtin_return_address(0));
  ts->tv_sec = vnow / 1000000;
  ts->tv_nsec = (vnow % 1000000) * 1000;
  return 0;
}
clock_t sim_clock(void) { return vnow - 1600000000000000ull; }
int sim_nanosleep(const struct timespec* ts, struct timespec*)
{
  WaitResult r = block(&cur->wakeAt, vnow + ts->tv_sec * 1000000ull + ts->tv_nsec / 1000 + 1, true);
  if (r == W_SIGNAL) {
    errno = EINTR;
    return -1;
  }
  return 0;
}
int sim_usleep(unsigned us)
{
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return sim_nanosleep(&ts, 0);
}
int sim_sched_yield(void)
{
  yieldPoint();
  return 0;
}

// ---------------------------------------------------------- pthread
struct SimMutex {
  uint32_t magic;
  int32_t owner;  // fiber id + 1
  uint32_t recursive;
};
const uint32_t MutexMagic = 0x4d757458, MutexDead = 0x4d446561;
struct SimCond {
  uint32_t magic;
};
const uint32_t CondMagic = 0x436f6e64, CondDead = 0x43446561;

static SimMutex* mtx(pthread_mutex_t* m, const char* what)
{
  SimMutex* s = (SimMutex*)m;
  if (s->magic == 0 && s->owner == 0) s->magic = MutexMagic;  // static initialiser
  if (s->magic != MutexMagic)
    finish("crash", 0, "memory error: %s of a destroyed or freed mutex", what);
  return s;
}
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*)
{
  memset(m, 0, sizeof(SimMutex));
  ((SimMutex*)m)->magic = MutexMagic;
  return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m)
{
  SimMutex* s = mtx(m, "destroy");
  s->magic = MutexDead;
  return 0;
}
static void mutexLock(SimMutex* s)
{
  bool contended = false;
  while (s->owner) {
    if (s->owner == cur->id + 1) {
      // self-deadlock: the thread waits for itself for ever
    }
    contended = true;
    block(s, 0, false);
    if (s->magic != MutexMagic)
      finish("crash", 0, "memory error: mutex destroyed while a thread waits for it");
  }
  if (contended) probes["mutex_contended"]++;
  s->owner = cur->id + 1;
}
int sim_pthread_mutex_lock(pthread_mutex_t* m)
{
  schedPoint(__builtin_return_address(0));
  mutexLock(mtx(m, "lock"));
  return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m)
{
  schedPoint(__builtin_return_address(0));
  SimMutex* s = mtx(m, "trylock");
  if (s->owner) return EBUSY;
  s->owner = cur->id + 1;
  return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t* m)
{
  SimMutex* s = mtx(m, "unlock");
  if (s->owner != cur->id + 1)
    finish("crash", 0, "pthread misuse: unlock of a mutex owned by %d from %d", s->owner - 1, cur->id);
  s->owner = 0;
  wakeAll(s);
  schedPoint(__builtin_return_address(0));
  return 0;
}
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
  memset(c, 0, sizeof(SimCond));
  ((SimCond*)c)->magic = CondMagic;
  return 0;
}
static SimCond* cnd(pthread_cond_t* c, const char* what)
{
  SimCond* s = (SimCond*)c;
  if (s->magic == 0) s->magic = CondMagic;
  if (s->magic != CondMagic)
    finish("crash", 0, "memory error: %s of a destroyed or freed condition", what);
  return s;
}
int sim_pthread_cond_destroy(pthread_cond_t* c)
{
  cnd(c, "destroy")->magic = CondDead;
  return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
  SimCond* s = cnd(c, "wait");
  SimMutex* x = mtx(m, "wait");
  if (x->owner != cur->id + 1) finish("crash", 0, "pthread misuse: condition wait without the mutex");
  x->owner = 0;
  wakeAll(x);
  int rv = 0;
  cur->condObj = s;
  cur->condSig = false;
  if (fault(K_SPURIOUS, cfg.spuriousP, []() -> int64_t { return 1; })) {
    yieldPoint();
  } else {
    for (;;) {
      if (cur->condSig) break;
      if (deadline && deadline <= vnow) {
        rv = ETIMEDOUT;
        schedPoint(__builtin_return_address(0));
        break;
      }
      WaitResult r = block(s, deadline, true);
      if (cur->condSig) break;
      if (r == W_TIMEOUT) {
        rv = ETIMEDOUT;
        break;
      }
      // a signal handler that runs during the wait: POSIX allows resuming the
      // wait or a spurious wakeup; either may happen
      if (r == W_SIGNAL) {
        if (choose(K_SIGNALEE, 0, []() -> int64_t { return rndf() < 0.5 ? -1 : 0; })) break;
        continue;
      }
      break;
    }
  }
  cur->condObj = 0;
  mutexLock(x);
  return rv;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  schedPoint(__builtin_return_address(0));
  return condWait(c, m, 0);
}
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
  schedPoint(__builtin_return_address(0));
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  uint64_t d = ts->tv_sec < 0 ? 1 : (uint64_t)ts->tv_sec > 9000000000000ull
                                      ? 9000000000000000000ull
                                      : ts->tv_sec * 1000000ull + (ts->tv_nsec + 999) / 1000;
  return condWait(c, m, d ? d : 1);
}
int sim_pthread_cond_signal(pthread_cond_t* c)
{
  SimCond* s = cnd(c, "signal");
  Fiber* w[64];
  int n = 0;
  for (Fiber* f : fibers)
    if (f->condObj == s && !f->condSig && n < 64) w[n++] = f;
  std::sort(w, w + n, [](Fiber* a, Fiber* b) { return blockSeq[a->id] < blockSeq[b->id]; });
  if (n) {
    int i = 0;
    if (n > 1) i = (int)choose(K_SIGNALEE, 0, [&]() -> int64_t { return rndn(n); });
    Fiber* f = w[i < n ? i : 0];
    f->condSig = true;
    if (f->waitObj == s) wake(f);
  }
  schedPoint(__builtin_return_address(0));
  return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c)
{
  SimCond* s = cnd(c, "broadcast");
  for (Fiber* f : fibers)
    if (f->condObj == s) f->condSig = true;
  wakeAll(s);
  schedPoint(__builtin_return_address(0));
  return 0;
}
int sim_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
  if (cur->hot && armed && fault(K_START, cfg.startP, []() -> int64_t { return 1; })) return EAGAIN;
  Fiber* f = newFiber(fn, arg);
  f->sigBlocked = cur->sigBlocked;
  *t = (pthread_t)f;
  schedPoint(__builtin_return_address(0));
  return 0;
}
pthread_t sim_pthread_self(void) { return (pthread_t)cur; }
static Fiber* fib(pthread_t t, const char* what)
{
  for (Fiber* f : fibers)
    if ((pthread_t)f == t) {
      if (f->joined) finish("crash", 0, "pthread misuse: %s of a thread already joined", what);
      return f;
    }
  finish("crash", 0, "memory error: %s of an invalid thread id %lx", what, (unsigned long)t);
}
int sim_pthread_join(pthread_t t, void** ret)
{
  Fiber* f = fib(t, "join");
  schedPoint(__builtin_return_address(0));
  while (f->state != F_DONE) block(f, 0, false);
  if (ret) *ret = f->ret;
  f->joined = true;
  if (f->stack) {
    freeStacks.push_back(f->stack);
    f->stack = 0;
  }
  return 0;
}
int sim_pthread_detach(pthread_t t)
{
  fib(t, "detach")->detached = true;
  return 0;
}
int sim_pthread_kill(pthread_t t, int sig)
{
  Fiber* f = fib(t, "kill");
  schedPoint(__builtin_return_address(0));
  if (f->state == F_DONE) return 0;
  if (sig) {
    if (f == cur) {
      f->sigPending |= 1u << sig;
      runPendingSignals();
    } else
      postSignal(f, sig);
  }
  schedPoint(__builtin_return_address(0));
  return 0;
}
static void (*keyDtor[64])(void*);
static bool keyUsed[64];
int sim_pthread_key_create(pthread_key_t* k, void (*d)(void*))
{
  for (int i = 0; i < 64; ++i)
    if (!keyUsed[i]) {
      keyUsed[i] = true;
      keyDtor[i] = d;
      for (Fiber* f : fibers) f->tls[i] = 0;
      *k = i;
      return 0;
    }
  return EAGAIN;
}
int sim_pthread_key_delete(pthread_key_t k)
{
  if (k < 64) keyUsed[k] = false;
  return 0;
}
void* sim_pthread_getspecific(pthread_key_t k) { return k < 64 ? cur->tls[k] : 0; }
int sim_pthread_setspecific(pthread_key_t k, const void* v)
{
  if (k < 64) cur->tls[k] = (void*)v;
  return 0;
}

// ---------------------------------------------------------- signals
int sim_sigaction(int sig, const struct sigaction* sa, struct sigaction* old)
{
  if (old) *old = simActions[sig];
  if (sa) {
    simActions[sig] = *sa;
    if (sig == SIGSEGV || sig == SIGFPE || sig == SIGBUS || sig == SIGILL) {
      struct sigaction r;
      memset(&r, 0, sizeof r);
      r.sa_flags = SA_SIGINFO;
      r.sa_sigaction = realSignal;
      sigaction(sig, &r, 0);
    }
  }
  return 0;
}
typedef void (*sighandler)(int);
sighandler sim_signal(int sig, sighandler h)
{
  struct sigaction sa, old;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = h;
  sim_sigaction(sig, &sa, &old);
  return old.sa_handler;
}
int sim_pthread_sigmask(int how, const sigset_t* set, sigset_t* old)
{
  int r = pthread_sigmask(how, set, old);
  if (how == SIG_UNBLOCK && cur) cur->inSignal = 0;
  return r;
}
int sim_sigprocmask(int how, const sigset_t* set, sigset_t* old)
{
  return sim_pthread_sigmask(how, set, old);
}
void sim_abort(void) { finish("abort", 134, "VM aborted (thread %d)", cur ? cur->id : -1); }
void sim_exit(int code) { finish("exit", code, "exit"); }
void sim__exit(int code) { finish("exit", code, "_exit"); }
void sim__Exit(int code) { finish("exit", code, "_Exit"); }
void sim___stack_chk_fail(void) { finish("crash", 0, "stack smashed"); }
}

namespace sim {
static void realSignal(int sig, siginfo_t* si, void* ctx)
{
  struct sigaction& sa = simActions[sig];
  if (cur->inSignal || (sa.sa_handler == SIG_DFL && !(sa.sa_flags & SA_SIGINFO))
      || sa.sa_sigaction == 0) {
    ucontext_t* c = (ucontext_t*)ctx;
    finish("crash", sig, "signal %d at address %p ip %p (thread %d)%s", sig, si->si_addr,
           (void*)c->uc_mcontext.gregs[REG_RIP], cur ? cur->id : -1,
           cur->inSignal ? " inside a fault handler" : "");
  }
  cur->inSignal = 1;
  probes[sig == SIGFPE ? "real_sigfpe" : "real_sigsegv"]++;
  int e = errno;
  if (sa.sa_flags & SA_SIGINFO)
    sa.sa_sigaction(sig, si, ctx);
  else
    sa.sa_handler(sig);
  errno = e;
  cur->inSignal = 0;
}
}

// ---------------------------------------------------------- natives for Java
#include <jni.h>
static std::string jstr(JNIEnv* e, jstring s)
{
  if (!s) return "null";

  const char* c = e->GetStringUTFChars(s, 0);
  std::string r = c ? c : "";
  e->ReleaseStringUTFChars(s, c);
  return r;
}
extern "C" {
#define JNI(ret, name) __attribute__((visibility("default"))) ret Java_sim_Sim_##name
JNI(void, begin)(JNIEnv*, jclass)
{
  syncAcc();
  armed = true;
  vbegin = vnow;
  armedAcc = totalAcc;
  faultsLeft = cfg.maxFaults;
  switchInAcc = cur->acc;
  drawGap(cur);
  setBudget();
}
JNI(void, end)(JNIEnv*, jclass)
{
  syncAcc();
  armed = false;
  for (Fiber* f : fibers) f->nextPre = UINT64_MAX;
  setBudget();
}
JNI(void, stopFaults)(JNIEnv*, jclass) { faultsLeft = 0; cfg.gcP = 0; cfg.spuriousP = 0; cfg.timeP = 0; cfg.shortP = cfg.eintrP = cfg.ioerrP = cfg.netRstP = cfg.netDelayP = cfg.allocP = cfg.oomP = cfg.startP = cfg.tickP = 0; }
JNI(jlong, seq)(JNIEnv*, jclass) { return ++eventSeq; }
JNI(jint, tid)(JNIEnv*, jclass) { return cur->id; }
JNI(jlong, micros)(JNIEnv*, jclass) { syncAcc(); return vnow; }
JNI(void, yield0)(JNIEnv*, jclass) { yieldPoint(); }
JNI(void, point)(JNIEnv*, jclass) { schedPoint(__builtin_return_address(0)); }
JNI(void, log)(JNIEnv* e, jclass, jstring s)
{
  std::string m = jstr(e, s);
  outf("\nL %llu %d ", (unsigned long long)++eventSeq, cur->id);
  outAppend(m.data(), m.size());
}
JNI(void, fail)(JNIEnv* e, jclass, jstring s)
{
  std::string m = jstr(e, s);
  failMsg("%s", m.c_str());
}
// inside an operation that is to be preempted more often
static void setHot(bool v)
{
  if (cur->hot == v) return;
  cur->hot = v;
  if (cfg.hotGap > 0) {
    syncAcc();
    drawGap(cur);
    setBudget();
  }
}
JNI(void, hot)(JNIEnv*, jclass, jboolean v) { setHot(v); }
// op event: e.g. H seq thread phase op a b
JNI(void, ev)(JNIEnv*, jclass, jint th, jint phase, jint op, jlong a, jlong b)
{
  setHot(phase == 0);
  outf("\nH %llu %d %d %d %lld %lld", (unsigned long long)++eventSeq, th, phase, op, (long long)a, (long long)b);
}
JNI(void, probe)(JNIEnv* e, jclass, jstring s) { probe(jstr(e, s).c_str()); }
JNI(jint, choose)(JNIEnv*, jclass, jint n)
{
  return (jint)choose(K_WORK, 0, [&]() -> int64_t { return rndn(n); });
}
JNI(void, done)(JNIEnv*, jclass) { finish("done", 0, "%s", failed ? firstFail.c_str() : ""); }
JNI(jint, oom)(JNIEnv*, jclass) { return cur->oom; }
JNI(jlong, liveBytes)(JNIEnv*, jclass) { return liveBytes; }
JNI(jboolean, blocked)(JNIEnv*, jclass, jint id)
{
  return id < (int)fibers.size() && fibers[id]->state == F_BLOCKED && !fibers[id]->wakeAt;
}
}

// ---------------------------------------------------------- main
extern "C" int avian_main(int, const char**);
static int vmArgc;
static const char** vmArgv;
static void* mainFiber(void*)
{
  int r = avian_main(vmArgc, vmArgv);
  finish("returned", r, "%s", failed ? firstFail.c_str() : "");
}

static std::vector<std::string> options, workArgs;
static bool serve;

static const char* optValue(const std::string& a, const char* n)
{
  size_t l = strlen(n);
  return a.compare(0, l, n) == 0 ? a.c_str() + l : 0;
}

// options of one run: they take effect at the snapshot point (Sim.args)
static bool applyOption(const std::string& a)
{
  const char* v;
  auto val = [&](const char* n) { return v = optValue(a, n); };
  if (val("--seed=")) cfg.seed = strtoull(v, 0, 10);
  else if (val("--replay=")) {
    cfg.replay = true;
    cfg.replayFile = v;
  } else if (val("--trace=")) cfg.traceOut = v;
  else if (val("--policy=")) cfg.policy = atoi(v);
  else if (val("--gap=")) cfg.meanGap = atof(v);
  else if (val("--hot=")) cfg.hotGap = atof(v);
  else if (val("--sync=")) cfg.syncP = atof(v);
  else if (val("--timep=")) cfg.timeP = atof(v);
  else if (val("--timemax=")) cfg.timeMax = strtoull(v, 0, 10);
  else if (val("--gc=")) cfg.gcP = atof(v);
  else if (val("--gcmajor=")) cfg.gcMajor = atof(v);
  else if (val("--spurious=")) cfg.spuriousP = atof(v);
  else if (val("--short=")) cfg.shortP = atof(v);
  else if (val("--eintr=")) cfg.eintrP = atof(v);
  else if (val("--ioerr=")) cfg.ioerrP = atof(v);
  else if (val("--netdelay=")) cfg.netDelayP = atof(v);
  else if (val("--netrst=")) cfg.netRstP = atof(v);
  else if (val("--alloc=")) cfg.allocP = atof(v);
  else if (val("--oom=")) cfg.oomP = atof(v);
  else if (val("--start=")) cfg.startP = atof(v);
  else if (val("--tick=")) cfg.tickP = atof(v);
  else if (val("--step=")) cfg.stepP = atof(v);
  else if (val("--maxfaults=")) cfg.maxFaults = atoi(v);
  else if (val("--steps=")) cfg.stepLimit = strtoull(v, 0, 10);
  else if (val("--window=")) cfg.window = atoi(v);
  else if (val("--vtime=")) cfg.timeLimit = strtoull(v, 0, 10);
  else return false;
  return true;
}

static void cpuLimit(int)
{
  finish("hang", 0, "no end after 60 s of processor time (thread %d)", cur ? cur->id : -1);
}

// serves runs from here: each request becomes a forked copy of this process
static void serveRuns()
{
  static std::string in;
  for (;;) {
    size_t nl;
    while ((nl = in.find('\n')) == std::string::npos) {
      char b[65536];
      ssize_t n = ::read(0, b, sizeof b);
      if (n < 0 && errno == EINTR) continue;
      if (n <= 0) _exit(0);
      in.append(b, n);
    }
    std::string req = in.substr(0, nl);
    in.erase(0, nl + 1);
    pid_t p = ::fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      options.clear();
      workArgs.clear();
      bool work = false;
      size_t at = 0;
      while (at <= req.size()) {
        size_t e = req.find('\x1f', at);
        if (e == std::string::npos) e = req.size();
        std::string x = req.substr(at, e - at);
        at = e + 1;
        if (x == "--") work = true;
        else if (work) workArgs.push_back(x);
        else if (!x.empty()) options.push_back(x);
      }
      return;
    }
    int st = 0;
    if (p < 0) st = 0xff00;
    else
      while (::waitpid(p, &st, 0) < 0 && errno == EINTR) {
      }
    char b[64];
    snprintf(b, sizeof b, "\n\x01""END %d\n", st);
    rawWrite(1, b);
  }
}

extern "C" JNI(jstring, args)(JNIEnv* e, jclass)
{
  syncAcc();
  if (serve) serveRuns();
  for (auto& o : options)
    if (!applyOption(o)) finish("crash", 96, "simulator: unknown option %s", o.c_str());
  struct rlimit rl = {60, 70};
  setrlimit(RLIMIT_CPU, &rl);
  signal(SIGXCPU, cpuLimit);
  uint64_t x = cfg.seed * 0x9e3779b97f4a7c15ull + 12345;
  for (int k = 0; k < 4; ++k) rs[k] = splitmix(x);
  if (cfg.replay) loadReplay(cfg.replayFile.c_str());
  cfg.stepLimit += totalAcc;
  if (!failed) out.clear();
  eventSeq = 0;
  if (cfg.policy == 1 && !cfg.replay)
    for (Fiber* f : fibers) f->prio = (int64_t)(rnd() >> 34);
  setBudget();
  std::string r;
  for (auto& a : workArgs) r += (r.empty() ? "" : " ") + a;
  return e->NewStringUTF(r.c_str());
}

// sim [options] -- VM arguments main-class workload [-- workload arguments]
int main(int ac, char** av)
{
  if (!getenv("SIM_NO_REEXEC")) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", av);
    }
  }
  setvbuf(stderr, 0, _IONBF, 0);
  static std::vector<const char*> va;
  va.push_back("avian");
  int part = 0;
  for (int i = 1; i < ac; ++i) {
    std::string a = av[i];
    const char* v;
    if (a == "--") ++part;
    else if (part == 1) va.push_back(av[i]);
    else if (part == 2) workArgs.push_back(a);
    else if (a == "--serve") serve = true;
    else if ((v = optValue(a, "--mount="))) cfg.mounts.push_back(v);
    else if (a == "--verbose") cfg.verbose = true;
    else options.push_back(a);
  }
  vmArgc = (int)va.size();
  va.push_back(0);
  vmArgv = va.data();

  void* p = mmap((void*)ArenaBase, ArenaSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANON | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) {
    perror("arena");
    return 97;
  }
  arenaNext = (char*)p;
  arenaEnd = arenaNext + ArenaSize;

  uint64_t x = cfg.seed * 0x9e3779b97f4a7c15ull + 12345;
  for (int k = 0; k < 4; ++k) rs[k] = splitmix(x);

  for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL}) {
    struct sigaction r;
    memset(&r, 0, sizeof r);
    r.sa_flags = SA_SIGINFO;
    r.sa_sigaction = realSignal;
    sigaction(s, &r, 0);
  }
  signal(SIGPIPE, SIG_IGN);

  Fiber host;
  memset((void*)&host, 0, sizeof host);
  host.state = F_BLOCKED;
  Fiber* f = newFiber(mainFiber, 0);
  cur = f;
  ioInit();
  drawGap(f);
  setBudget();
  void* save;
  sim_switch(&save, f->sp);
  return 0;
}

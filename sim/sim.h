// Deterministic simulator runtime for the Avian VM: internal interface.
//
// Every libc / pthread entry point the VM uses is renamed to sim_<name> in the
// VM's object files (objcopy --redefine-syms) and implemented here.  All VM
// threads are fibers on one OS thread; one seeded scheduler decides every
// interleaving, delay and fault; the clock is virtual.
#ifndef SIM_H
#define SIM_H

#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <deque>

namespace sim {

// ---------------------------------------------------------------- decisions
// Every decision the simulator takes is an occurrence of one of these kinds,
// identified by (kind, fiber, ordinal of that kind in that fiber).  A decision
// equal to its default is not recorded: the trace of a run is the set of its
// non-default decisions, which is what gets minimised and replayed.
enum Kind {
  K_PREEMPT,   // ordinal = fiber-local access count; value = fiber to run
  K_SYNC,      // preemption at a synchronisation call; value = fiber + 1
  K_PICK,      // current fiber blocked/ended; value = fiber + 1 to run (0 = default)
  K_TIME,      // extra microseconds that pass at a scheduling point
  K_SIGNALEE,  // which waiter a condition signal wakes (index, default 0)
  K_SPURIOUS,  // spurious wakeup of a condition wait
  K_GC,        // collection at a GC point: 1 minor, 2 major
  K_SHORTR,    // short read: value = bytes actually allowed (0 = all)
  K_SHORTW,    // short write
  K_EINTR,     // EINTR injected into a call that may return it
  K_IOERR,     // error injected into an I/O call: value = errno
  K_NETDELAY,  // delivery delay of a network segment (us)
  K_NETRST,    // connection reset
  K_CRASH,     // unused here (reserved)
  K_ALLOC,     // allocation failure
  K_WORK,      // workload choice drawn through the simulator
  K_TICK,      // timer lateness
  K_STEP,      // single-step preemption window in generated code
  K_START,     // a thread that cannot be started
  K_COUNT
};
extern const char* kindName[K_COUNT];

enum FiberState { F_RUNNABLE, F_BLOCKED, F_DONE, F_FREE };

struct Fiber {
  int id;
  void* sp;
  char* stack;
  size_t stackSize;
  FiberState state;
  const void* waitObj;
  uint64_t wakeAt;      // 0 = no deadline
  bool timedOut;
  bool woken;
  bool intrWake;        // woken by a signal
  bool interruptible;   // signals wake this block
  uint32_t sigPending;
  uint64_t sigBlocked;
  int err;
  void* tls[64];
  uint64_t acc;         // fiber-local access count
  uint64_t nextPre;     // access count of the next preemption (UINT64_MAX none)
  int nextPreTarget;    // replay: target
  uint64_t kc[K_COUNT];
  int64_t prio;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool joined, detached;
  Fiber* joiner;
  int inSignal;         // running a real (fault) signal handler
  int handlerDepth;     // running a simulated signal handler
  int nopreempt;
  uint64_t lastRun;
  const void* condObj;  // condition this thread waits for
  bool condSig;         // it was signalled
  const void* lastSite;
  int oom;              // allocations of Java objects that failed
  bool hot;             // in an operation that is preempted more often
};

extern Fiber* cur;
extern std::vector<Fiber*> fibers;
extern bool armed;
extern uint64_t vnow;  // microseconds
extern uint64_t eventSeq;

// configuration
struct Config {
  uint64_t seed = 1;
  bool replay = false;
  int policy = 0;          // 0 random, 1 pct, 2 mostly-run-to-block
  double meanGap = 2000;   // mean accesses between preemptions
  double hotGap = 0;       // the same inside marked operations; 0: no difference
  double syncP = 0.05;     // preemption probability at sync calls
  double timeP = 0.05;     // chance that time jumps ahead at a scheduling point
  uint64_t timeMax = 2000; // us
  double gcP = 0;          // chance of a collection at a GC point
  double gcMajor = 0.2;
  double spuriousP = 0;
  double shortP = 0, eintrP = 0, ioerrP = 0, netDelayP = 0, netRstP = 0, allocP = 0, oomP = 0, startP = 0;
  double tickP = 0;
  double stepP = 0;
  int maxFaults = 1000000;
  uint64_t stepLimit = 400000000;
  size_t window = 65536;   // bytes that a connection holds in one direction
  uint64_t timeLimit = 0;  // us of virtual time after begin(); 0 = none
  std::string traceOut, replayFile;
  std::vector<std::string> mounts;
  bool verbose = false;
};
extern Config cfg;

uint64_t rnd();
double rndf();
uint64_t rndn(uint64_t n);

// draws a decision
template <class F>
int64_t choose(Kind k, int64_t def, F gen);
int64_t chooseReplay(Kind k, int64_t def, uint64_t ordinal);
void logDecision(Kind k, int fiber, uint64_t ordinal, int64_t value);
extern uint64_t kindFired[K_COUNT];
extern int faultsLeft;

template <class F>
int64_t choose(Kind k, int64_t def, F gen)
{
  uint64_t n = cur->kc[k]++;
  int64_t v;
  if (!armed) return def;
  if (cfg.replay)
    v = chooseReplay(k, def, n);
  else
    v = gen();
  if (v != def) logDecision(k, cur->id, n, v);
  return v;
}

// a fault decision: 0 unless the coin says otherwise and faults are left
template <class F>
int64_t fault(Kind k, double p, F gen)
{
  if (p <= 0 && !cfg.replay) { cur->kc[k]++; return 0; }
  return choose(k, 0, [&]() -> int64_t {
    if (faultsLeft <= 0 || rndf() >= p) return 0;
    int64_t v = gen();
    if (v) --faultsLeft;
    return v;
  });
}

// scheduling
void schedPoint(const void* site = 0);     // synchronisation-call scheduling point
void yieldPoint();     // sched_yield
enum WaitResult { W_WOKEN, W_TIMEOUT, W_SIGNAL };
WaitResult block(const void* obj, uint64_t deadline, bool interruptible);
int wakeAll(const void* obj);
void hashMix(uint64_t v);
void runPendingSignals();

// results
[[noreturn]] void finish(const char* status, int code, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
void outf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void outWrite(const void* p, size_t n);
void failMsg(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char* name);

// io
void ioInit();
void vfsPut(const std::string& path, const void* data, size_t n);
bool vfsGet(const std::string& path, std::string* out);
void ioStats();

struct NoPreempt {
  NoPreempt() { ++cur->nopreempt; }
  ~NoPreempt() { --cur->nopreempt; }
};

extern int64_t budget;  // accesses until the slow path
}

#endif

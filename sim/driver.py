"""Search driver: runs batches of seeds of the simulated VM, gates, minimises and
reports violations, writes evidence."""
import collections, itertools, select, threading, concurrent.futures as cf, hashlib, json, os, random, re, signal, subprocess, sys, time, multiprocessing

import build as B

VERIF = B.VERIF
TMP = os.path.join(B.BUILD, "run")
EXE = {}


class Sc:
    """A scenario: one workload under one family of schedules and faults.
    plan(rng) -> workload parameters; opts(rng) -> simulator options;
    oracle(out) -> list of violation messages (history checks)."""

    def __init__(self, name, workload, variants=("interp",), plan=None, opts=None, oracle=None,
                 weight=1.0, ok=("done",), vmargs=(), finding=None, code=0, tail=None, simargs=(), pre=3):
        self.simargs, self.pre = simargs, pre
        self.name, self.workload, self.variants = name, workload, variants
        self.plan = plan or (lambda r: {"plan": r.randrange(1, 1 << 30)})
        self.opts = opts or swarm
        self.oracle, self.weight, self.ok, self.vmargs = oracle, weight, ok, vmargs
        self.finding = finding
        self.code = code
        self.tail = tail


def lu(r, a, b):
    import math
    return math.exp(r.uniform(math.log(a), math.log(b)))


def swarm(r, gc=1, spurious=1, jit=None, time_=1, maxgc=25):
    o = {"policy": r.choice([0, 0, 1, 1, 2]), "gap": round(lu(r, 30, 30000), 1),
         "sync": r.choice([0.01, 0.05, 0.05, 0.2, 0.5]),
         "steps": 400000000}
    if o["policy"] == 2:
        o["gap"] = round(lu(r, 5000, 500000), 1)
    o["timep"] = r.choice([0, 0.01, 0.05]) if time_ else 0
    o["timemax"] = r.choice([200, 5000, 100000])
    if r.random() < 0.3:
        o["tick"] = 0.3
    if gc and r.random() < 0.3:
        o["gc"] = r.choice([0.0003, 0.002, 0.01])
        o["gcmajor"] = r.choice([0.05, 0.3])
    if spurious and r.random() < 0.4:
        o["spurious"] = r.choice([0.02, 0.15])
    o["maxfaults"] = r.choice([3, maxgc, maxgc])
    if r.random() < 0.5:
        o["hot"] = round(lu(r, 10, 3000), 1)
    return o


class Out:
    __slots__ = ("rc", "text", "status", "code", "hash", "il", "stats", "fails", "logs", "hist",
                 "probes", "dec", "io", "msg", "r", "stdout")

    def __init__(self, rc, text):
        self.rc, self.text = rc, text
        self.fails, self.logs, self.hist = [], [], []
        self.status, self.code, self.hash, self.il, self.msg, self.r = "none", 0, "", "", "", ""
        self.stats, self.probes, self.dec, self.io = {}, {}, {}, {}
        so = []
        for l in text.split("\n"):
            h = l[:2]
            if h == "H ":
                try:
                    self.hist.append(tuple(int(x) for x in l[2:].split()))
                except ValueError:
                    pass
            elif h == "L ":
                p = l.split(" ", 3)
                self.logs.append((int(p[1]), int(p[2]), p[3] if len(p) > 3 else ""))
            elif h == "F ":
                self.fails.append(l[2:])
            elif h == "P " or h == "D " or h == "IO":
                d = self.probes if h == "P " else self.dec if h == "D " else self.io
                for kv in l.split()[1:]:
                    k, _, v = kv.rpartition("=")
                    try:
                        d[k] = int(v)
                    except ValueError:
                        pass
            elif l.startswith("R status="):
                self.r = l
                m = re.match(r"R status=(\S+) code=(-?\d+) hash=(\w+) il=(\w+) (.*?) msg=(.*)$", l)
                if m:
                    self.status, self.code, self.hash, self.il = m[1], int(m[2]), m[3], m[4]
                    self.msg = m[6]
                    for kv in m[5].split():
                        k, v = kv.split("=")
                        self.stats[k] = int(v)
            else:
                so.append(l)
        self.stdout = "\n".join(so)
        if self.status == "none":
            self.status = "killed"
            self.msg = "process ended with %d: %s" % (rc, text[-300:].replace("\n", " | "))


def optlist(opts, extra=()):
    c = []
    for k in sorted(opts):
        v = opts[k]
        for x in (v if isinstance(v, (list, tuple)) else [v]):
            c.append("--%s=%s" % (k, x))
    return c + list(extra)


def arglist(args, skip=()):
    c = ["%s=%s" % (k, args[k]) for k in sorted(args) if k not in BOOT]
    if skip:
        c.append("skip=" + ",".join(str(s) for s in sorted(skip)))
    return c


def command(variant, opts, sc, args, skip=(), extra=()):
    return [EXE[variant]] + optlist(opts, extra) + bootargs(sc, args) + ["--"] + arglist(args, skip)


BOOT = ("m", "exact", "pre")  # arguments that the warm-up depends on


def bootargs(sc, args):
    return (list(sc.simargs) + ["--"] + list(sc.vmargs) + ["w.W", sc.workload]
            + ["%s=%s" % (k, args[k]) for k in BOOT if k in args])


class Server:
    """a process that has booted the VM and warmed up the workload; forks itself for each run"""
    local = threading.local()

    def __init__(self, boot):
        self.p = subprocess.Popen(boot, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  env=ENV, cwd=TMP, bufsize=0, preexec_fn=pdeath)

    @staticmethod
    def close():
        for s in getattr(Server.local, "pool", {}).values():
            s.p.kill()
            s.p.wait()
        Server.local.pool = {}

    @staticmethod
    def run(variant, sc, opts, args, skip=(), extra=(), timeout=150):
        if not hasattr(Server.local, "pool"):
            Server.local.pool = {}
        pool = Server.local.pool
        boot = [EXE[variant], "--serve"] + bootargs(sc, args)
        key = "\n".join(boot)
        s = pool.get(key)
        if not s:
            if len(pool) > 60:
                Server.close()
                pool = Server.local.pool
            s = pool[key] = Server(boot)
        req = "\x1f".join(optlist(opts, extra) + ["--"] + arglist(args, skip)) + "\n"
        buf = b""
        try:
            s.p.stdin.write(req.encode())
            fd = s.p.stdout.fileno()
            t0 = time.time()
            while True:
                left = t0 + timeout - time.time()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    s.p.kill()
                    s.p.wait()
                    del pool[key]
                    o = Out(-99, buf.decode(errors="replace"))
                    o.status, o.msg = "timeout", "no end after %d s of real time" % timeout
                    return o
                x = os.read(fd, 1 << 20)
                if not x:
                    break
                buf += x
                i = buf.rfind(b"\n\x01END ", max(0, len(buf) - 100))
                if i >= 0 and buf.endswith(b"\n"):
                    st = int(buf[i + 6:])
                    return Out(os.waitstatus_to_exitcode(st), buf[:i].decode(errors="replace"))
        except (BrokenPipeError, OSError):
            pass
        # the VM ended before the workload began
        rc = s.p.wait()
        del pool[key]
        return Out(rc, buf.decode(errors="replace"))


def pdeath():
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)


ENV = {"PATH": "/usr/bin:/bin", "LANG": "C"}


def execute(cmd, timeout=150):
    try:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=ENV, cwd=TMP)
        return Out(p.returncode, p.stdout.decode(errors="replace"))
    except subprocess.TimeoutExpired as e:
        o = Out(-99, (e.stdout or b"").decode(errors="replace"))
        o.status, o.msg = "timeout", "no end after %d s of real time" % timeout
        return o


def judge(sc, out):
    """-> None or (signature, message)"""
    if out.fails:
        m = out.fails[0]
        return ("fail " + norm(m), m)
    if out.status not in sc.ok:
        return (out.status + " " + norm(out.msg if out.status != "deadlock" else ""), out.status + ": " + out.msg)
    if out.status != "done" and sc.code is not None and out.code != sc.code:
        return ("code", "exit code %d, expected %d: %s" % (out.code, sc.code, out.stdout[-200:]))
    if sc.oracle:
        v = sc.oracle(out)
        if v:
            return ("oracle " + norm(v[0]), v[0])
    return None


def norm(m):
    m = re.sub(r"0x[0-9a-f]+|-?\d+", "#", m)
    return m[:70]


def case(prop, sc, seed):
    r = random.Random("%s/%s/%d" % (prop, sc.name, seed))
    variant = sc.variants[r.randrange(len(sc.variants))]
    args = dict(sc.plan(r))
    if sc.pre and r.random() < 0.6:
        args["pre"] = sc.pre
    opts = dict(sc.opts(r))
    opts["seed"] = seed
    return variant, args, opts


class Agg:
    def __init__(self):
        self.runs = 0
        self.il = set()
        self.vtime = 0
        self.acc = self.switches = self.preempts = 0
        self.dec = collections.Counter()
        self.probes = collections.Counter()
        self.faultruns = collections.Counter()
        self.io = collections.Counter()
        self.per = collections.Counter()
        self.var = collections.Counter()
        self.nontrivial = 0
        self.samples = []
        self.fails = []
        self.status = collections.Counter()
        self.cpu = 0.0

    def add(self, sc, seed, variant, cmd, out):
        self.runs += 1
        self.per[sc.name] += 1
        self.var[variant] += 1
        self.status[out.status] += 1
        key = out.il + ":" + variant + sc.name
        nt = out.stats.get("switches", 0) > 0 or sum(out.dec.values()) > 0
        if nt:
            self.nontrivial += 1
            self.il.add(hashlib.md5((key + out.hash).encode()).digest()[:8])
        for k in ("vtime", "acc", "switches", "preempts"):
            setattr(self, k, getattr(self, k) + out.stats.get(k, 0))
        for k, v in out.dec.items():
            self.dec[k] += v
            self.faultruns[k] += 1
        for k, v in out.probes.items():
            self.probes[k] += v
        for k, v in out.io.items():
            self.io[k] += v
        if len(self.samples) < 1:
            self.samples.append({"scenario": sc.name, "seed": seed, "command": " ".join(cmd[1:]), "result": out.r[:400]})

    def merge(self, o):
        self.il |= o.il
        for k in ("runs", "vtime", "acc", "switches", "preempts", "nontrivial"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ("dec", "probes", "faultruns", "io", "per", "var", "status"):
            getattr(self, k).update(getattr(o, k))
        have = {s["scenario"] for s in self.samples}
        self.samples += [s for s in o.samples if s["scenario"] not in have]
        self.fails += o.fails


PROP = None
SCS = None
SERVE = not os.environ.get("NOSERVE")
SURVEY = bool(os.environ.get("SURVEY"))


def batch(job):
    """one worker: a list of (scenario index, seed)"""
    a = Agg()
    for i, seed in job:
        sc = SCS[i]
        variant, args, opts = case(PROP, sc, seed)
        cmd = command(variant, opts, sc, args)
        out = Server.run(variant, sc, opts, args) if SERVE else execute(cmd)
        a.add(sc, seed, variant, cmd, out)
        j = judge(sc, out)
        if j and out.status == "steplimit":
            # many collections can make a run long; one that never ends does not end in four times as many steps either
            opts["steps"] *= 4
            j = judge(sc, execute(command(variant, opts, sc, args), 600))
        if j:
            a.fails.append((i, seed, j[0], j[1]))
    return a


def load_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) scenario=(\S+) match=/(.*)/ what=(.*)$", l)
            if m:
                r.append({"property": m[1], "scenario": m[2], "re": re.compile(m[3]), "what": m[4]})
    return r


def write_trace(path, lines):
    with open(path, "w") as f:
        f.write("\n".join(lines) + ("\n" if lines else ""))


def replay_once(spec, lines, skip, tag="r", serve=False):
    tr = os.path.join(TMP, "trace-%d-%s" % (os.getpid(), tag))
    write_trace(tr, lines)
    sc = next(s for s in SCS if s.name == spec["scenario"])
    opts = {k: v for k, v in spec["opts"].items()}
    if serve and SERVE:
        out = Server.run(spec["variant"], sc, opts, spec["args"], skip, ["--replay=" + tr])
    else:
        out = execute(command(spec["variant"], opts, sc, spec["args"], skip, ["--replay=" + tr]))
    os.unlink(tr)
    return sc, out


def minimise(spec, lines, skip, sig, budget, jobs=8):
    """ddmin over trace decisions, then over workload steps"""
    t0 = time.time()
    ex = cf.ThreadPoolExecutor(jobs)
    cnt = itertools.count()

    def fails(a):
        l, s = a
        sc, out = replay_once(spec, l, s, "m%d" % next(cnt), True)
        j = judge(sc, out)
        return bool(j and j[0] == sig)

    def ddmin(items, mk):
        n = 2
        while len(items) >= 1 and time.time() - t0 < budget:
            size = max(1, (len(items) + n - 1) // n)
            cands = []
            for i in range(0, len(items), size):
                cands.append(items[:i] + items[i + size:])
            hit = None
            for k in range(0, len(cands), jobs):
                if time.time() - t0 > budget:
                    break
                grp = cands[k:k + jobs]
                res = list(ex.map(fails, [mk(c) for c in grp]))
                for c, ok in zip(grp, res):
                    if ok:
                        hit = c
                        break
                if hit is not None:
                    break
            if hit is not None:
                items = hit
                n = max(n - 1, 2)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return items

    lines = ddmin(lines, lambda c: (c, skip))
    # workload steps
    sc, out = replay_once(spec, lines, skip)
    total = 0
    for _, _, t in out.logs:
        if t.startswith("steps "):
            total = int(t.split()[1])
    steps = [s for s in range(spec.get("steps", total) or total) if s not in skip]
    if steps:
        allsteps = set(range(max(steps) + 1))
        kept = ddmin(steps, lambda c: (lines, sorted(allsteps - set(c))))
        if len(kept) < len(steps):
            skip = sorted(allsteps - set(kept))
            lines = ddmin(lines, lambda c: (c, skip))
    list(ex.map(lambda _: Server.close(), range(jobs)))
    ex.shutdown()
    return lines, list(skip)


def report(prop, i, seed, sig, msg, minbudget):
    """gate, minimise, write the replay file; -> path or None if not reproducible"""
    sc = SCS[i]
    variant, args, opts = case(prop, sc, seed)
    hashes = []
    tr = os.path.join(TMP, "gate-%d" % os.getpid())
    for k in range(2):
        out = execute(command(variant, opts, sc, args, (), ["--trace=" + tr]))
        j = judge(sc, out)
        hashes.append((out.status, out.hash, j[0] if j else None))
    if hashes[0] != hashes[1] or hashes[0][2] != sig:
        print("GATE: seed %d of %s is not reproducible: %s (first: %s)" % (seed, sc.name, hashes, sig))
        return None
    lines = []
    if os.path.exists(tr):
        lines = [l for l in open(tr).read().split("\n") if l]
        os.unlink(tr)
    spec = {"property": prop, "scenario": sc.name, "variant": variant, "args": args, "opts": opts,
            "seed": seed}
    full = hashes[0][0] not in ("killed", "timeout")
    if full:
        _, out = replay_once(spec, lines, [])
        j = judge(sc, out)
        if not j or j[0] != sig or out.hash != hashes[0][1]:
            # the seed itself reproduces it: use that, not minimised
            print("note: the trace of seed %d of %s does not replay: %s %s" % (seed, sc.name, j, out.r))
            full = False
    if full:
        total = len(lines)
        ml, skip = minimise(spec, lines, [], sig, minbudget)
        _, out = replay_once(spec, ml, skip)
        j = judge(sc, out)
        if not j or j[0] != sig:
            ml, skip = lines, []
            _, out = replay_once(spec, ml, skip)
            j = judge(sc, out)
        spec.update(mode="trace", trace=ml, skip=skip, decisions_before=total, decisions=len(ml),
                    message=j[1], signature=sig, hash=out.hash,
                    command=" ".join(command(variant, opts, sc, args, skip, ["--replay=TRACE"])[1:]),
                    output=out.text[-6000:])
    else:
        spec.update(mode="seed", trace=[], skip=[], message=msg, signature=sig, hash="",
                    command=" ".join(command(variant, opts, sc, args)[1:]), output=out.text[-6000:])
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, sc.name, seed))
    with open(path, "w") as f:
        json.dump(spec, f, indent=1)
    return path


def replay_file(path, scs):
    global SCS, PROP
    spec = json.load(open(path))
    SCS, PROP = scs[spec["property"]]["scenarios"], spec["property"]
    EXE[spec["variant"]] = B.build(spec["variant"])
    os.makedirs(TMP, exist_ok=True)
    sc = next(s for s in SCS if s.name == spec["scenario"])
    if spec["mode"] == "seed":
        out = execute(command(spec["variant"], spec["opts"], sc, spec["args"]))
    else:
        _, out = replay_once(spec, spec["trace"], spec["skip"])
    j = judge(sc, out)
    print(out.text)
    same = bool(j and j[0] == spec["signature"] and (not spec["hash"] or out.hash == spec["hash"]))
    print("replay: %s (%s)" % ("reproduced exactly" if same else "DIFFERENT", j))
    if j:
        print("VIOLATION property=%s replay=%s" % (PROP, path))
    return 1 if j else 0


def check(prop, pdef, tier, base, seconds, only=None):
    """-> exit code"""
    global PROP, SCS
    t0 = time.time()
    PROP, SCS = prop, pdef["scenarios"]
    if only:
        SCS = [s for s in SCS if s.name in only]
    variants = sorted({v for s in SCS for v in s.variants})
    os.makedirs(TMP, exist_ok=True)
    if pdef.get("before"):
        pdef["before"]()
    for v in variants:
        EXE[v] = B.build(v)
    built = time.time() - t0
    findings = [f for f in load_findings() if f["property"] == prop]
    workers = int(os.environ.get("VERIF_JOBS", "8"))
    agg = Agg()
    weights = [s.weight for s in SCS]
    rng = random.Random("order/%d" % base)
    counters = [0] * len(SCS)
    t1 = time.time()
    deadline = t1 + seconds
    seen = collections.Counter()
    bad = []
    ctx = multiprocessing.get_context("fork")
    order = []

    def next_job(k):
        job = []
        for _ in range(k):
            # smallest share served first
            i = min(range(len(SCS)), key=lambda x: (counters[x] + 1) / weights[x])
            job.append((i, base * 1000003 + counters[i]))
            counters[i] += 1
        return job

    with cf.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
        pend = set()
        size = 2
        while True:
            while len(pend) < workers + 2 and time.time() < deadline and (not bad or SURVEY):
                pend.add(ex.submit(batch, next_job(size)))
            if not pend:
                break
            done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in done:
                a = f.result()
                for (i, seed, sig, msg) in a.fails:
                    k = next((x for x in findings if x["scenario"] == SCS[i].name and x["re"].search(msg)), None)
                    if k:
                        seen[k["what"]] += 1
                    else:
                        bad.append((i, seed, sig, msg))
                a.fails = []
                agg.merge(a)
            if agg.runs > 200:
                size = 6
            if bad and not SURVEY:
                for p in pend:
                    p.cancel()
    search = time.time() - t1
    rc = 0
    shown = 0
    if SURVEY:
        kinds = {}
        for i, seed, sig, msg in bad:
            kinds.setdefault((i, sig), []).append((seed, msg))
        for (i, sig), l in sorted(kinds.items(), key=lambda x: -len(x[1])):
            print("%5d of %d %s seed %d: %s" % (len(l), agg.per[SCS[i].name], SCS[i].name, min(l)[0], min(l)[1][:220]))
        print("%d runs, %d distinct, %s" % (agg.runs, len(agg.il), dict(agg.probes)))
        return 0
    if bad:
        bad.sort(key=lambda b: (b[1], b[0]))
        sigs = set()
        for i, seed, sig, msg in bad:
            if (i, sig) in sigs or shown >= 2:
                continue
            sigs.add((i, sig))
            print("candidate: scenario %s seed %d: %s" % (SCS[i].name, seed, msg[:300]))
            sys.stdout.flush()
            path = report(prop, i, seed, sig, msg, 40 if tier == "quick" else 120)
            if path:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                sys.stdout.flush()
                rc = 1
                shown += 1
                if tier == "quick":
                    break
        if rc == 0:
            rc = 2
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    wall = time.time() - t0
    faultkinds = ("spurious", "gc", "shortr", "shortw", "eintr", "ioerr", "netdelay", "netrst", "alloc", "start", "tick", "time", "signalee")
    ev = {"property": prop, "tier": tier, "seed": base, "level": "exploration",
          "wall_s": round(wall, 2), "violations": shown,
          "coverage": {
              "evaluations": agg.runs,
              "distinct_nontrivial": len(agg.il),
              "rule": "one evaluation = one simulated run (one seed: workload plan, schedule, faults); "
                      "non-trivial = at least one context switch or injected event after set-up; distinct = by the hash of the "
                      "sequence of context switches (from, to, code site) together with the run's event-and-decision hash",
              "samples": agg.samples[:8],
              "runs_per_scenario": dict(agg.per), "runs_per_engine": dict(agg.var),
              "statuses": dict(agg.status),
              "runs_per_hour": int(agg.runs / max(search, 0.01) * 3600),
              "seeds_per_hour": int(agg.runs / max(search, 0.01) * 3600),
              "simulated_seconds": round(agg.vtime / 1e6, 3),
              "context_switches": agg.switches, "preemptions": agg.preempts,
              "instrumented_accesses": agg.acc,
              "decisions_injected": dict(agg.dec), "runs_with_decision": dict(agg.faultruns),
              "fault_kinds_injected": {k: agg.dec[k] for k in faultkinds if agg.dec[k]},
              "probes": dict(agg.probes), "io": dict(agg.io),
              "known_finding_hits": dict(seen),
              "build_s": round(built, 2), "search_s": round(search, 2),
              "real_components": "VM core (machine, heap, interpreter or compiler and generated code, JNI), system layer "
                                 "(src/system/posix*), native and Java class library: compiled from /repo's working tree",
              "stubbed_components": "libc/pthread/kernel below the VM: threads are fibers of the simulator, clock, mutexes, "
                                    "conditions, signals, file system, pipes, sockets, allocator are simulated",
          },
          "assumptions": pdef.get("assumptions", []) + [
              "sequentially consistent interleavings at instrumented memory accesses of the VM's C++ code and at system calls; "
              "hardware memory reordering is not simulated",
          ]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct, %.1f s build, %.1f s search, statuses %s" % (
        prop, agg.runs, len(agg.il), built, search, dict(agg.status)))
    return rc

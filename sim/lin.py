"""Linearizability of recorded histories (Wing and Gong's search with memoised states)."""
import sys

sys.setrecursionlimit(10000)


def operations(hist):
    """-> list of (inv, ret, thread, op, a, b, result); unfinished ones have ret None"""
    open_, ops = {}, []
    for seq, t, ph, op, a, b in hist:
        if ph == 0:
            open_[t] = len(ops)
            ops.append([seq, None, t, op, a, b, None, None])
        else:
            o = ops[open_.pop(t)]
            o[1], o[6], o[7] = seq, a, b
    return ops


def linearizable(ops, init, step, limit=300000):
    """step(state, op) -> iterable of successor states consistent with op's result ([]: not possible here).
    -> True, False, or None if the limit was reached"""
    n = len(ops)
    INF = 1 << 62
    rets = [o[1] if o[1] is not None else INF for o in ops]
    invs = [o[0] for o in ops]
    need = 0
    for i, o in enumerate(ops):
        if o[1] is not None:
            need |= 1 << i
    seen = set()
    stack = [(0, init)]
    while stack:
        done, st = stack.pop()
        if done & need == need:
            return True
        if (done, st) in seen:
            continue
        seen.add((done, st))
        if len(seen) > limit:
            return None
        mr = INF
        for i in range(n):
            if not done >> i & 1 and rets[i] < mr:
                mr = rets[i]
        for i in range(n):
            if not done >> i & 1 and invs[i] < mr:
                for s in step(st, ops[i]):
                    stack.append((done | 1 << i, s))
    return False


def show(ops, names=None):
    return "; ".join("t%d %s(%d,%d)=%s [%s,%s]" % (o[2], names[o[3]] if names else o[3], o[4], o[5], o[6], o[0], o[1])
                     for o in sorted(ops))


def cfg(out, kind):
    for _, _, s in out.logs:
        if s.startswith("cfg " + kind + " "):
            return s.split()[2:]
    return None


def check(out, init, step, names=None, what="operations"):
    ops = operations(out.hist)
    if linearizable(ops, init, step) is False:
        return ["the %s have no sequential order: %s" % (what, show(ops, names)[:1500])]
    return []


# ---- registers
REG = ["get", "set", "compareAndSet", "getAndSet", "getAndAdd", "addAndGet", "getAndIncrement", "decrementAndGet",
       "incrementAndGet", "getAndDecrement", "lazySet", "weakCompareAndSet"]


def reg(out):
    c = cfg(out, "reg")
    if not c:
        return ["no configuration recorded"]
    w = int(c[1])
    half, full = 1 << (w - 1), 1 << w

    def wrap(x):
        return (x + half) % full - half

    def step(s, o):
        op, a, b, r = o[3], o[4], o[5], o[6]
        if op == 0:
            return (s,) if r == s else ()
        if op in (1, 10):
            return (a,)
        if op == 2:
            return ((b,) if s == a else ()) if r else ((s,) if s != a else ())
        if op == 11:
            return ((b,) if s == a else ()) if r else (s,)
        if op == 3:
            return (a,) if r == s else ()
        d = a if op in (4, 5) else 1 if op in (6, 8) else -1
        n = wrap(s + d)
        return (n,) if r == (n if op in (5, 7, 8) else s) else ()
    return check(out, int(c[0]), step, REG, "operations on the register (%s)" % c[2])


# ---- maps: the state is a tuple of (key, value) pairs in key order
MAP = ["get", "put", "putIfAbsent", "replace", "replaceIf", "remove", "removeIf", "containsKey", "size", "clear",
       "isEmpty", "keySet.remove", "keySet.contains", "traversal", "containsValue"] + ["?"] * 15 + [
       "values.remove", "values.contains", "putAll", "values.toArray", "keySet.toArray", "view size", "keys",
       "keySet.clear", "entrySet.toArray", "?", "?", "addAll", "containsAll", "removeAll"]


def mapstep(st, o):
    op, a, b, r = o[3], o[4], o[5], o[6]
    d = dict(st)
    old = d.get(a, 0)

    def put(v):
        d[a] = v
        return (tuple(sorted(d.items())),)

    def rem():
        d.pop(a, None)
        return (tuple(sorted(d.items())),)
    same = (st,)
    if op == 0:
        return same if r == old else ()
    if op == 1:
        return put(b) if r == old else ()
    if op == 2:
        return () if r != old else same if old else put(b)
    if op == 3:
        return () if r != old else put(b) if old else same
    if op == 4:
        hit = old == b // 10
        return () if r != hit else put(b % 10) if hit else same
    if op == 5:
        return rem() if r == old else ()
    if op == 6:
        hit = old == b
        return () if r != hit else rem() if hit else same
    if op in (7, 12):
        return same if r == (old != 0) else ()
    if op == 8:
        return same if r == len(d) else ()
    if op == 9:
        return ((),)
    if op == 10:
        return same if r == (len(d) == 0) else ()
    if op == 11:
        return rem() if r == (old != 0) else ()
    if op == 13:
        return same if r == sum(v * 10 ** k for k, v in st) else ()
    if op == 14 or op == 31:
        return same if r == (b in d.values()) else ()
    if op == 30:   # any one of the entries with the value
        if not r:
            return same if b not in d.values() else ()
        return tuple(tuple(x for x in st if x != e) for e in st if e[1] == b)
    if op == 32:
        d[a] = d[(a + 1) % 4] = b
        return (tuple(sorted(d.items())),)
    if op == 33:
        return same if r == 1000 * len(d) + sum(d.values()) else ()
    if op in (34, 36, 38):
        return same if r == sum(10 ** k for k in d) else ()
    if op == 35:
        return same if r == len(d) else ()
    if op == 37:
        return ((),)
    if op in (41, 42, 43):
        ks = (a, (a + 1) % 4)
        n = sum(k in d for k in ks)
        if op == 42:
            return same if r == (n == 2) else ()
        if r != (n < 2 if op == 41 else n > 0):
            return ()
        for k in ks:
            if op == 41:
                d[k] = 1
            else:
                d.pop(k, None)
        return (tuple(sorted(d.items())),)


def cmap(out):
    return check(out, (), mapstep, MAP, "operations on the map")


# ---- queues: the state is the tuple of elements
QUEUE = ["offer", "poll", "peek", "?", "put", "take", "offer timed", "poll timed", "drainTo", "drainTo max", "remove",
         "size", "remainingCapacity", "contains", "addAll", "toArray", "clear", "isEmpty", "add", "element", "remove first"]


def pack(l):
    """as the workload packs a list into one 64-bit number"""
    r = 1
    for x in l:
        r = (r * 67 + x) & (2 ** 64 - 1)
    return r - (1 << 64) if r >> 63 else r


def queuestep(cap):
    def step(s, o):
        op, a, b, r = o[3], o[4], o[5], o[6]
        same = (s,)
        if r == -2:
            return same
        if op in (0, 4, 6, 18):
            if r:
                return (s + (a,),) if len(s) < cap else ()
            return same if len(s) >= cap else ()
        if op in (1, 7, 5, 20):
            if r:
                return (s[1:],) if s and s[0] == r else ()
            return same if not s else ()
        if op in (2, 19):
            return same if r == (s[0] if s else 0) else ()
        if op in (8, 9):
            k = len(s) if op == 8 else min(a, len(s))
            return (s[k:],) if r == pack(s[:k]) else ()
        if op == 10:
            if r != (a in s):
                return ()
            if r:
                k = s.index(a)
                return (s[:k] + s[k + 1:],)
            return same
        if op == 11:
            return same if r == len(s) else ()
        if op == 12:
            return same if r == cap - len(s) else ()
        if op == 13:
            return same if r == (a in s) else ()
        if op == 14:
            if r == 1:
                return (s + (a, b),) if len(s) + 2 <= cap else ()
            return same if len(s) + 2 > cap else ()
        if op == 15:
            return same if r == pack(s) else ()
        if op == 16:
            return ((),)
        if op == 17:
            return same if r == (not s) else ()
        return ()
    return step


def queue(out):
    c = cfg(out, "queue")
    return check(out, (), queuestep(int(c[0]) if c else 1 << 40), QUEUE, "operations on the queue")


# ---- futures
def future(out):
    ops = operations(out.hist)
    c = cfg(out, "future")
    if not c:
        return []
    calls = int(c[0])
    nm = ["get", "get timed", "cancel(true)", "cancel(false)", "isDone", "isCancelled", "run"]
    won = [o for o in ops if o[3] in (2, 3) and o[6] == 1]
    bad = []
    if len(won) > 1:
        bad.append("two cancellations succeed")
    gets = [o for o in ops if o[3] in (0, 1) and o[6] != -3]
    vals = {o[6] for o in gets}
    if len(vals) > 1:
        bad.append("get has different outcomes %s" % sorted(vals))
    if won and any(v != -1 for v in vals):
        bad.append("get gives a result of a cancelled task")
    if not won and -1 in vals:
        bad.append("get reports a cancellation that did not happen")
    ic = [o for o in ops if o[3] == 5 and o[6]]
    if ic and not won:
        bad.append("isCancelled without a cancellation")
    # what is known to be over at a time
    over = [o[1] for o in gets] + [o[1] for o in won] + [o[1] for o in ops if o[3] in (4, 5) and o[6]]
    first = min(over) if over else 1 << 60
    for o in ops:
        if o[0] > first and (o[3] == 4 and not o[6] or o[3] == 1 and o[6] == -3 or o[3] in (2, 3) and o[6] == 1):
            bad.append("the task was over at %d, and still %s gives %d at %d" % (first, nm[o[3]], o[6], o[0]))
        if won and o[0] > won[0][1] and o[3] == 5 and not o[6]:
            bad.append("a cancelled task says that it is not cancelled")
        if won and o[1] < won[0][0] and (o[3] == 5 and o[6] or o[3] in (0, 1) and o[6] == -1):
            bad.append("%s reports a cancellation before it happens" % nm[o[3]])
    if calls == 0 and not won:
        bad.append("the task was never run")
    return [b + ": " + show(ops, nm)[:1200] for b in bad]


# ---- the synchronized classes
LIST = ["add", "get", "set", "removeAt", "remove", "size", "indexOf", "contains", "addAt", "clear", "isEmpty", "toArray",
        "addAll", "locked traversal", "locked add if absent", "push", "pop", "peek", "lastIndexOf", "add 20", "setLength",
        "substring", "subSequence"] + ["op%d" % i for i in range(23, 40)]


def liststep(kind):
    text = kind >= 7

    def step(s, o):
        op, a, b, r = o[3], o[4], o[5], o[6]
        same = (s,)
        n = len(s)
        if op in (0, 15):
            return (s + (a,),) if r == 1 else ()
        if op == 1:
            return same if r == (s[a] if a < n else -9) else ()
        if op == 2:
            if a >= n:
                return same if r == -9 else ()
            return (s[:a] + (b,) + s[a + 1:],) if r == (0 if text else s[a]) else ()
        if op == 3:
            if a >= n:
                return same if r == -9 else ()
            return (s[:a] + s[a + 1:],) if r == (0 if text else s[a]) else ()
        if op == 4:
            if a not in s:
                return same if r == 0 else ()
            i = s.index(a)
            return (s[:i] + s[i + 1:],) if r == 1 else ()
        if op == 5:
            return same if r == n else ()
        if op == 6:
            return same if r == (s.index(a) if a in s else -1) else ()
        if op == 18:
            return same if r == (n - 1 - s[::-1].index(a) if a in s else -1) else ()
        if op == 7:
            return same if r == (a in s) else ()
        if op == 8:
            if a > n:
                return same if r == -9 else ()
            return (s[:a] + (b,) + s[a:],) if r == 1 else ()
        if op == 9:
            return ((),)
        if op == 10:
            return same if r == (not s) else ()
        if op in (11, 13) or op == 14 and kind == 8:
            return same if r == pack(s) else ()
        if op == 12:
            return (s + (a, b),) if r == 1 else ()
        if op == 14:
            return () if r != (a not in s) else same if a in s else (s + (a,),)
        if op == 16:
            if not s:
                return same if r == -9 else ()
            return (s[:-1],) if r == s[-1] else ()
        if op == 17:
            return same if r == (s[-1] if s else -9) else ()
        if op == 19:
            return (s + (a,) * 20,)
        if op == 20:
            return (s[:a] + (-32,) * max(0, a - n),)
        if op in (21, 22):
            if b > n:
                return same if r == -9 else ()
            return same if r == pack(s[a:b]) else ()
        if text:
            ch = lambda t: tuple(ord(x) - 32 for x in t)
            if op == 23:
                return same if r == -9 and a > n else (s[:a] + s[b:],) if r == 0 and a <= n else ()
            if op == 24:
                return same if r == -9 and a > n else (s[:a] + (29, a) + s[b:],) if r == 0 and a <= n else ()
            if op == 25:
                return same if r == (pack(s[a:b]) if b <= n else -9) else ()
            if op == 26:
                if a > n:
                    return same if r == -9 else ()
                return (s[:a] + (b, b) + s[a:],) if r == 1 else ()
            add = {27: ch(str(a)), 28: (a, b), 29: (a, b), 30: (a,) * 20, 31: (a, b), 32: (a, b),
                   33: ch("true" if a % 2 == 0 else "false"), 34: ch(str(1000000 * a))}[op]
            return (s + add,)
        if op in (23, 24, 25):
            return same if r == pack(s) else ()
        if op == 26:
            t = tuple(x for x in s if x != a and x != b)
            return (t,) if r == (t != s) else ()
        if op == 27:
            return same if r == (a in s and b in s) else ()
        if op == 28:
            if a > n:
                return same if r == -9 else ()
            return (s[:a] + (b, b) + s[a:],) if r == 1 else ()
        if op == 30:
            if a >= n:
                return same if r == -9 else ()
            return (s[:a] + (b,) + s[a + 1:],) if r == 0 else ()
        if op == 31:
            if a >= n:
                return same if r == -9 else ()
            return (s[:a] + s[a + 1:],) if r == 0 else ()
        if op == 32:
            if a > n:
                return same if r == -9 else ()
            return (s[:a] + (b,) + s[a:],) if r == 1 else ()
        if op == 33:
            if a not in s:
                return same if r == 0 else ()
            i = s.index(a)
            return (s[:i] + s[i + 1:],) if r == 1 else ()
        if op == 34:
            return ((),)
        if op == 35:
            return same if r == (not s) else ()
    return step


def legacy(out):
    c = cfg(out, "legacy")
    if not c:
        return []
    k = int(c[0])
    if 4 <= k <= 6:
        return check(out, (), mapstep, MAP, "operations (kind %d)" % k)
    return check(out, (), liststep(k), LIST, "operations (kind %d)" % k)


# ---- names in a directory: the state is the set of names
def names(out):
    def step(s, o):
        op, a, b, r = o[3], o[4], o[5], o[6]
        there = a in s
        if op == 0:
            return (s | {a},) if r == (not there) else ()
        if op == 1:
            return (s - {a},) if r == there else ()
        if op == 2:
            if r != there:
                return ()
            return (s - {a} | {b},) if there else (s,)
        if op == 5:
            return (s,) if not r else ()
        return (s,) if r == there else ()
    return check(out, frozenset(), step, ["createNewFile", "delete", "renameTo", "exists", "isFile", "rename none", "canRead"],
                 "operations on the names")


# ---- the end of the VM
def ending(out):
    c = cfg(out, "exit")
    if not c:
        return ["no configuration recorded"]
    mode = int(c[0])
    first = {}
    count = {}
    order = []
    for i, (seq, t, s) in enumerate(out.logs):
        count[s] = count.get(s, 0) + 1
        first.setdefault(s, i)
        order.append(s)
    exits = [int(s.split()[1]) for s in order if s.startswith("exit ")]
    ended = first.get("exit %d" % exits[0]) if exits else len(order)
    r = []
    if mode in (0, 1):
        want = [-1 if mode == 1 else 0]
        if out.status != "returned":
            r.append("main's end gave %s" % out.status)
    elif mode == 5:
        want = exits
        if out.status != "exit":
            r.append("a thread called exit, but the VM ended by %s" % out.status)
    else:
        want = exits
        if out.status != "exit":
            r.append("exit was called, but the VM ended by %s" % out.status)
    if out.code not in want:
        r.append("the VM ended with code %d, not %s" % (out.code, want))
    for s, i in first.items():
        w, _, x = s.partition(" ")
        if w == "reg" and i < ended:
            if "hook " + x not in first:
                r.append("shutdown hook %s never ran" % x)
            elif "done " + x not in first:
                r.append("shutdown hook %s had not ended when the VM ended" % x)
        if w == "hook":
            if count[s] > 1:
                r.append("shutdown hook %s ran %d times" % (x, count[s]))
            if mode in (2, 3, 4) and i < ended:
                r.append("shutdown hook %s ran before exit was called" % x)
        if w == "started" and mode in (0, 1, 5) and not (mode == 5 and exits):
            if "end " + x not in first:
                r.append("thread %s had not ended when the VM ended" % x)
        if w == "started" and mode in (0, 1) and x[0] != "9":
            for h, j in first.items():
                if h.startswith("hook ") and ("end " + x not in first or j < first["end " + x]):
                    r.append("a shutdown hook ran before thread %s ended" % x)
        if w == "said" and out.stdout.split("\n").count("out " + x) < count[s]:
            r.append("the output %s was lost: %s" % (x, out.stdout[-300:].replace("\n", " | ")))
    return r

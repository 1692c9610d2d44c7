"""The properties and the scenarios that decide them."""
from driver import Sc, swarm, lu

PROPS = {}
IJ = ("interp", "jit")
IIJ = ("interp", "interp", "jit")

PROPS["C01"] = {"scenarios": [
    Sc("mon", "Mon", variants=("interp", "interp", "jit")),
]}


def mode(*ms):
    def plan(r):
        return {"plan": r.randrange(1, 1 << 30), "m": r.choice(ms)}
    return plan


def calm_plan(*ms):
    """no clock jitter and no spurious wakeups: deadlines can be checked exactly"""
    def plan(r):
        return {"plan": r.randrange(1, 1 << 30), "m": r.choice(ms), "exact": 1}
    return plan


def calm(r):
    return swarm(r, spurious=0, time_=0)


PROPS["C02"] = {"scenarios": [
    Sc("tokens", "Wait", IIJ, plan=mode(0), weight=2),
    Sc("exact", "Wait", IIJ, plan=mode(1), weight=2),
    Sc("timed", "Wait", IIJ, plan=mode(2)),
    Sc("deadline", "Wait", IIJ, plan=calm_plan(2), opts=calm, weight=2),
    Sc("handover", "Wait", IIJ, plan=mode(3), weight=3),
    Sc("interrupt", "Wait", IIJ, plan=mode(4), weight=2),
    Sc("race", "Wait", IIJ, plan=mode(5), weight=2),
]}

PROPS["C05"] = {"scenarios": [
    Sc("init", "CInit", IIJ, pre=0),
]}

def starts(r):
    o = swarm(r)
    o["start"] = round(lu(r, 0.03, 0.6), 3)
    return o


PROPS["C03"] = {"scenarios": [
    Sc("join", "Life", IIJ, plan=mode(0), weight=2),
    Sc("start", "Life", IIJ, plan=mode(1)),
    Sc("uncaught", "Life", IIJ, plan=mode(2)),
    Sc("locals", "Life", IIJ, plan=mode(3)),
    Sc("churn", "Life", IIJ, plan=mode(4)),
    Sc("sleep", "Life", IIJ, plan=mode(5)),
    Sc("refused", "Life", IIJ, plan=mode(6), opts=starts),
    Sc("sleepexact", "Life", IIJ, plan=calm_plan(5), opts=calm),
]}

PROPS["C08"] = {"scenarios": [
    Sc("refs", "Refs", IIJ, plan=mode(0), weight=3, opts=lambda r: more_gc(r)),
    Sc("finalizers", "Refs", IIJ, plan=mode(1), opts=lambda r: more_gc(r)),
    Sc("weakmap", "Refs", IIJ, plan=mode(2), opts=lambda r: more_gc(r)),
]}


def more_gc(r):
    o = swarm(r)
    if r.random() < 0.8:
        o["gc"] = r.choice([0.002, 0.01, 0.03])
        o["gcmajor"] = r.choice([0.2, 0.5])
        o["maxfaults"] = r.choice([15, 40, 80])
    return o

def gc_heavy(r):
    o = more_gc(r)
    if "gc" in o and r.random() < 0.6:
        o["gc"] = r.choice([0.03, 0.1, 0.2])
        o["gcmajor"] = r.choice([0.02, 0.1])
        o["maxfaults"] = r.choice([60, 120])
        o["steps"] = 1000000000
    return o

def hot(r, a=8, b=600):
    """mostly preemptions inside the recorded operations"""
    o = swarm(r)
    o["hot"] = round(lu(r, a, b), 1)
    return o


import ref
PROPS["C07"] = {"before": ref.table, "scenarios": [
    Sc("frames", "FramesW", ("interp", "jit", "jit", "jit"), opts=gc_heavy, oracle=ref.frames, weight=2, pre=0),
    Sc("heap", "Heap", IIJ, opts=lambda r: more_gc(r), weight=2),
]}

def long(f):
    def g(r):
        o = f(r)
        o["steps"] = 1500000000
        return o
    return g


PROPS["C23"] = {"scenarios": [
    Sc("jni", "JniW", IIJ, opts=long(swarm), weight=2),
    Sc("jnigc", "JniW", ("interp", "jit", "jit"), opts=long(gc_heavy), weight=3),
    Sc("jnifirst", "JniW", ("interp", "jit"), opts=long(gc_heavy), pre=0),
]}

import lin
PROPS["C11"] = {"scenarios": [
    Sc("registers", "Reg", IIJ, oracle=lin.reg, weight=2),
    Sc("updates", "Reg", IIJ, plan=mode(1), oracle=lin.reg, opts=lambda r: hot(r), weight=2),
    Sc("registersgc", "Reg", IIJ, oracle=lin.reg, opts=lambda r: more_gc(r), weight=0.3),
]}
PROPS["C12"] = {"scenarios": [
    Sc("single", "CMap", IIJ, plan=mode(0), oracle=lin.cmap, weight=2),
    Sc("owners", "CMap", IIJ, plan=mode(1)),
]}
PROPS["C13"] = {"scenarios": [
    Sc("linked", "Queue", IIJ, plan=mode(0), oracle=lin.queue),
    Sc("linkedbig", "Queue", IIJ, plan=mode(1)),
    Sc("blocking", "Queue", IIJ, plan=mode(2), oracle=lin.queue, weight=3),
    Sc("timed", "Queue", IIJ, plan=calm_plan(2), opts=calm, oracle=lin.queue),
    Sc("interrupts", "Queue", IIJ, plan=mode(3), oracle=lin.queue, weight=2),
]}
PROPS["C14"] = {"scenarios": [
    Sc("future", "Fut", IIJ, plan=mode(0), oracle=lin.future, weight=3),
    Sc("exact", "Fut", IIJ, plan=calm_plan(0), opts=calm, oracle=lin.future),
    Sc("completion", "Fut", IIJ, plan=mode(1)),
]}
PROPS["C15"] = {"scenarios": [
    Sc("flags", "Park", IIJ, plan=mode(0), weight=2),
    Sc("permit", "Park", IIJ, plan=mode(1)),
    Sc("permitexact", "Park", IIJ, plan=calm_plan(1), opts=calm),
    Sc("interrupts", "Park", IIJ, plan=mode(2)),
    Sc("timed", "Park", IIJ, plan=mode(3)),
    Sc("timedexact", "Park", IIJ, plan=calm_plan(3), opts=calm),
    Sc("mutex", "Park", IIJ, plan=mode(4), weight=2),
    Sc("strangers", "Park", IIJ, plan=mode(5), opts=lambda r: more_gc(r)),
]}
PROPS["C17"] = {"scenarios": [
    Sc("legacy", "Legacy", IIJ, plan=mode(0), oracle=lin.legacy, weight=4),
    Sc("print", "Legacy", IIJ, plan=mode(1)),
    Sc("observe", "Legacy", IIJ, plan=mode(2)),
]}


def io(r, err=0, **kw):
    """short transfers, and I/O errors if asked for"""
    o = swarm(r, **kw)
    o["maxfaults"] = r.choice([5, 25, 60])
    o["short"] = r.choice([0, 0.1, 0.4, 0.8])
    if err:
        o["ioerr"] = r.choice([0.01, 0.05, 0.2])
    return o


def io_plan(m, **kw):
    def plan(r):
        return dict({"plan": r.randrange(1, 1 << 30), "m": m}, **kw)
    return plan


PROPS["C18"] = {"scenarios": [
    Sc("streams", "Files", IIJ, plan=io_plan(0), opts=io, weight=2),
    Sc("faulty", "Files", IIJ, plan=io_plan(0, err=1), opts=lambda r: io(r, 1), weight=3),
    Sc("names", "Files", IIJ, plan=io_plan(1), oracle=lin.names),
    Sc("temps", "Files", IIJ, plan=io_plan(2)),
    Sc("append", "Files", IIJ, plan=io_plan(3)),
    Sc("appendfaulty", "Files", IIJ, plan=io_plan(3, err=1), opts=lambda r: dict(io(r, 1), short=0)),
    Sc("shared", "Files", IIJ, plan=io_plan(4), opts=io),
    Sc("full", "Files", IIJ, plan=io_plan(5), opts=io),
]}


def exit_plan(r):
    return {"plan": r.randrange(1, 1 << 30), "mode": r.choice([0, 0, 1, 2, 3, 4, 5])}


PROPS["C04"] = {"scenarios": [
    Sc("exit", "Exit", IIJ, plan=exit_plan, oracle=lin.ending, ok=("returned", "exit"), pre=0, code=None),
]}

PROPS["C21"] = {"scenarios": [
    Sc("write", "Streams", IIJ, plan=io_plan(0), opts=io),
    Sc("read", "Streams", IIJ, plan=io_plan(1), opts=io, weight=3),
    Sc("dialogue", "Streams", IIJ, plan=io_plan(2), opts=io, weight=2),
    Sc("data", "Streams", IIJ, plan=io_plan(3), opts=io, weight=2),
    Sc("compress", "Streams", IIJ, plan=io_plan(4), opts=io),
    Sc("zip", "Streams", IIJ, plan=io_plan(5), opts=io, weight=2),
    Sc("zipfaulty", "Streams", IIJ, plan=io_plan(5, err=1), opts=lambda r: io(r, 1)),
]}


def net(r, rst=0, err=0, **kw):
    o = swarm(r, **kw)
    o["maxfaults"] = r.choice([5, 25, 60])
    o["short"] = r.choice([0, 0.1, 0.5])
    o["netdelay"] = r.choice([0, 0.1, 0.5])
    o["window"] = r.choice([4, 15, 60, 500, 65536])
    o["vtime"] = 1000000000
    if rst:
        o["netrst"] = r.choice([0.01, 0.05, 0.3])
    if err:
        o["ioerr"] = r.choice([0.02, 0.1])
    return o


def rst(r):
    return net(r, 1, r.randrange(2))


def loading(r):
    o = swarm(r)
    if r.random() < 0.6:
        o["gc"] = r.choice([0.001, 0.003, 0.01])
        o["gcmajor"] = r.choice([0.1, 0.3])
        o["maxfaults"] = r.choice([6, 12, 20])
    return o


PROPS["C06"] = {"scenarios": [
    Sc("loaders", "Load", IIJ, plan=io_plan(0), opts=loading, weight=4),
    Sc("failing", "Load", IIJ, plan=io_plan(0, err=1), opts=loading, weight=3),
    Sc("system", "Load", IIJ, plan=io_plan(1), opts=loading, pre=0),
]}


PROPS["C16"] = {"scenarios": [
    Sc("intern", "Intern", IIJ, plan=io_plan(0), opts=lambda r: more_gc(r)),
]}


PROPS["C10"] = {"scenarios": [
    Sc("exceptions", "Exc", IIJ, plan=io_plan(0), opts=loading),
]}


PROPS["C22"] = {"before": ref.links_table, "scenarios": [
    Sc("links", "Link", IIJ, plan=io_plan(0), opts=loading, oracle=ref.links, pre=0),
    Sc("linksjit", "Link", ("jit",), plan=io_plan(0), opts=loading, oracle=ref.links, pre=0),
]}


PROPS["C19"] = {"scenarios": [
    Sc("streams", "Net", IIJ, plan=io_plan(0), opts=net, weight=3),
    Sc("reset", "Net", IIJ, plan=io_plan(0, err=1), opts=rst, weight=2),
    Sc("cut", "Net", IIJ, plan=io_plan(1), opts=net, weight=2),
    Sc("echo", "Net", IIJ, plan=io_plan(2), opts=net, weight=3),
    Sc("echoreset", "Net", IIJ, plan=io_plan(2, err=1), opts=rst, weight=2),
    Sc("wakeups", "Net", IIJ, plan=io_plan(3), opts=net, weight=2),
    Sc("datagrams", "Net", IIJ, plan=io_plan(4), opts=net),
    Sc("loss", "Net", IIJ, plan=io_plan(4, err=1), opts=rst),
    Sc("connects", "Net", IIJ, plan=io_plan(5), opts=net, weight=2),
]}

def ooms(r):
    o = swarm(r)
    o["oom"] = round(lu(r, 0.001, 0.1), 5)
    o["steps"] = 1500000000
    return o
def full(r):
    o = swarm(r)
    o["steps"] = 6000000000
    o["gap"] = max(o["gap"], 300)
    return o
PROPS["C09"] = {"before": ref.links_table, "scenarios": [
    Sc("oom", "Oom", IJ, opts=ooms, pre=1, weight=3),
    Sc("oomfirst", "Oom", IJ, opts=ooms, pre=0, weight=2, plan=lambda r: {"plan": r.randrange(1, 1 << 30), "first": 1}),
    Sc("link", "Oom", IJ, opts=ooms, pre=0, weight=0.7, oracle=ref.links, plan=lambda r: {"plan": r.randrange(1, 1 << 30), "m": 1}),
    Sc("load", "Oom", IJ, opts=ooms, pre=0, oracle=ref.links, plan=lambda r: {"plan": r.randrange(1, 1 << 30), "m": 2}),
    Sc("limit", "Oom", IJ, weight=0.3, opts=full, pre=1, vmargs=("-Xmx10m",), plan=lambda r: {"plan": r.randrange(1, 1 << 30), "m": 4, "max": 10240}),
    Sc("init", "Oom", IJ, opts=ooms, pre=0, oracle=ref.links, plan=lambda r: {"plan": r.randrange(1, 1 << 30), "m": 3}),
]}

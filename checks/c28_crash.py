"""C28  a crash while a snapshot is written never costs the last good one.

The real snapshot routine runs in forked children that are killed at every
possible point: after every single byte that reaches a file (the kernel's file
size limit, signal left to kill) and at every file operation the interpreter
announces (open, rename, remove, ...).  After each crash the snapshot is read
back with the real reader and must be the complete old or the complete new one.

In whole runs of several years the folder is looked at before every line of the
routines that close a year and before every file operation: what is there is
what a kill at that moment would leave.
"""
import inspect
import itertools
import os
import pickle
import resource
import shutil
import signal
import sys
import types

import numpy as np

from checks import c27_reference
from mc import annual, core, sim
from mc.core import Violation

NAME = "DUMP.pkl"


def state(n, year):
    """Arguments of the snapshot routine for the end of a year."""
    names = list(inspect.signature(core.fn("monte_carlo.intm")).parameters)
    base = annual.load(n, 5)
    d = {}
    for i, k in enumerate(names):
        if k in base:
            v = base[k]
            d[k] = (np.array(v, float) + year * (i + 1)) if isinstance(v, np.ndarray) and v.dtype.kind == "f" else v
        else:
            d[k] = np.zeros(n)
    d["CLOCK"] = 8760.0 * year
    d["ATRIB"] = np.array([8760.0 * year, 4.0])
    d["XLAST"], d["SSQ"], d["INTVT"], d["ITAB"] = 7.0 * year, 49.0 * year, year + 1, year
    return d


def child(dirname, args, limit, event):
    """Run the snapshot routine in a child; returns (status, file events seen)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.chdir(dirname)
            f = core.fn("monte_carlo.intm")
            seen = [0]

            def hook(name, a):
                if name in ("open", "os.rename", "os.remove", "os.truncate", "shutil.move", "shutil.copyfile", "os.link", "os.mkdir", "os.rmdir"):
                    if name == "open" and isinstance(a[0], int):
                        return
                    if event is not None and seen[0] == event:
                        os._exit(77)
                    seen[0] += 1

            if event is not None or limit is None:
                sys.addaudithook(hook)
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            f(**args)
            n = seen[0]
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if limit is None else None
            os.write(w, b"%d" % n)
            os._exit(0)
        except BaseException as e:
            try:
                os.write(w, ("X%r" % e).encode()[:300])
            finally:
                os._exit(3)
    os.close(w)
    data = os.read(r, 400)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return st, data.decode()


def load(dirname):
    p = os.path.join(dirname, NAME)
    if not os.path.exists(p):
        return None
    return core.fn("monte_carlo.rstart")(p)


def key(d):
    if d is None:
        return None
    return {k: np.array(v).tolist() for k, v in d.items()}


def one(R, case):
    n, had_old, lo, hi, mode = case
    d = os.path.abspath("crash")
    old, new = state(n, 1), state(n, 2)
    ref = {}
    for name, a in (("old", old), ("new", new)):
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        st, msg = child(d, a, None, None)
        if st != 0:
            raise Violation("write", "writing a snapshot failed: %s" % msg)
        ref[name] = key(load(d))
        if ref[name] is None:
            raise Violation("write", "no snapshot was written")
    if ref["old"] == ref["new"]:
        raise Violation("write", "two different states have the same snapshot")
    events = int(msg)
    size = max(os.path.getsize(os.path.join(d, f)) for f in os.listdir(d))
    points = range(events) if mode == "op" else range(lo, min(hi, size + 1))
    for k in points:
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        if had_old:
            child(d, old, None, None)
        st, msg = child(d, new, k if mode == "byte" else None, k if mode == "op" else None)
        R.transitions += 1
        R.states += 1
        died = st != 0
        what = "crash at %s %d of writing a snapshot (%s)" % (mode, k, "an earlier snapshot exists" if had_old else "first snapshot")
        try:
            got = key(load(d))
        except Exception as e:
            raise Violation("torn", "%s: the snapshot cannot be read back: %r" % (what, e))
        R.outcome("%s: %s" % ("killed" if died else "finished", "none" if got is None else "old" if got == ref["old"] else "new"))
        if got is None and not had_old and died:
            continue
        if got == ref["new"] or (died and had_old and got == ref["old"]):
            continue
        raise Violation("torn", "%s: %s" % (what, "no snapshot is left" if got is None else "the snapshot read back is neither the old nor the new one"))
    R.traces += 1
    R.sample({"areas": n, "earlier_snapshot": had_old, "points": [lo, hi], "mode": mode})


MODULES = ("year", "intm")
LOOK = [None]
HOOKED = []


def codes(c):
    yield c
    for x in c.co_consts:
        if isinstance(x, types.CodeType):
            yield from codes(x)


def hook(name, a):
    if LOOK[0] is not None and name.split(".")[0] in ("open", "os", "shutil"):
        f, LOOK[0] = LOOK[0], None
        try:
            f()
        finally:
            LOOK[0] = f


def whole(R, case):
    feats, n, fin, intv, cvt, step = case
    S = c27_reference.system(n, feats, step, 24, fin, 1.0, 0)
    S.mc.update(IN=intv, CVT=cvt)
    log = [("at", None)]
    last = [None]

    def look():
        R.states += 1
        try:
            t = os.stat(NAME)
        except FileNotFoundError:
            t = None
        k = t and (t.st_ino, t.st_size, t.st_mtime_ns)
        if k == last[0] and k is not None:
            return
        last[0] = k
        b = None if t is None else open(NAME, "rb").read()
        if log[-1] != ("at", b):
            log.append(("at", b))

    def spy(call, a):
        look()
        r = call()
        LOOK[0] = None
        look()
        log.append(("done", open(NAME, "rb").read()))
        LOOK[0] = look
        return r

    def end(call, a):
        try:
            LOOK[0] = look
            r = call()
            LOOK[0] = None
            look()
            return r
        finally:
            LOOK[0] = None

    mon, tool = sys.monitoring, 3
    mon.use_tool_id(tool, "crash points")

    def line(code, no):
        R.transitions += 1
        if LOOK[0] is not None:
            f, LOOK[0] = LOOK[0], None
            try:
                f()
            finally:
                LOOK[0] = f

    mon.register_callback(tool, mon.events.LINE, line)
    watched = [
        c
        for m in MODULES
        for f in vars(core.mod("monte_carlo." + m)).values()
        if isinstance(f, types.FunctionType) and f.__module__.endswith("monte_carlo." + m)
        for c in codes(f.__code__)
    ]
    if not HOOKED:
        HOOKED.append(sys.addaudithook(hook))
    try:
        for c in watched:
            mon.set_local_events(tool, c, mon.events.LINE)
        sim.run(S, {core.fn("monte_carlo.intm"): spy, core.fn("monte_carlo.year"): end})
    finally:
        LOOK[0] = None
        for c in watched:
            mon.set_local_events(tool, c, 0)
        mon.free_tool_id(tool)
    snaps = [b for k, b in log if k == "done"]
    if not snaps:
        raise Violation("write", "%s: the run wrote no snapshot" % (case,))
    done = 0
    for i, (k, b) in enumerate(log):
        if k == "done":
            done += 1
            continue
        ok = {snaps[j] if j >= 0 else None for j in (done - 1, done) if j < len(snaps)}
        if b not in ok:
            raise Violation("lost", "run %s: after %d of %d snapshots a crash would leave %s" % (
                case, done, len(snaps), "no snapshot" if b is None else "a snapshot of %d bytes that is neither the last complete one nor the next" % len(b)))  # fmt: skip
    R.outcome("whole run, %d snapshots" % len(snaps))
    R.traces += 1


def chunk(R, cases):
    for c in cases:
        if c[0] == "run":
            R.case(whole, c[1:], limit=240, part="whole runs")
        else:
            R.case(one, c, limit=240, part="%s, %s" % (c[4], "second" if c[1] else "first"))


def run(R):
    cases = []
    for n in (1, 2) if not core.THOROUGH else (1, 2, 3):
        for had in (False, True):
            cases.append((n, had, 0, 0, "op"))
            hi = 16000
            step = 500
            for lo in range(0, hi, step):
                cases.append((n, had, lo, lo + step, "byte"))
    F = c27_reference.FEATURES
    for fin, intv, cvt in ((3, 1, 1e-9), (5, 2, 1e-9), (3, 5, 1e-9), (8, 3, 0.3)):
        for n, feats in itertools.product((1, 2), ((), F) + (tuple((x,) for x in F) if core.THOROUGH else ())):
            cases.append(("run", feats, n, fin, intv, cvt, 24))
    cases.append(("run", F, 2, 2, 1, 1e-9, 1))
    core.pmap(R, chunk, [[c] for c in cases])
    return (
        {"crash_points": "every byte count reaching a file, every announced file operation", "snapshots": "first, second; whole runs of 2..8 years seen before every line and file operation at the end of a year"},
        ["crashes of the process; a power failure that loses buffered file-system data is not modelled"],
    )

"""Run the real program on a synthetic system, under observation."""
import os
import shutil
import tempfile

from mc import core


def _main():
    return core.fn("monte_carlo.narpMain")


class Stop(Exception):
    """Raised by an observer to end a run early."""


def run(sysd, spies=None, keep=(), tweak=None):
    """Run the whole program on the system in a fresh directory.

    spies: {function of the package: spy(call, args)} where args maps parameter
           names to values and call() invokes the real function.
    tweak: called with the folder of the input files before the run
    Returns (text of output.txt, {kept file: bytes}).
    """
    d = tempfile.mkdtemp(prefix="run-", dir=os.getcwd())
    here = os.getcwd()
    narp = _main()
    table = {}
    for orig, spy in (spies or {}).items():
        bind = core.binder(orig)

        def wrapper(*a, _o=orig, _s=spy, _b=bind, **k):
            return _s(lambda: _o(*a, **k), _b(a, k))

        table[orig] = wrapper
    try:
        sysd.write(d)
        if tweak:
            tweak(d)
        os.chdir(d)
        with core.patched(table):
            try:
                narp(d)
            except Stop:
                pass
        out = ""
        if os.path.exists("output.txt"):
            out = open("output.txt").read()
        kept = {f: open(f, "rb").read() for f in keep if os.path.exists(f)}
        return out, kept
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def load(sysd):
    """Everything the program knows when the simulation is about to start:
    the arguments of its main loop, by name."""
    got = {}

    def spy(call, args):
        got.update(args)
        raise Stop()

    run(sysd, {core.fn("monte_carlo.contrl"): spy})
    return got


def start(state):
    """Run the main loop on a (possibly modified) loaded state."""
    core.fn("monte_carlo.contrl")(**state)


def observe(sysd, years=None, on_hour=None):
    """Run the program and collect what reaches its statistics.

    Returns (events, output text); events is a list of
      ("H", tier, [margin per area])   a loss recorded in the hourly statistics
      ("P", tier, [margin per area])   a loss recorded in the peak statistics
      ("Y", clock)                     an annual roll-up
    """
    ev = []

    def h(call, a):
        ev.append(("H", int(a["NST"]), [float(x) for x in a["MARGIN"]]))
        return call()

    def p(call, a):
        ev.append(("P", int(a["NST"]), [float(x) for x in a["MARGIN"]]))
        return call()

    def y(call, a):
        ev.append(("Y", float(a["CLOCK"])))
        return call()

    spies = {
        core.fn("monte_carlo.hrstat"): h,
        core.fn("monte_carlo.pkstat"): p,
        core.fn("monte_carlo.year"): y,
    }
    out, _ = run(sysd, spies)
    return ev, out


def inputs(sysd, loss=True):
    """What the transmission calculation is asked, hour by hour.

    The transmission calculation itself is replaced: it reports a loss in
    every area (so that all forecast tiers are visited) or no loss.
    Returns a list of dicts (arguments by name, copied).
    """
    import numpy as np

    got = []
    tr = core.fn("monte_carlo.transm")
    want = ("CLOCK", "JHOUR", "TRNSFR", "TRNSFJ", "SYSCON", "CAPREQ", "LNSTAT", "PLNDST", "PCTAVL")

    def spy(call, a):
        got.append({k: np.array(a[k], copy=True) for k in want})
        n = len(a["SYSCON"])
        return int(loss), np.zeros(len(a["LNSTAT"])), np.full(n, 5.0 if loss else -1.0)

    run(sysd, {tr: spy})
    return got

"""Scaffolding shared by all checks: exploration bookkeeping, parallel
enumeration, watchdogs, evidence files, known findings and replay artefacts.

Vocabulary used in the evidence files
  states       distinct (deduplicated) points of the explored space that the
               oracle was evaluated on
  transitions  calls into the real code under /repo made while exploring
  traces       complete executions (operation sequences / runs / cases) of the
               reference model that were replayed on the real code and compared
"""
import collections
import contextlib
import io
import itertools
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
PKG = "reliabilityassessment"


class Hang(Exception):
    """The code under test did not come back in time."""


class Stop(BaseException):
    """Nothing more will be learnt from this chunk (raised after a hang)."""


class Violation(Exception):
    """Raised inside a case to report a property violation."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


@contextlib.contextmanager
def quiet():
    """Silence the code under test (it prints and warns a lot)."""
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            yield


@contextlib.contextmanager
def time_limit(seconds):
    def onalarm(signum, frame):
        raise Hang("no answer after %gs" % seconds)

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Report:
    """Mergeable record of what one exploration covered."""

    MAXV = 40

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.nviol = collections.Counter()
        self.outcomes = collections.Counter()
        self.parts = collections.Counter()
        self.skipped = 0
        self.slowest = 0.0

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def viol(self, key, msg, case):
        if sum(v["key"] == key for v in self.violations) < 3 and len(self.violations) < self.MAXV:
            self.violations.append({"key": key, "msg": msg, "case": case})
        self.nviol[key] += 1

    def outcome(self, o):
        self.outcomes[str(o)] += 1

    def merge(self, other):
        self.states += other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.skipped += other.skipped
        self.slowest = max(self.slowest, other.slowest)
        self.outcomes.update(other.outcomes)
        self.parts.update(other.parts)
        for s in other.samples:
            self.sample(s, 8)
        self.nviol.update(other.nviol)
        for v in other.violations:
            if sum(w["key"] == v["key"] for w in self.violations) < 3:
                self.violations.append(v)

    # -- running one case -------------------------------------------------
    def case(self, fn, case, limit=20.0, part=None):
        """Run fn(report, case); turn every escape into a violation."""
        if part:
            self.parts[part] += 1
        t0 = time.time()
        try:
            with quiet(), time_limit(limit):
                fn(self, case)
        except Violation as v:
            self.viol(v.key, v.msg, case)
        except HarnessError:
            raise
        except Hang as e:
            self.viol("hang", "%s" % e, case)
            raise Stop
        except SystemExit as e:
            self.viol("abort", "the code under test aborted (SystemExit %s)" % e, case)
        except MemoryError:
            self.viol("memory", "the code under test ran out of memory", case)
            raise Stop
        except Exception as e:  # the code under test blew up on a valid input
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO))]
            if not inrepo and not getattr(e, "from_repo", False):
                raise HarnessError("harness error on case %r: %s" % (case, traceback.format_exc()))
            f = inrepo[-1]
            self.viol(
                "exception",
                "%s: %s at %s:%d (%s)"
                % (type(e).__name__, e, os.path.basename(f.filename), f.lineno, f.name),
                case,
            )
        self.slowest = max(self.slowest, time.time() - t0)


class HarnessError(Exception):
    pass


def jsonable(o):
    try:
        import numpy as np

        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)


# -- parallel enumeration -------------------------------------------------
_SCRATCH = None


def scratch():
    """A private scratch directory (cwd of the code under test)."""
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="vmc-%d-" % os.getpid(), dir=os.environ.get("TMPDIR", "/tmp"))
    return _SCRATCH


def _worker(args):
    fn, i, chunk, base = args
    d = tempfile.mkdtemp(prefix="w-", dir=base)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        R = Report()
        try:
            fn(R, chunk)
        except Stop:
            pass
        except HarnessError as e:
            return i, ("err", str(e))
        except Hang as e:
            R.viol("hang", str(e), chunk if len(repr(chunk)) < 2000 else "chunk")
        except Exception:
            return i, ("err", "chunk %.300r: %s" % (chunk, traceback.format_exc()))
        return i, ("ok", R)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def pmap(R, fn, chunks, nproc=None, fresh=False):
    """Explore all chunks with fn(report, chunk) on all cores; merge in order.

    fresh: every chunk runs in a newly forked process."""
    nproc = nproc or NPROC
    chunks = list(chunks)
    base = scratch()
    jobs = [(fn, i, c, base) for i, c in enumerate(chunks)]
    done = {}
    try:
        if nproc == 1 or len(chunks) == 1:
            for i, r in map(_worker, jobs):
                done[i] = r
                _enough(r)
        else:
            ctx = mp.get_context("fork")
            with ctx.Pool(min(nproc, len(chunks)), maxtasksperchild=1 if fresh else None) as pool:
                for i, r in pool.imap_unordered(_worker, jobs, chunksize=1):
                    done[i] = r
                    _enough(r)
    finally:
        for i in sorted(done):
            if done[i][0] == "ok":
                R.merge(done[i][1])
    errors = [done[i][1] for i in sorted(done) if done[i][0] == "err"]
    if errors:
        if _FIRST:
            raise Stop
        raise HarnessError(errors[0])


# Once a violation is known the rest of the space need not be explored to the
# end: the exploration goes on for a while to collect others, then stops.
GRACE = float(os.environ.get("VERIF_GRACE", "60"))
KNOWN = {}
_FIRST = []


def _enough(r):
    if r[0] == "err":
        return
    new = [v["key"] for v in r[1].violations if v["key"] not in KNOWN]
    if new and not _FIRST:
        _FIRST.append(time.time())
    if "hang" in new or "memory" in new or (_FIRST and time.time() - _FIRST[0] >= GRACE):
        raise Stop


def chunked(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


# -- known findings ---------------------------------------------------------
def known_findings(prop):
    """Lines of known_findings.txt:
    finding: property=<id> key=<key> <what fails>
    fixed: property=<id> <commit> <what failed>     (suppresses nothing)
    """
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.strip().split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop:
                assert w[2].startswith("key=")
                out[w[2][4:]] = w[3]
    return out


def finish(prop, R, t0, bounds, assumptions=(), exhaustive=True):
    known = KNOWN
    new = []
    seen = collections.Counter()
    for v in R.violations:
        if v["key"] in known:
            seen[v["key"]] += 1
        else:
            new.append(v)
    ev = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": "model_checking",
        "coverage": {
            "states": R.states,
            "transitions": R.transitions,
            "traces_validated_against_impl": R.traces,
            "samples": jsonable(R.samples),
            "exhaustive": exhaustive,
            "bounds": bounds,
            "distinct_outcomes": len(R.outcomes),
            "outcomes": dict(R.outcomes.most_common(24)),
            "parts": dict(R.parts),
            "slowest_case_s": round(R.slowest, 2),
            "known_findings_seen": dict(seen),
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known:
        if seen[k]:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print(
        "%s: states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs"
        % (prop, R.states, R.transitions, R.traces, len(R.outcomes), time.time() - t0)
    )
    if not new:
        return 0
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    keys = []
    for v in new:
        if v["key"] not in keys:
            keys.append(v["key"])
    for k in keys[:6]:
        v = next(x for x in new if x["key"] == k)
        name = "%s-%s.json" % (prop, "".join(c if c.isalnum() else "_" for c in k)[:60])
        path = os.path.join(d, name)
        with open(path, "w") as f:
            json.dump(
                {"property": prop, "tier": TIER, "key": k, "msg": v["msg"], "case": jsonable(v["case"])},
                f,
                indent=1,
            )
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] (%d times) %s" % (k, R.nviol[k], v["msg"][:600]))
        print("  case: %.600s" % json.dumps(jsonable(v["case"])))
    return 1


# -- the code under test ---------------------------------------------------
def setup_imports():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch(), "pyc")
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    sys.path.insert(0, REPO)
    os.chdir(scratch())
    with quiet():
        import reliabilityassessment

    got = os.path.realpath(list(reliabilityassessment.__path__)[0])
    want = os.path.realpath(os.path.join(REPO, PKG))
    if got != want:
        raise HarnessError("imported %s, wanted %s" % (got, want))


def fn(module, name=None):
    """The real function `name` of reliabilityassessment.<module>."""
    import importlib

    m = importlib.import_module(PKG + "." + module)
    return getattr(m, name or module.rsplit(".", 1)[1])


def mod(module):
    import importlib

    return importlib.import_module(PKG + "." + module)


# -- spying on functions of the package --------------------------------------
class patched:
    """Replace a function of the package wherever the package refers to it.

    with patched({orig: replacement, ...}): ...
    """

    def __init__(self, table):
        self.table = table
        self.undo = []

    def __enter__(self):
        for name, m in list(sys.modules.items()):
            if name == PKG or name.startswith(PKG + "."):
                for attr, val in list(vars(m).items()):
                    for orig, new in self.table.items():
                        if val is orig:
                            self.undo.append((m, attr, val))
                            setattr(m, attr, new)
        return self

    def __exit__(self, *exc):
        for m, attr, val in self.undo:
            setattr(m, attr, val)


def binder(f):
    """args -> dict of parameter name -> value for calls of f."""
    import inspect

    sig = inspect.signature(f)

    def bind(a, k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        return b.arguments

    return bind

#!/opt/venv/bin/python
"""run.py <property id> : run one check.  See MANIFEST.json / DESIGN.md."""
import importlib
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"

from mc import core  # noqa: E402


def main():
    prop = sys.argv[1]
    t0 = time.time()
    names = [f[:-3] for f in sorted(os.listdir(os.path.join(core.VERIF, "checks"))) if f.startswith(prop.lower() + "_")]
    if len(names) != 1:
        print("no check for", prop)
        return 2
    pid = os.getpid()
    try:
        core.setup_imports()
        R = core.Report()
        core.KNOWN.update(core.known_findings(prop))
        whole = True
        try:
            m = importlib.import_module("checks." + names[0])
            bounds, assumptions = m.run(R)
        except core.Stop:  # only after a violation
            bounds, assumptions, whole = {"stopped": "early, after a violation"}, [], False
        except core.HarnessError:
            raise
        except Exception as e:
            # the code under test cannot even be imported / driven
            tb = traceback.extract_tb(e.__traceback__)
            if any(os.path.realpath(f.filename).startswith(os.path.realpath(core.REPO)) for f in tb):
                R.viol("exception", traceback.format_exc()[-600:], "driver")
                bounds, assumptions = {}, []
            else:
                raise
        return core.finish(prop, R, t0, bounds, assumptions, whole)
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if os.getpid() == pid:
            os.chdir("/")
            shutil.rmtree(core.scratch(), ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

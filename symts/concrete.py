"""Worker that runs harnesses on the real tslearn.  Requests and answers are JSON lines on stdin/stdout."""
import importlib
import json
import os
import sys
import traceback
import warnings


def main():
    warnings.filterwarnings("ignore")
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.path.insert(0, os.environ.get("TSLEARN_REPO", "/repo"))
    sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from symts.world import ConcWorld, Skip
    mods = {}
    for line in sys.stdin:
        r = json.loads(line)
        res = run_one(r, mods, ConcWorld, Skip)
        out.write(json.dumps(res) + "\n")
        out.flush()


def run_one(r, mods, ConcWorld, Skip):
    if r["check"] not in mods:
        mods[r["check"]] = importlib.import_module("checks." + r["check"])
    m = mods[r["check"]]
    case = m.CASES[r["case"]]
    import numpy as np
    np.random.seed(0)
    W = ConcWorld(r["inputs"])
    res = dict(id=r.get("id"))
    try:
        with np.errstate(all="ignore"):
            case.fn(W, **case.kw)
    except Skip as e:
        res["skip"] = str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        res["where"] = " < ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-4:]))
        last_ok = not any("/tslearn/" in f.filename for f in tb)
        res["harness_error"] = last_ok
    finally:
        W.close()
    res["failed"] = W.failed
    res["passed"] = W.passed
    return res


if __name__ == "__main__":
    main()

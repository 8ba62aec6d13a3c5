#!/opt/venv/bin/python
"""usage: check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--replay FILE] [-v]"""
import argparse
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, ROOT)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier")
    a.add_argument("--only")
    a.add_argument("--replay")
    a.add_argument("--repo")
    a.add_argument("-v", action="store_true")
    o = a.parse_args()
    from symts import runner
    if o.replay:
        r = runner.Replayer(o.repo or "/repo")
        bad = 0
        for c in json.load(open(o.replay))["cases"]:
            res = r.run(o.property, c["case_index"], c["inputs"])
            print(json.dumps(dict(case=c["case"], inputs=c["inputs"], result=res)))
            bad |= runner._is_fail(res)
        r.close()
        return int(bad)
    return runner.main(o.property, tier=o.tier, only=o.only, repo=o.repo, verbose=o.v)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    os._exit(code)

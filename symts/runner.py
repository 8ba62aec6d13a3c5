"""Runs one property's check: symbolic exploration of every case, then replay on the real library."""
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import subprocess
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class Replayer:
    """one concrete worker process"""

    def __init__(self, repo, threads=1):
        self.repo, self.threads = repo, threads
        self.p = None
        self.alt = None
        self.start()

    def start(self):
        env = dict(os.environ)
        env.update(KERAS_BACKEND="torch", CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1", NUMBA_BOUNDSCHECK="1",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS=str(self.threads),
                   PYTHONPATH=ROOT, TSLEARN_REPO=self.repo)
        self.p = subprocess.Popen([PY, "-m", "symts.concrete"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, cwd="/tmp", env=env)
        self.q = queue.Queue()
        threading.Thread(target=self._read, args=(self.p, self.q), daemon=True).start()

    @staticmethod
    def _read(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    def confirm(self, check, case, inputs, timeout=120, what=None):
        """replay of a counterexample: on one numba thread, then on several (the iterations of a parallel loop interleave)"""
        r = self.run(check, case, inputs, timeout)
        if _is_fail(r, what) or r.get("skip") or r.get("harness_error") or r.get("timeout"):
            return r
        if self.alt is None:
            self.alt = Replayer(self.repo, 4)
        r2 = self.alt.run(check, case, inputs, timeout)
        return r2 if _is_fail(r2, what) else r

    def run(self, check, case, inputs, timeout=120):
        for attempt in (0, 1):
            try:
                self.p.stdin.write(json.dumps(dict(check=check, case=case, inputs=inputs)) + "\n")
                self.p.stdin.flush()
                line = self.q.get(timeout=timeout)
            except queue.Empty:
                self.close()
                self.start()
                return dict(timeout=True, failed=[], passed=0)
            except (BrokenPipeError, OSError):
                line = None
            if line is not None:
                return json.loads(line)
            rc = self.p.poll()
            self.close()
            self.start()
        return dict(crash=True, failed=["process died (rc=%s)" % rc], passed=0)

    def close(self):
        if self.alt is not None:
            self.alt.close()
            self.alt = None
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


_G = {}


def _init(check, repo):
    os.environ["TSLEARN_REPO"] = repo
    os.environ["KERAS_BACKEND"] = "torch"
    import warnings
    warnings.filterwarnings("ignore")
    from symts import engine, loader, sym  # noqa
    from symts.shim import others
    m = importlib.import_module("checks." + check)
    if getattr(m, "TORCH", False):
        from symts.shim import torchshim
        torchshim.install()
    loader.install()
    for name in getattr(m, "PRELOAD", ["tslearn.metrics"]):
        importlib.import_module(name)
    loader.trace_functions()
    _G["m"] = m


def _run_case(args):
    idx, deadline, tier = args
    from symts import engine, loader, sym, world
    from symts.shim import npshim, others
    m = _G["m"]
    case = m.CASES[idx]
    o = dict(case.opts)
    over = o.pop("over_thorough", {})
    if tier == "thorough":
        o.update(over)
    budget = o.pop("budget", 120)
    if os.environ.get("SYMTS_SLACK"):
        budget *= float(os.environ["SYMTS_SLACK"])
    t = time.time()
    sym.reset_atoms()
    eng = engine.Engine(deadline=min(deadline, time.time() + budget), **o)
    npshim.HOOKS.clear()
    others.PAR["reverse"] = False
    W = world.SymWorld(eng)
    import numpy as np
    err = None

    def body():
        np.random.seed(0)
        npshim._glob._r.seed(0)
        npshim.HOOKS.clear()
        others.PAR["reverse"] = False
        try:
            case.fn(W, **case.kw)
        except world.Skip:
            raise engine.PathAbort
    try:
        eng.explore(body)
    except Exception:
        err = traceback.format_exc()
    return dict(idx=idx, name=case.name, st=eng.st.d(), complete=eng.complete, models=eng.models, violations=eng.violations,
                inconclusive=eng.inconclusive, exceptions=eng.exceptions, unsupported=eng.unsupported[:5], n_unsupported=len(eng.unsupported),
                err=err, wall=round(time.time() - t, 3), executed=sorted(loader.EXECUTED), loaded=dict(loader.LOADED))


def load_known(check):
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == check and d.get("status") == "known":
                    out.append(d)
    return out


def main(check, tier=None, only=None, repo=None, jobs=None, verbose=False):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = repo or os.environ.get("TSLEARN_REPO", "/repo")
    limit = 700 if tier == "quick" else 3400
    deadline = t0 + limit
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    jobs = jobs or max(2, min(8, os.cpu_count() or 4))
    reps = [Replayer(repo)]
    try:
        _init(check, repo)
        m = _G["m"]
        sel = [i for i, c in enumerate(m.CASES) if (tier == "thorough" or c.tier == "quick") and (only is None or only in c.name)]
        if len(sel) > 8:
            reps.append(Replayer(repo))
        order = sorted(sel, key=lambda i: -m.CASES[i].opts.get("weight", 1) if False else i)
        results = []
        ctx = mp.get_context("fork")
        replayed = []
        rq = queue.Queue()
        lock = threading.Lock()

        known = load_known(check)
        found = [None]

        def rep_loop(r):
            while True:
                item = rq.get()
                if item is None:
                    return
                kind, idx, what, inputs, to = item
                if found[0] and time.time() > found[0] + 30:
                    res = dict(skipped=True, failed=[], passed=0)
                elif kind == "validate" and time.time() > deadline - 60:
                    res = dict(skipped=True, failed=[], passed=0)
                elif kind == "validate":
                    res = r.run(check, idx, inputs, timeout=to)
                else:
                    res = r.confirm(check, idx, inputs, timeout=to, what=what)
                with lock:
                    replayed.append((kind, idx, what, inputs, res))
                    if not found[0] and _is_fail(res, what):
                        labels = list(res.get("failed") or []) or [res.get("exc") or ("timeout" if res.get("timeout") else "")]
                        if not any(_matches(k, m.CASES[idx].name, labels) for k in known):
                            found[0] = time.time()
        ths = [threading.Thread(target=rep_loop, args=(r,), daemon=True) for r in reps]
        for th in ths:
            th.start()
        with ctx.Pool(min(jobs, max(1, len(sel)))) as pool:
            pend = [(i, pool.apply_async(_run_case, ((i, deadline - 100, tier),))) for i in order]
            done = set()
            hard = deadline - 60
            while len(done) < len(pend):
                for i, a in pend:
                    if i in done:
                        continue
                    if a.ready():
                        done.add(i)
                        r = a.get()
                        results.append(r)
                        if verbose:
                            print("  %-60s paths %d obl %d/%d q %d %.1fs%s%s" % (r["name"][:90], r["st"]["paths"], r["st"]["discharged"], r["st"]["obligations"],
                                  r["st"]["queries"], r["wall"], "" if r["complete"] else " INCOMPLETE", " UNSUP" if r["unsupported"] else ""), flush=True)
                        pto = m.CASES[i].opts.get("replay_timeout", 100)
                        for v in r["violations"] + r["exceptions"] + r["inconclusive"]:
                            for k, mdl in enumerate(v["models"]):
                                rq.put(("candidate", i, v, mdl, 40 if v.get("kind") == "timeout" else pto))
                        if not m.CASES[i].kw.get("no_replay") and not getattr(m, "NO_REPLAY", False):
                            for mdl in r["models"]:
                                rq.put(("validate", i, None, mdl, pto))
                time.sleep(0.02)
                if time.time() > hard or (found[0] and time.time() > found[0] + 30):
                    break       # out of time, or a violation is already established
            if len(done) < len(pend):
                pool.terminate()
                for i, a in pend:
                    if i not in done:
                        results.append(dict(idx=i, name=m.CASES[i].name, st={}, complete=False, models=[], violations=[], inconclusive=[], exceptions=[],
                                            unsupported=[], n_unsupported=0, err=None, wall=0, executed=[], loaded={}))
        for _ in reps:
            rq.put(None)
        for th in ths:
            th.join(timeout=max(5, t0 + limit + 150 - time.time()))
        return report(check, tier, seed, m, results, replayed, t0, evd, verbose)
    finally:
        for r in reps:
            r.close()


def _is_fail(res, what=None):
    if res.get("timeout"):
        return what is not None and what.get("kind") == "timeout"
    if res.get("skip"):
        return False
    if res.get("harness_error"):
        return False
    return bool(res.get("failed")) or bool(res.get("exc"))


def _matches(k, case_name, labels):
    import re
    if k.get("case") and not re.search(k["case"], case_name):
        return False
    if k.get("label") and not all(re.search(k["label"], x) for x in labels):
        return False
    return True


def report(check, tier, seed, m, results, replayed, t0, evd, verbose):
    known = load_known(check)
    viol, known_hit, spurious, problems, notes = [], {}, [], [], []
    validated = 0
    skipped = 0
    conf = {}
    for kind, idx, what, inputs, res in replayed:
        case = m.CASES[idx]
        labels = list(res.get("failed") or []) or [res.get("exc") or ("timeout" if res.get("timeout") else "")]
        bad = _is_fail(res, what)
        if kind == "validate":
            if res.get("harness_error"):
                problems.append("harness error on replay of %s: %s %s" % (case.name, res.get("exc"), res.get("where")))
            elif res.get("timeout"):
                notes.append("validation replay of %s timed out" % case.name)
            elif not bad and not res.get("skip"):
                validated += 1
        if kind == "candidate":
            key = (idx, what["label"], what.get("formula"))
            conf.setdefault(key, [what, False, []])
            conf[key][1] = conf[key][1] or bad
            conf[key][2].append(res)
        if bad:
            hit = None
            for k in known:
                if _matches(k, case.name, labels):
                    hit = k
            if hit:
                known_hit[json.dumps(hit)] = hit
            else:
                viol.append(dict(case=case.name, case_index=idx, inputs=inputs, labels=labels, where=res.get("where")))
    undecided = []
    degraded = []
    tot = {}
    execd = set()
    loaded = {}
    for r in results:
        for k, v in r["st"].items():
            tot[k] = tot.get(k, 0) + v
        execd.update(map(tuple, r["executed"]))
        loaded.update(r["loaded"])
        if r["err"]:
            problems.append("engine error in %s: %s" % (r["name"], r["err"]))
        for v in r["inconclusive"]:
            c = conf.get((r["idx"], v["label"], v.get("formula")))
            if not (c and c[1]):
                undecided.append("%s: %s" % (r["name"], v["label"]))
        for v in r["violations"]:
            c = conf.get((r["idx"], v["label"], v.get("formula")))
            if not (c and c[1]):
                spurious.append("%s: %s  models=%s  replay=%s" % (r["name"], v["label"], json.dumps(v["models"][:1]), json.dumps(c[2][:1] if c else None)))
        for v in r["exceptions"]:
            c = conf.get((r["idx"], v["label"], v.get("formula")))
            if not (c and c[1]):
                degraded.append("%s: %s (%s)" % (r["name"], v["label"], v["formula"]))
        for u in r["unsupported"]:
            degraded.append("%s: %s" % (r["name"], u))
        if not r["complete"]:
            notes.append("exploration of %s stopped at its budget" % r["name"])
        if not r["err"] and r["st"].get("obligations", 0) == 0 and not r["unsupported"] and not r["exceptions"] and r["complete"]:
            problems.append("vacuous case %s" % r["name"])
    # verdict
    code = 0
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (check, k["what"]))
    if viol:
        path = os.path.join(evd, "replay-%s.json" % check)
        with open(path, "w") as f:
            json.dump(dict(check=check, repo_command="python3 /verif/check.py %s --replay %s" % (check, path), cases=viol[:10]), f, indent=1)
        for v in viol[:5]:
            print("  violated: %s | %s | inputs %s %s" % (v["case"], "; ".join(map(str, v["labels"][:3])), json.dumps(v["inputs"])[:300], v.get("where") or ""))
        print("VIOLATION property=%s replay=%s" % (check, path))
        code = 1
    elif problems or (spurious and os.environ.get("SYMTS_STRICT")) or (results and tot.get("discharged", 0) == 0):
        code = 2
    for x in problems[:8]:
        print("ERROR:", x)
    for x in spurious[:8]:
        print("NOT-REPRODUCED:", x)
    for x in undecided[:8]:
        print("UNDECIDED:", x)
    for x in degraded[:8]:
        print("NOT-ENCODED:", x)
    for x in notes[:8]:
        print("NOTE:", x)
    comp = sum(1 for r in results if r["complete"])
    samples = [dict(case=m.CASES[i].name, inputs=inp, result="real tslearn agrees (%d assertions)" % res.get("passed", 0))
               for kind, i, w, inp, res in replayed if kind == "validate" and res.get("passed")][:4]
    ev = dict(property=check, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot.get("paths", 0), transitions=tot.get("decisions", 0), traces_validated_against_impl=validated,
                            samples=samples or [dict(case=r["name"]) for r in results[:2]],
                            cases=len(results), cases_complete=comp,
                            bounds=[r["name"] for r in results][:400],
                            functions_encoded=["%s:%s" % x for x in sorted(execd)],
                            sources={k: v[1] for k, v in sorted(loaded.items())},
                            queries=tot.get("queries", 0), queries_unknown=tot.get("unknown", 0), solver_s=round(tot.get("solver_s", 0), 2),
                            obligations=tot.get("obligations", 0), discharged=tot.get("discharged", 0),
                            undecided=(undecided + ["not reproduced on the real code: " + x for x in spurious])[:40], not_encoded=degraded[:40], notes=notes[:40],
                            known_findings=[k["what"] for k in known_hit.values()],
                            exhaustive=bool(comp == len(results) and not undecided and not spurious and not degraded),
                            explanation="states = feasible execution paths of the real source, transitions = solver-decided branchings; each path's "
                                        "obligations are discharged by z3 for all real inputs of the shapes listed in bounds"),
              assumptions=list(getattr(m, "ASSUMPTIONS", [])) + [
                  "floats are exact reals; replay on the real code uses a relative tolerance of 1e-6",
                  "numpy/numba/scipy/joblib/scikit-learn routines are modelled by their contracts (symts/shim)",
                  "nothing is claimed outside the shapes and configurations listed in bounds"],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(evd, check + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases (%d complete), %d paths, %d/%d obligations discharged, %d queries %.1fs solver, %d traces replayed, %.1fs -> exit %d"
          % (check, tier, len(results), comp, tot.get("paths", 0), tot.get("discharged", 0), tot.get("obligations", 0), tot.get("queries", 0),
             tot.get("solver_s", 0), validated, time.time() - t0, code))
    return code

"""plant one bug: seed.py ID PROPERTY FILE 'old' 'new' DEMO.py 'needs' 'breaks' [FILE2 old2 new2 ...]
writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} from a scratch copy of /repo and runs the demonstration on both trees"""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path
sid, prop, rel, old, new, demo, needs, breaks = sys.argv[1:9]
edits = [(rel, old, new)] + [tuple(sys.argv[9 + 3 * i:12 + 3 * i]) for i in range((len(sys.argv) - 9) // 3)]
tmp = Path(tempfile.mkdtemp(prefix="seed"))
try:
    r = tmp / "repo"
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", str(r)], check=True)
    for f, o, n in edits:
        s = (r / f).read_text()
        assert s.count(o) == 1, ("occurrences", s.count(o), o)
        (r / f).write_text(s.replace(o, n))
    d = subprocess.run(["git", "-C", str(r), "diff"], capture_output=True, text=True, check=True).stdout
    out = Path(__file__).resolve().parent.parent / "seeded" / sid
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(d)
    if demo != "-":
        shutil.copy(demo, out / "demo.py")
    (out / "demo.sh").write_text('#!/bin/bash\n# run in /repo\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" KERAS_BACKEND=torch CUDA_VISIBLE_DEVICES=\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\nexec $PY -W ignore "$D/demo.py"\n')
    (out / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    a = subprocess.run(["bash", str(out / "demo.sh")], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", str(out / "demo.sh")], cwd=str(r), capture_output=True, text=True)
    print(sid, "clean", a.returncode, "patched", b.returncode, (b.stderr.strip().splitlines() or [""])[-1][:200], (a.stderr.strip()[-300:] if a.returncode else ""))
finally:
    shutil.rmtree(tmp)

"""Runs each seeded bug's own check against a scratch copy of /repo with the bug applied: catch.py [ids...]."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent


def one(d):
    p = json.loads((d / "meta.json").read_text())["property"]
    t = Path(tempfile.mkdtemp(prefix="catch", dir="/tmp"))
    try:
        shutil.copytree("/repo/src", t / "src", ignore=shutil.ignore_patterns("__pycache__"))
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory", str(t), str(d / "patch.diff")], check=True, cwd=t)
        env = dict(os.environ, TV_REPO=str(t), TV_EVIDENCE=str(t / "ev"), PYTHONWARNINGS="ignore")
        r = subprocess.run([str(V / "check"), p, os.environ.get("TIER", "quick")], env=env, capture_output=True, text=True, timeout=900)
        hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
        first = [x for x in r.stdout.splitlines() if not x.startswith("VIOLATION")][:1]
        return f"{d.name} {p} {'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode} {(first or [''])[0][:140]}"
    finally:
        shutil.rmtree(t, ignore_errors=True)


ids = sys.argv[1:]
ds = [d for d in sorted((V / "seeded").iterdir()) if d.is_dir() and (not ids or d.name in ids)]
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for line in ex.map(one, ds):
        print(line, flush=True)

"""Turns planned bugs (a Python file defining BUGS) into /verif/seeded/<id>/, keeping those that qualify.

Each entry: id, prop, edits [(file under src/torchrir, old, new)], demo (Python source), needs, breaks.
A bug is kept when it applies to lines of the base commit, passes the stable tests and its demo tells it apart.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

SEED = Path(__file__).resolve().parent.parent / "seeded"
BASE = "2a4fa17"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = """#!/bin/bash
# cwd: the repository
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def tests(d):
    x = d / "junit.xml"
    env = dict(os.environ, PYTHONPATH=str(d / "src"), MPLBACKEND="Agg")
    sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml={x} tests", d, env=env)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).iter("testcase"):
        if not any(ch.tag in ("failure", "error", "skipped") for ch in c):
            ok.add(f"{c.get('classname')}::{c.get('name')}")
    x.unlink()
    return sorted(STABLE - ok)


def main(f, only):
    for b in runpy.run_path(f)["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = Path(tempfile.mkdtemp(prefix="plant", dir="/tmp"))
        r = d / "repo"
        try:
            sh(f"git worktree prune; git clone -q /repo {r}", "/repo")
            bad = None
            for path, old, new in b["edits"]:
                p = r / "src/torchrir" / path
                s = p.read_text()
                if s.count(old) < 1:
                    bad = f"text not found in {path}: {old[:50]!r}"
                    break
                p.write_text(s.replace(old, new, 1))
            if bad:
                print(b["id"], bad)
                continue
            diff = sh("git diff", r).stdout
            mine = []
            for path, old, new in b["edits"]:
                removed = [ln for ln in sh(f"git diff -U0 src/torchrir/{path}", r).stdout.splitlines() if ln.startswith("-") and not ln.startswith("---")]
                base = sh(f"git show {BASE}:src/torchrir/{path}", r).stdout.splitlines()
                mine += [ln for ln in removed if ln[1:] not in base]
            if mine:
                print(b["id"], "touches lines that are not original:", mine[:3])
                continue
            out = SEED / b["id"]
            shutil.rmtree(out, ignore_errors=True)
            out.mkdir(parents=True)
            (out / "patch.diff").write_text(diff)
            (out / "demo.py").write_text(b["demo"].lstrip("\n"))
            for extra in b.get("files", ()):
                shutil.copy(extra, out)
            (out / "demo.sh").write_text(SH)
            (out / "demo.sh").chmod(0o755)
            (out / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
            t = sh(f"bash {out}/demo.sh", r)
            lost = tests(r)
            u = sh("git checkout -q -- . && bash %s/demo.sh" % out, r)
            good = t.returncode != 0 and u.returncode == 0 and not lost
            print(b["id"], "KEPT" if good else "DROPPED", "patched rc", t.returncode, "clean rc", u.returncode, "lost", lost[:3],
                  "" if good else (u.stderr[-300:] or t.stdout[-200:]), "|", t.stderr.strip().splitlines()[-1:] )
            if not good:
                shutil.rmtree(out)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main(sys.argv[1], sys.argv[2:])

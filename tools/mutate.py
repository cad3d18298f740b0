"""Systematic small changes to the library, each run against the checks that could notice.

usage: mutate.py OUT.jsonl [N per file] [files ...]   (env JOBS, SEED)
A change nobody notices is either without effect on behaviour or a gap.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path("/repo")
MAP = {
    "signal/static.py": "C07", "signal/dynamic.py": "C08 C09", "signal/internal.py": "C07 C08 C09",
    "sim/ism/api.py": "C05 C01 C02 C06 C04 C03", "sim/ism/validate.py": "C05 C01 C04", "sim/ism/prepare.py": "C01 C05 C02 C04 C06",
    "sim/ism/images.py": "C01 C02", "sim/ism/contributions.py": "C01 C04 C02", "sim/ism/accumulate.py": "C01 C02 C03",
    "sim/ism/helpers.py": "C01 C02 C03 C05", "sim/ism/diffuse.py": "C06", "sim/ism/hpf.py": "C06 C05",
    "sim/simulators.py": "C05 C03", "config.py": "C05", "sim/directivity.py": "C04", "util/orientation.py": "C04 C19",
    "util/acoustics.py": "C25", "util/tensor.py": "C10 C24 C05", "util/device.py": "C24", "util/cli.py": "C28",
    "geometry/sampling.py": "C23", "geometry/arrays.py": "C22", "geometry/trajectories.py": "C23",
    "datasets/base.py": "C13", "datasets/attribution.py": "C19", "datasets/_archive.py": "C11 C12", "datasets/collate.py": "C15",
    "datasets/librispeech.py": "C13 C11 C12", "datasets/cmu_arctic.py": "C13 C11 C12", "datasets/utils.py": "C14",
    "datasets/dynamic_cmu_arctic.py": "C16 C17 C28", "models/room.py": "C10", "models/scene.py": "C10", "models/results.py": "C05",
    "viz/animation.py": "C27 C21", "viz/scene.py": "C27 C21", "viz/io.py": "C21", "viz/utils.py": "C27 C21",
    "io/audio.py": "C18 C26", "io/outputs.py": "C19 C18", "io/__init__.py": "C26 C18", "io/metadata.py": "C19", "logging.py": "C20",
    "__init__.py": "C26",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*"}


def mutants(src):
    """(start, end, new text) edits of the source, by character offset."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for line in lines:
        offs.append(offs[-1] + len(line.encode()))
    data = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0])
            skip.add(n.body[0].value)
        if isinstance(n, ast.Call):
            t = text(n.func)
            if t.startswith(("logger.", "logging.")) or t.endswith("Error") or t == "warnings.warn" or t.startswith("parser.add"):
                for m in ast.walk(n):
                    skip.add(m)
        if isinstance(n, (ast.AnnAssign,)):
            for m in ast.walk(n.annotation):
                skip.add(m)
        if isinstance(n, ast.arg) and n.annotation:
            for m in ast.walk(n.annotation):
                skip.add(m)
        if isinstance(n, ast.FunctionDef) and n.returns:
            for m in ast.walk(n.returns):
                skip.add(m)
    out = []
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a = span(n.left)[1]
            b = span(n.comparators[0])[0]
            mid = data[a:b].decode()
            if "(" not in mid and ")" not in mid:
                out.append((a, b, f" {CMP[type(n.ops[0])]} "))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = data[a:b].decode()
            if "(" not in mid and ")" not in mid:
                out.append((a, b, f" {BIN[type(n.op)]} "))
        elif isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                a, b = span(x)[1], span(y)[0]
                mid = data[a:b].decode()
                if mid.strip() in ("and", "or"):
                    out.append((a, b, mid.replace("and", "OR").replace("or", "and").replace("OR", "or")))
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            if isinstance(n.value, bool):
                out.append((a, b, str(not n.value)))
            elif isinstance(n.value, int):
                out.append((a, b, str(n.value + 1)))
                if n.value > 0:
                    out.append((a, b, str(n.value - 1)))
            elif isinstance(n.value, float):
                out.append((a, b, repr(n.value * 1.3 + (.1 if n.value == 0 else 0))))
            elif isinstance(n.value, str) and n.value and len(n.value) < 14 and "\n" not in n.value:
                out.append((a, b, repr(n.value + "x")))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, ast.Compare):
            a, b = span(n.test)
            out.append((a, b, f"(not ({text(n.test)}))"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = span(n)
            out.append((a, b, f"({text(n.operand)})"))
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and n.lineno == n.end_lineno:
            a, b = span(n)
            out.append((a, b, "pass"))
        elif isinstance(n, ast.Expr):
            a, b = span(n)
            out.append((a, b, "pass"))
        elif isinstance(n, ast.Raise):
            a, b = span(n)
            out.append((a, b, "pass"))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = span(k)
                    tail = data[b:]
                    m = len(tail) - len(tail.lstrip())
                    if tail[m:m + 1] == b",":
                        out.append((a, b + m + 1, ""))
        elif isinstance(n, ast.Continue):
            a, b = span(n)
            out.append((a, b, "pass"))
        elif isinstance(n, ast.Break):
            a, b = span(n)
            out.append((a, b, "continue"))
    ok = []
    for a, b, new in out:
        s = (data[:a] + new.encode() + data[b:])
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        ok.append((a, b, new, data[:a].decode().count("\n") + 1, s))
    return ok


def run(job):
    f, (a, b, new, line, s), old, checks = job
    d = Path(tempfile.mkdtemp(dir="/tmp/mu"))
    shutil.copytree(REPO / "src", d / "src")
    (d / "src/torchrir" / f).write_bytes(s)
    res, first = {}, ""
    try:
        for c in checks:
            try:
                p = subprocess.run(["/verif/check", c, "quick"], capture_output=True, text=True, timeout=400,
                                   env=dict(os.environ, TV_REPO=str(d), TV_EVIDENCE=str(d / "ev"), PYTHONWARNINGS="ignore"))
                rc = p.returncode
                first = (p.stdout.splitlines() or [""])[0][:160] if rc == 1 else (p.stderr.splitlines() or [""])[-1][:160]
            except subprocess.TimeoutExpired:
                rc, first = "timeout", ""
            res[c] = rc
            if rc == 1:
                break
    finally:
        shutil.rmtree(d)
    return dict(file=f, line=line, old=old, new=new, res=res, caught=1 in res.values(), first=first)


def main():
    out = Path(sys.argv[1])
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 20
    files = sys.argv[3:] or list(MAP)
    rng = random.Random(int(os.environ.get("SEED", 1)))
    jobs = []
    for f in files:
        src = (REPO / "src/torchrir" / f).read_text()
        ms = mutants(src)
        rng.shuffle(ms)
        for m in ms[:n]:
            jobs.append((f, m, src.encode()[m[0]:m[1]].decode(), MAP[f].split()))
    print(len(jobs), "changes")
    with ThreadPoolExecutor(int(os.environ.get("JOBS", 3))) as ex, out.open("a") as g:
        for r in ex.map(run, jobs):
            g.write(json.dumps(r) + "\n")
            g.flush()


if __name__ == "__main__":
    main()

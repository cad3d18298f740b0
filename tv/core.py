"""Shared machinery: TLC runs, replay bookkeeping, evidence, verdicts.

Every check is a Python module in tv/checks with a function run(ctx).  The
expected behaviour always comes from a TLA+ module in /verif/spec (TLC computes
it, or TLC judges a recorded trace); the Python side only drives the real code
and compares.
"""

from __future__ import annotations

import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("TV_REPO", "/repo"))
EVIDENCE = Path(os.environ.get("TV_EVIDENCE", str(VERIF / "evidence")))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = VERIF / "known_findings.txt"


class TlcError(RuntimeError):
    """TLC itself could not answer (not a property violation of the code)."""


class TlcResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.records = []
        self.out = ""
        self.violated = None


class Violation(Exception):
    pass


def _unquote(line: str) -> str:
    body = line[1:-1]
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c == "\\" and i + 1 < len(body):
            n = body[i + 1]
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(n, n))
            i += 2
        else:
            out.append(c)
            i += 1
    return "".join(out)


class Ctx:
    def __init__(self, prop: str, tier: str, seed: int):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.rng = random.Random(f"{seed}-{prop}")
        self.t0 = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"tv_{prop}_"))
        os.chmod(self.scratch, 0o755)
        self.states = 0
        self.transitions = 0
        self.tlc_runs = []
        self.traces = 0
        self.comparisons = 0
        self.samples = []
        self.cover = {}
        self.violations = []
        self.known_hit = {}
        self.assumptions = []
        self.level = "model_checking"
        self.known = load_known(prop)
        self._nrep = 0

    # ---- budget ---------------------------------------------------------
    def elapsed(self) -> float:
        return time.time() - self.t0

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- TLC ------------------------------------------------------------
    def tlc(
        self,
        module: str,
        *,
        constants: dict | None = None,
        cases=None,
        spec: str = "Spec",
        invariants=(),
        properties=(),
        constraints=(),
        postcondition: str | None = None,
        workers: int | None = None,
        timeout: float = 600,
        expect_ok: bool = True,
        deadlock: bool = False,
        label: str | None = None,
        env: dict | None = None,
        extra_cfg: str = "",
    ) -> TlcResult:
        """Run TLC on /verif/spec/<module>.tla with a generated cfg.

        `cases` (a list) is written as one ndjson file, whose path the spec
        reads from IOEnv.CASES.  Records printed by the spec as
        PrintT("@@" \\o ToJson(r)) come back in result.records.
        """
        judge = module.endswith("Trace") or module in ("DownloadEval", "PlacesEval", "LoaderEval")
        wd = Path(tempfile.mkdtemp(prefix="tlc_", dir=self.scratch))
        cfg = [f"SPECIFICATION {spec}"]
        for k, v in (constants or {}).items():
            cfg.append(f"CONSTANT {k} = {v}" if not str(v).startswith("<-") else f"CONSTANT {k} {v}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        for c in constraints:
            cfg.append(f"CONSTRAINT {c}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        if extra_cfg:
            cfg.append(extra_cfg)
        cfgp = wd / f"{module}.cfg"
        cfgp.write_text("\n".join(cfg) + "\n")
        e = dict(os.environ)
        if cases is not None:
            cp = wd / "cases.ndjson"
            with cp.open("w") as f:
                for c in cases:
                    f.write(json.dumps(c) + "\n")
            e["CASES"] = str(cp)
        for k, v in (env or {}).items():
            e[k] = str(v)
        if workers is None:
            workers = 1
        cmd = [
            "java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g",
            f"-DTLA-Library={SPEC}", "-cp", TLA_CP, "tlc2.TLC",
            "-config", str(cfgp), "-metadir", str(wd / "meta"),
            "-workers", str(workers), "-noGenerateSpecTE",
            str(SPEC / f"{module}.tla"),
        ]
        t = time.time()
        outp = wd / "out.txt"
        with outp.open("w") as fo:
            try:
                rc = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e,
                                    cwd=wd, timeout=timeout).returncode
            except subprocess.TimeoutExpired as exc:
                raise TlcError(f"TLC timed out on {module}") from exc
        out = outp.read_text(errors="replace")
        res = TlcResult()
        keep = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                res.records.append(json.loads(_unquote(line)[2:]))
            else:
                keep.append(line)
        res.out = "\n".join(keep)
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states", res.out, re.M)
        if m:
            res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
        mv = re.search(r"(Invariant (\S+) is violated|Action property (\S+) is violated"
                       r"|Temporal properties were violated|Deadlock reached"
                       r"|The postcondition|Postcondition \S+ is violated"
                       r"|The first argument of Assert evaluated to FALSE)", res.out)
        if mv:
            res.violated = mv.group(0)
        ok = rc == 0 and "Model checking completed. No error has been found." in res.out
        if not ok and (expect_ok or not res.violated):
            shutil.copy(outp, "/tmp/tv_last_tlc_error.txt") if os.environ.get("TV_DEBUG") else None
            if cases is not None and judge and rc in (75, 76):        # the evaluator, not the environment: ill-typed data
                err = re.search(r"^Error: .*(?:\n.+)*", res.out, re.M)
                self.fail(f"what was recorded is not made of values {module} knows: "
                          + " ".join((err.group(0) if err else res.out[-300:]).split())[:300], dict(cases=cases[:50]))
            raise TlcError(f"TLC failed on {module} (rc={rc}):\n" + res.out[-4000:])
        self.states += res.distinct
        self.transitions += res.states
        self.tlc_runs.append({
            "spec": module, "label": label or module, "states_generated": res.states,
            "distinct_states": res.distinct, "records": len(res.records),
            "invariants": list(invariants), "wall_s": round(time.time() - t, 2),
        })
        shutil.rmtree(wd, ignore_errors=True)
        return res

    # ---- verdicts ---------------------------------------------------------
    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def count(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def trace(self, n=1):
        self.traces += n

    def fail(self, what: str, case=None, key: str | None = None):
        """Report a disagreement between the code and the specification.

        `key` identifies the failing input/call site; if it is listed in
        known_findings.txt the disagreement is printed as KNOWN-FINDING.
        """
        if key is not None and key in self.known:
            self.known_hit.setdefault(key, what)
            return
        self._nrep += 1
        if self._nrep <= 20:
            EVIDENCE.mkdir(parents=True, exist_ok=True)
            rd = EVIDENCE / "replays"
            rd.mkdir(parents=True, exist_ok=True)
            p = rd / f"{self.prop}-{self._nrep}.json"
            p.write_text(json.dumps(
                {"property": self.prop, "seed": self.seed, "tier": self.tier,
                 "what": what, "case": case,
                 "rerun": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} /verif/check {self.prop} {self.tier}"},
                indent=1, default=repr))
            print(f"VIOLATION property={self.prop} replay={p}", flush=True)
            print(f"  {what}"[:1500], flush=True)
        self.violations.append(what)

    def enough(self) -> bool:
        return len(self.violations) >= 12

    # ---- end ---------------------------------------------------------------
    def finish(self) -> int:
        for key, what in self.known.items():
            if key in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {what}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["(no sample recorded)"],
            "comparisons": self.comparisons,
            "tlc_runs": self.tlc_runs,
        }
        cov.update(self.cover)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        EVIDENCE.mkdir(parents=True, exist_ok=True)
        (EVIDENCE / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            print(f"{self.prop}: {len(self.violations)} violation(s), {self.elapsed():.1f}s")
            return 1
        print(f"{self.prop}: held on everything explored "
              f"({self.states} model states, {self.traces} traces replayed/validated, "
              f"{self.comparisons} comparisons, {self.elapsed():.1f}s)")
        return 0


def load_known(prop: str) -> dict:
    """known_findings.txt: lines `finding: property=<id> key=<key> <what>`."""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Stuck(BaseException):
    """A call into the real code that does not come back."""


STUCK_AFTER = 400.0      # seconds; the longest call of any check takes a few
OWNER = os.getpid()


def _stuck(*_):
    raise Stuck() if os.getpid() == OWNER else TimeoutError(f"no answer within {STUCK_AFTER:g} s")


def call(fn, *a, **k):
    """Run the real code: ('ok', value) or ('err', exception)."""
    timed = threading.current_thread() is threading.main_thread() and signal.getsignal(signal.SIGALRM) in (signal.SIG_DFL, _stuck) \
        and signal.getitimer(signal.ITIMER_REAL)[0] == 0
    if timed:
        signal.signal(signal.SIGALRM, _stuck)
        signal.setitimer(signal.ITIMER_REAL, STUCK_AFTER)
    try:
        return "ok", fn(*a, **k)
    except Exception as exc:  # noqa: BLE001 - the outcome is what is judged
        return "err", exc
    finally:
        if timed:
            signal.setitimer(signal.ITIMER_REAL, 0)


def blame(exc, scratch) -> str:
    """What an error that escaped a check says about the code under test, if anything."""
    if isinstance(exc, (MemoryError, TlcError)):
        return ""
    if isinstance(exc, Stuck):
        return f"a call did not come back within {STUCK_AFTER:g} s"
    src = str(REPO / "src") + os.sep
    e = exc
    while e is not None:
        frames = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(src) for f in frames) or src in (str(e) if type(e).__name__ == "RemoteTraceback" else ""):
            return f"the code failed where it must not: {exc!r}"
        e = e.__cause__
    if isinstance(exc, AttributeError) and type(getattr(exc, "obj", None)).__module__.split(".")[0] == "torchrir":
        return f"what the code returned lacks a documented field: {exc}"
    if isinstance(exc, FileNotFoundError) and str(exc.filename or "").startswith(str(scratch)):
        return f"a file the code should have written is not there: {exc.filename}"
    return ""


def setup_import():
    """Import torchrir from REPO's current working tree."""
    src = str(REPO / "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    import torchrir  # noqa: F401
    p = Path(torchrir.__file__).resolve()
    if not str(p).startswith(str(Path(src).resolve())):
        raise RuntimeError(f"torchrir imported from {p}, not {src}")


def main(argv) -> int:
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    ctx = Ctx(prop, tier, seed)
    os.environ["MPLCONFIGDIR"] = str(ctx.scratch / "mpl")
    (ctx.scratch / "mpl").mkdir()
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["HOME"] = str(ctx.scratch)
    # stale replays of an earlier run of this check
    for p in (EVIDENCE / "replays").glob(f"{prop}-*.json") if (EVIDENCE / "replays").exists() else []:
        p.unlink()
    try:
        setup_import()
        mod = importlib.import_module(f"tv.checks.{prop.lower()}")
        mod.run(ctx)
        return ctx.finish()
    except TlcError as exc:
        print(f"CHECK-ERROR {prop}: {exc}", file=sys.stderr)
        rc = ctx.finish() if ctx.violations else 2
        return rc
    except (Exception, Stuck) as exc:
        traceback.print_exc()
        why = blame(exc, ctx.scratch)
        if why:
            ctx.fail(why, dict(error=traceback.format_exc()[-4000:]))
        rc = ctx.finish() if ctx.violations else 2
        return rc
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)

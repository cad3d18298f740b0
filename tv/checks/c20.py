"""C20: logging setup (Logging.tla): histories run in children, recorded, judged by TLC."""

from __future__ import annotations

import io
import itertools
import json
import logging
import os
import re
import sys

NODES = ["torchrir", "torchrir.a", "torchrir.a.b", "torchrirx", "other"]
PROBES = [5, 10, 20, 25, 30, 40, 50]
LEVELS = {10: ["DEBUG", 10, "debug"], 20: ["INFO", 20, "Info"], 30: ["WARNING", "WARN", 30, "warn"], 40: ["ERROR", 40],
          50: ["CRITICAL", "FATAL", 50], 25: [25], 5: [5], 0: ["NOTSET", 0]}
BADS = [("TRACE", ValueError), ("", ValueError), ("1O", ValueError), ("INFO ", ValueError), (None, TypeError), (10.0, TypeError),
        (b"INFO", TypeError), (["INFO"], TypeError)]
GETS = [[], ["torchrir"], ["torchrir", "a"], ["a"], ["a", "b"], ["torchrirx"], ["torchrirx", "y"], ["Torchrir"], ["torchrir_x"],
        ["examples", "static"], ["torchrir", "torchrir"], ["x", "torchrir"]]


def history(rng, k):
    steps = []
    for _ in range(k):
        r = rng.random()
        if r < .2:
            steps.append(dict(op="get", segs=rng.choice(GETS)))
        elif r < .32 and any(q["op"] == "setup" and q["valid"] for q in steps):
            n = rng.choice([q["node"] for q in steps if q["op"] == "setup" and q["valid"]])
            if not any(q["op"] == "attach" and q["node"] == n for q in steps):
                steps.append(dict(op="attach", node=n, level=rng.choice([0, 5, 25, 40]), kind=rng.randrange(3)))
        else:
            n = rng.choice(["torchrir", "torchrir", "torchrir", "torchrir.a", "torchrir.a.b", "torchrirx", "other"])
            if r < .42:
                b = rng.randrange(len(BADS))
                steps.append(dict(op="setup", node=n, bad=b, level=0, prop=rng.random() < .5, valid=False))
            else:
                lv = rng.choice(list(LEVELS))
                steps.append(dict(op="setup", node=n, level=lv, how=rng.randrange(4), prop=rng.random() < .5, valid=True,
                                  date=rng.random() < .3, replace=rng.random() < .4))
    return steps


def replay(steps):
    """In a child: what happened at each step."""
    from torchrir.logging import LoggingConfig, get_logger, setup_logging

    err = io.StringIO()
    sys.stderr = err
    root = []

    class Root(logging.Handler):
        def emit(self, record):
            root.append(record)
            err.write(f"F0|{record.levelname}|{record.name}|{record.getMessage()}\n")

    class Guest(logging.Handler):               # what a program may attach to a logger
        def emit(self, record):
            err.write(self.format(record) + "\n")

    rt = logging.getLogger()
    for h in list(rt.handlers):
        rt.removeHandler(h)
    rt.addHandler(Root())
    rt.setLevel(30)
    logging.disable(logging.NOTSET)
    out = []
    for k, s in enumerate(steps, 1):
        s = dict(s)
        if s["op"] == "get":
            name = ".".join(s["segs"])
            lg = get_logger(name) if name else (get_logger() if k % 2 else get_logger(None))
            s["got"] = lg.name.split(".")
            if lg is not logging.getLogger(lg.name):
                s["got"] = ["not the logger of its name"]
        elif s["op"] == "attach":
            h = logging.StreamHandler(err) if s["kind"] else Guest()
            h.setLevel(s["level"])
            h.setFormatter(logging.Formatter("F-2|%(levelname)s|%(name)s|%(message)s"))
            logging.getLogger(s["node"]).addHandler(h)
        else:
            fmt = f"F{k}|%(levelname)s|%(name)s|%(message)s"
            kw = dict(datefmt=f"D{k}") if s.get("date") else {}
            if kw:
                fmt = f"F{k}|%(levelname)s|%(name)s|%(message)s|%(asctime)s"
            lv = LEVELS[s["level"]][s["how"] % len(LEVELS[s["level"]])] if s["valid"] else BADS[s["bad"]][0]
            if s.get("replace"):
                base = LoggingConfig(level="ERROR", format="OLD %(message)s")
                cfg = base.replace(level=lv, format=fmt, propagate=s["prop"], **kw)
                if base != LoggingConfig(level="ERROR", format="OLD %(message)s"):
                    s["note"] = "replace changed its configuration"
            else:
                cfg = LoggingConfig(level=lv, format=fmt, propagate=s["prop"], **kw)
            try:
                lg = setup_logging(cfg, name=s["node"]) if s["node"] != "torchrir" or k % 2 else setup_logging(cfg)
                s["accepted"] = True
                if lg is not logging.getLogger(s["node"]):
                    s["note"] = "setup returned another logger"
                if cfg.resolve_level() != s["level"] and s["valid"]:
                    s["note"] = f"{lv!r} resolves to {cfg.resolve_level()}"
            except (ValueError, TypeError) as exc:
                s["accepted"] = False
                if not s["valid"] and not isinstance(exc, BADS[s["bad"]][1]):
                    s["note"] = f"{lv!r} was refused with {exc!r}"
        seen = []
        for n in NODES:
            for lv in PROBES:
                err.seek(0)
                err.truncate()
                logging.getLogger(n).log(lv, "m%d", lv)
                lines = err.getvalue().splitlines()
                got = []
                for x in lines:
                    m = re.fullmatch(r"F(-?\d+)\|([^|]*)\|([^|]*)\|([^|]*)(\|(.*))?", x)
                    if not m or m[3] != n or m[4] != f"m{lv}" or m[2] != logging.getLevelName(lv):
                        got.append(-1)
                        s["note"] = f"a line reads {x!r}"
                        continue
                    j = int(m[1])
                    if j > 0 and (m[6] or "") != (f"D{j}" if steps[j - 1].get("date") else ""):
                        s["note"] = f"a date reads {m[6]!r}"
                    got.append(j)
                seen.append(dict(node=n, level=lv, out=got))
        s["seen"] = seen
        out.append(s)
    return out


def child(histories):
    """Each history in a process of its own."""
    res = []
    for h in histories:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                data = json.dumps(replay(h)).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            except BaseException as exc:  # noqa: BLE001
                sys.__stderr__.write(f"{exc!r}\n")
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        res.append(json.loads(data) if data else None)
    return res


def run(ctx):
    rng = ctx.rng
    inv = ["Once", "Passes", "Kept", "Silent"]
    c = dict(Targets='{"torchrir", "torchrir.a", "other"}', Levels="{10, 20, 40}", Depth=ctx.pick(3, 4), Flaw='""')
    ctx.tlc("MCLogging", constants=c, invariants=inv + ["Guests"], properties=["GuestKept"], workers=8)
    for flaw in ("first", "eager"):
        r = ctx.tlc("MCLogging", constants=dict(c, Depth=2, Flaw=f'"{flaw}"'), invariants=inv, expect_ok=False, label=f"MCLogging with flaw {flaw}")
        if not r.violated:
            raise AssertionError(f"the specification misses the flaw {flaw}")
    hists = [[dict(op="get", segs=g)] for g in GETS]
    one = [dict(op="setup", node="torchrir", level=lv, how=0, prop=p, valid=True, date=False) for lv in (10, 20, 40) for p in (False, True)]
    one.append(dict(op="setup", node="torchrir", bad=0, level=0, prop=True, valid=False))
    hists += [list(h) for h in itertools.product(one, repeat=2)]
    hists += [[dict(op="setup", node="torchrir", level=lv, how=h, prop=False, valid=True, date=False)] for lv in LEVELS for h in range(len(LEVELS[lv]))]
    hists += [[dict(op="setup", node="torchrir", bad=b, level=0, prop=True, valid=False)] for b in range(len(BADS))]
    hists += [history(rng, rng.randrange(2, 7)) for _ in range(ctx.pick(500, 6000))]
    traces = child(hists)
    for h, t in zip(hists, traces):
        if t is None:
            ctx.fail("a history of setups raised", h)
        else:
            for s in t:
                if s.get("note"):
                    ctx.fail(s["note"], h)
        if ctx.enough():
            return
    good = [dict(id=i, steps=[{k: v for k, v in s.items() if k in ("op", "node", "level", "prop", "valid", "accepted", "segs", "got", "seen")} for s in t])
            for i, t in enumerate(traces) if t is not None]
    verdict = []
    for a in range(0, len(good), 1000):
        verdict += ctx.tlc("LoggingTrace", cases=good[a:a + 1000]).records
    if len(verdict) != len(good):
        raise AssertionError("verdicts missing")
    for v in verdict:
        t = traces[v["id"]]
        ctx.comparisons += sum(len(s["seen"]) for s in t)
        ctx.trace()
        if v["bad"]:
            w = v["why"]
            s = t[w["at"] - 1]
            if "node" in w:
                what = (f"after step {w['at']} ({s['op']}) logger {w['node']} at level {w['level']} wrote through {w['out']}, "
                        f"specified is {w['want']} (0: root, k: the format of setup k)")
            elif s["op"] == "get":
                what = f"the logger {'.'.join(s['segs'])!r} is {'.'.join(s['got'])!r}"
            else:
                what = f"setup {s} was {'accepted' if s['accepted'] else 'refused'}"[:300]
            ctx.fail(what, hists[v["id"]])
        if ctx.enough():
            return
    ctx.sample(hists[-1])
    ctx.assumptions += ["a handler the user attached to a logger before its first setup is outside the histories",
                        "level 0 (NOTSET) means the parent's level, as in the standard library"]

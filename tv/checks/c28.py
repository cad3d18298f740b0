"""C28: command lines (Cli.tla): what the real parsers make of lines TLC has read."""

from __future__ import annotations

import inspect
import logging
import os
import sys
from pathlib import Path

import numpy as np

from tv import builder, sandbox
from tv.core import call

MOD = "torchrir.datasets.dynamic_cmu_arctic"
INTS = [("3", 3), ("0", 0), ("-2", -2), ("+5", 5), ("007", 7), (" 12 ", 12), ("2147483648", 2 ** 31), ("1_000", 1000)]
NOINT = ["2.5", "x", "", "1e3", "0x10", "3,4", "five"]
FLOATS = [("0.5", .5), ("-1.5", -1.5), (".25", .25), ("3", 3.0), ("1e-2", .01), ("2.50", 2.5), ("-7", -7.0), (" 0.125", .125), ("inf", float("inf"))]
NOFLOAT = ["abc", "", "1,5", "1..2", "0.3s", "1 2"]
TRIS = [("1,2,3", (1, 2, 3)), ("7.5,6,2.8", (7.5, 6, 2.8)), (" 4 , 3.25 ,1", (4, 3.25, 1)), ("1e1,20,.5", (10, 20, .5)), ("+5,5.0,5", (5, 5, 5)),
        ("0.1,0.2,0.3", (.1, .2, .3)), ("3,2,1", (3, 2, 1))]
NOTRI = ["1,2", "1,2,3,4", "a,b,c", "", "5", "1;2;3", "1 2 3", "1,2,x", "8x6x3"]
PATHS = ["corpus", "some dir/with spaces", "./here", "../up/there", "~/home", "/abs/olute/../path", "a=b", "x,y", "5", "naïve"]
NAMES = ["bdl", "slt", "clb", "rms", "jmk", "awb", "aew", "BDL", "nobody", "x y", "1", "a=b"]
LEVELS = ["DEBUG", "info", "Warning", "error", "CRITICAL", "chatty"]
ONES = dict(path=PATHS, name=NAMES, level=LEVELS)
OPTS = [("--cmu-root", "path"), ("--dataset-root", "path"), ("--n-scenes", "int"), ("--n-sources", "int"), ("--n-moving-sources", "int"),
        ("--duration-sec", "float"), ("--room-size", "tri"), ("--mic-center", "tri"), ("--source-margin", "tri"), ("--octa-edge-m", "float"),
        ("--trajectory-steps", "int"), ("--rir-samples", "int"), ("--rt60", "float"), ("--sound-speed", "float"), ("--max-order", "int"),
        ("--seed", "int"), ("--layout-video-fps", "float"), ("--log-level", "level"), ("--speakers", "many")]
PAIRS = ["download-cmu", "randomize-mic-center", "save-layout-images", "save-layout-images-3d", "save-layout-mp4", "save-layout-mp4-3d"]
FLAGS = ["--overwrite-dataset", "--layout-video-no-audio", "--no-annotate-source-indices"] + ["--" + p for p in PAIRS] + ["--no-" + p for p in PAIRS]
UNKNOWN = ["--bogus", "--cmu_root", "--n_scenes", "-q", "--no-overwrite-dataset", "--layout-video-audio", "--annotate-source-indices", "--SEED"]
KIND = dict(n_scenes="int", n_sources="int", n_moving_sources="int", trajectory_steps="int", rir_samples="int", max_order="int", seed="int",
            duration_sec="float", octa_edge_m="float", rt60="float", sound_speed="float", layout_video_fps="float", room_size="tri",
            mic_center="tri", source_margin="tri", cmu_root="path", dataset_root="path", speakers="names")


def mean(text):
    """What a text means under each type, as the specification's value."""
    ints, floats, tris = dict(INTS), dict(FLOATS), dict(TRIS)
    tri = tris.get(text)
    f = floats.get(text)
    if f is None and text in ints:
        f = float(ints[text])
    if f is None and text in ("2.5", "1e3"):
        f = float(text)
    i = ints.get(text)
    if i is None and text in ("5", "1"):
        i, f = int(text), float(text)
    return dict(int="" if i is None else str(i), float="" if f is None else repr(f),
                tri="" if tri is None else "|".join(repr(float(v)) for v in tri), path=text, word=text, level=text)


def val(text):
    return dict(k="val", text=text) | mean(text)


def eq(name, text):
    return dict(k="opteq", name=name, text=text) | mean(text)


def opt(name):
    return dict(k="opt", name=name)


def texts(rng, kind, ok):
    if kind in ONES:
        return rng.choice(ONES[kind])
    good, bad = dict(int=(INTS, NOINT), float=(FLOATS + [(t, float(v)) for t, v in INTS[:2]], NOFLOAT), tri=(TRIS, NOTRI))[kind]
    return rng.choice(good)[0] if ok else rng.choice(bad)


def group(rng, name, kind, ok=True):
    if kind == "many":
        n = rng.choice([1, 1, 2, 3, 6])
        if n == 1 and rng.random() < .4:
            return [eq(name, rng.choice(NAMES))]
        return [opt(name)] + [val(rng.choice(NAMES)) for _ in range(n)]
    t = texts(rng, kind, ok)
    return [eq(name, t)] if rng.random() < .35 else [opt(name), val(t)]


def build_line(rng):
    """A command line: mostly right, sometimes wrong in one place."""
    gs = [group(rng, "--cmu-root", "path")]
    few = rng.choice([0, 1, 3, 6, 12])
    for name, kind in rng.sample(OPTS, min(few, len(OPTS))):
        gs.append(group(rng, name, kind))
    for f in rng.sample(FLAGS, rng.choice([0, 1, 2, 4, 8])):
        gs.append([opt(f)])
    if rng.random() < .35:      # say something twice
        name, kind = rng.choice(OPTS)
        gs += [group(rng, name, kind), group(rng, name, kind)]
    if rng.random() < .35:
        p = rng.choice(PAIRS)
        gs += [[opt("--" + p)], [opt("--no-" + p)]]
        if rng.random() < .5:
            gs.append([opt(rng.choice(["--", "--no-"]) + p)])
    rng.shuffle(gs)
    wrong = rng.choice(["", "", "", "unknown", "type", "dangling", "stray", "required", "flagvalue", "flageq"])
    at = rng.randrange(len(gs) + 1)
    if wrong == "unknown":
        gs.insert(at, [opt(rng.choice(UNKNOWN))])
    elif wrong == "type":
        name, kind = rng.choice([(n, k) for n, k in OPTS if k in ("int", "float", "tri")])
        gs = [g for g in gs if g[0]["name"] != name]    # the last word on it
        gs.insert(rng.randrange(len(gs) + 1), group(rng, name, kind, ok=False))
    elif wrong == "dangling":
        gs.insert(at, [opt(rng.choice(OPTS)[0])])
    elif wrong == "stray":
        gs.insert(0 if rng.random() < .5 else at, [val(rng.choice(["extra", "5", "-3", "a b"]))])
    elif wrong == "required":
        gs = [g for g in gs if g[0]["name"] != "--cmu-root"]
    elif wrong == "flagvalue":
        gs.insert(at, [opt(rng.choice(FLAGS)), val(rng.choice(["yes", "0", "true"]))])
    elif wrong == "flageq":
        gs.insert(at, [eq(rng.choice(FLAGS), rng.choice(["yes", "1"]))])
    return [t for g in gs for t in g]


def out_line(rng, conf):
    opts = ["--plot", "--no-plot", "--show", "--gif"]
    gs = []
    for f in rng.sample(opts, rng.choice([0, 0, 1, 1, 2, 3])):
        gs.append([opt(f)])
    for _ in range(rng.choice([0, 0, 1, 2])):
        gs.append(group(rng, "--gif-fps", "int", rng.random() < .8))
    for _ in range(rng.choice([0, 1, 2])):
        gs.append(group(rng, "--out-dir", "path"))
    # mostly options that exist
    have = {"--out-dir"} | ({"--plot"} if conf["plot"] else set()) | ({"--no-plot"} if conf["plot"] and conf["plotted"] else set())
    have |= ({"--show"} if conf["show"] else set()) | ({"--gif", "--gif-fps"} if conf["gif"] else set())
    if rng.random() < .75:
        gs = [g for g in gs if g[0]["name"] in have]
    # "--gif" alone where only longer names exist would be an abbreviation
    rng.shuffle(gs)
    return [t for g in gs for t in g]


def argv(line):
    return [t["text"] if t["k"] == "val" else t["name"] + ("=" + t["text"] if t["k"] == "opteq" else "") for t in line]


def said(par, v):
    """A recorded argument in the specification's words."""
    k = KIND.get(par)
    if v is None:
        return ["none"]
    if k == "int":
        return [str(int(v))] if not isinstance(v, bool) and float(v) == int(v) else ["?", repr(v)]
    if k == "float":
        return [repr(float(v))]
    if k == "tri":
        return ["|".join(repr(float(x)) for x in np.asarray(v).reshape(-1))]
    if k == "path":
        return [str(Path(v).expanduser().resolve())]
    if k == "names":
        return [str(x) for x in v]
    return ["yes" if v else "no"] if isinstance(v, (bool, np.bool_)) else ["?", repr(v)]


class Recorder:
    """The builder replaced by something that notes how it was called."""

    def __init__(self, mod):
        self.mod, self.real = mod, mod.build_dynamic_cmu_arctic_dataset
        self.sig = inspect.signature(self.real)

    def __enter__(self):
        self.calls = []

        def build(*a, **k):
            self.calls.append((a, k))
            return 16000, 6
        self.mod.build_dynamic_cmu_arctic_dataset = build
        return self

    def __exit__(self, *_):
        self.mod.build_dynamic_cmu_arctic_dataset = self.real

    def run(self, args):
        """(outcome, exit code or exception, calls, root log level)."""
        self.calls = []
        old, root = sys.argv, logging.getLogger()
        keep, level, err, out = root.handlers[:], root.level, sys.stderr, sys.stdout
        root.handlers[:] = []
        root.setLevel(logging.WARNING)
        sys.argv = [MOD] + args
        null = open(os.devnull, "w")
        sys.stderr = sys.stdout = null
        try:
            self.mod.main()
            res = ("ok", None)
        except SystemExit as exc:
            res = ("ok", None) if exc.code in (0, None) else ("exit", exc.code)
        except Exception as exc:  # noqa: BLE001
            res = ("err", exc)
        finally:
            sys.argv, sys.stderr, sys.stdout = old, err, out
            null.close()
            got = root.level
            root.handlers[:] = keep
            root.setLevel(level)
        return (*res, self.calls, got)


def level_of(text):
    v = getattr(logging, text.upper(), logging.INFO)
    return v


def judge_build(ctx, rec, c, r):
    args = argv(c["line"])
    kind, what, calls, level = rec.run(args)
    ctx.comparisons += 1
    ctx.trace()
    case = dict(argv=args, model=r)
    if not r["ok"]:
        if calls or kind == "ok" or (kind == "err" and not isinstance(what, (ValueError, TypeError))):
            ctx.fail(f"a command line that must be refused gave {kind} {what!r} after {len(calls)} build(s): {args}", case)
        return
    if kind != "ok" or len(calls) != 1:
        ctx.fail(f"a valid command line gave {kind} {what!r} and {len(calls)} builds: {args}", case)
        return
    st, b = call(rec.sig.bind, *calls[0][0], **calls[0][1])
    if st == "err":
        ctx.fail(f"the build was called with arguments it does not take: {b!r}: {args}", case)
        return
    b.apply_defaults()
    want = dict(r["args"])
    if level != level_of(want.pop("log_level")[0]):
        ctx.fail(f"log level {level}: {args}", case)
        return
    got = dict(b.arguments)
    for p, w in want.items():
        if KIND.get(p) == "path":
            w = [str(Path(w[0]).expanduser().resolve())]
        g = said(p, got.pop(p)) if p in got else ["absent"]
        if g != w:
            ctx.fail(f"{p} was {g}, the command line says {w}: {args}", case)
            return
    for p, v in got.items():      # what no option speaks of stays as the function has it
        d = rec.sig.parameters[p].default
        if p != "logger" and not (v is d or v == d):
            ctx.fail(f"{p} was {v!r}, which no option asks for (default {d!r}): {args}", case)
            return


def same_defaults(ctx, sig, want):
    """What is left out of a call means what it means on a command line."""
    want = dict(want,move_start_ratio=["0.35"], move_end_ratio=["0.65"], moving_speed_min=["0.3"], moving_speed_max=["0.8"])
    for p, w in want.items():
        par = sig.parameters.get(p)
        if par is None or par.default is inspect.Parameter.empty or par.default is None or p == "cmu_root":
            continue
        ctx.comparisons += 1
        d = par.default
        g = [repr(float(d))] if p.startswith("mov") else said(p, d)
        if KIND.get(p) == "path":
            w = [str(Path(w[0]).expanduser().resolve())]
        if g != w:
            ctx.fail(f"the builder's own default of {p} is {d!r}, documented: {w}", dict(parameter=p))


def judge_out(ctx, c, r):
    import argparse

    from torchrir.util import add_output_args

    conf = c["conf"]

    class Refused(Exception):
        pass

    class P(argparse.ArgumentParser):
        def error(self, message):
            raise Refused(message)
    p = P(allow_abbrev=False)
    kw = dict(out_dir_default=conf["out"] if c["id"] % 2 else Path(conf["out"]))
    for name, k, d in [("plot_default", "plotted", False), ("include_plot", "plot", True), ("include_show", "show", True), ("include_gif", "gif", False)]:
        if conf[k] != d or c["id"] % 3:
            kw[name] = conf[k]
    st, e = call(add_output_args, p, **kw)
    args = argv(c["line"])
    ctx.comparisons += 1
    ctx.trace()
    case = dict(argv=args, conf=conf, model=r)
    if st == "err":
        ctx.fail(f"add_output_args failed: {e!r}", case)
        return
    st, ns = call(p.parse_args, args)
    if st == "err":
        if r["ok"] or not isinstance(ns, Refused):
            ctx.fail(f"{args} gave {ns!r} with {kw}", case)
        return
    got = {k: ["absent"] for k in ("out_dir", "plot", "show", "gif", "gif_fps")}
    for k, v in vars(ns).items():
        if k in got:
            got[k] = [str(v)] if k == "gif_fps" else [v] if k == "out_dir" else said(k, v)
    want = dict(r["args"]) if r["ok"] else None
    if want:
        want["out_dir"] = [Path(want["out_dir"][0])]
    if got != want:
        ctx.fail(f"{args} gave {got}, the specification says {want}, with {kw}", case)


def real_builds(ctx):
    """Command lines run for real against the builds they stand for."""
    builder.prepare()
    import importlib.util
    import types

    found = importlib.util.find_spec(MOD)
    code = found.loader.get_code(MOD)       # read here: the children may not be able to
    roots = []
    for k in range(2):
        w = ctx.scratch / f"corpus{k}"
        w.mkdir()
        roots.append(builder.corpus(w, ctx.seed + k, loud=bool(k)))
    rng = ctx.rng
    cases = []
    base = [opt("--no-save-layout-mp4"), opt("--no-save-layout-images")]

    def small(n):
        g = [[opt("--cmu-root"), val(str(roots[n % 2]))], [opt("--duration-sec"), val("0.5")], [eq("--rir-samples", " 12 ") if n % 2 else opt("--rir-samples")]
             + ([] if n % 2 else [val(" 12 ")]), [opt("--max-order"), val("0")], [opt("--trajectory-steps"), val("3")],
             [opt("--n-scenes"), val("1")], [opt("--dataset-root"), val("out/ds")]]
        if n % 3 == 0:
            g.append([opt("--speakers"), val("bdl"), val("slt"), val("clb"), val("awb")])
        if n % 4 == 1:
            g += [[opt("--no-randomize-mic-center")], [opt("--mic-center"), val("3,2,1")], [eq("--octa-edge-m", ".25")],
                  [eq("--room-size", "7.5,6,2.8")], [opt("--source-margin"), val("0.1,0.2,0.3")]]
        if n % 4 == 2:
            g += [[opt("--n-sources"), val("3")], [opt("--n-moving-sources"), val("0")], [opt("--seed"), val("007")]]
        if n % 4 == 3:
            g += [[opt("--seed"), val("2147483648")], [opt("--rt60"), val(".25")], [opt("--sound-speed"), val("3")], [opt("--seed"), val("0")]]
        rng.shuffle(g)
        if n % 4 == 3:      # the later seed counts: keep this order
            g.sort(key=lambda x: x[-1].get("text") == "0" and x[0]["name"] == "--seed")
        return [t for x in g + [[b] for b in base] for t in x]

    def add(line, **k):
        cases.append(dict(id=len(cases), which="build", line=line, **k))
    for n in range(ctx.pick(5, 16)):
        add(small(n), there=None)
    add(small(1) + [opt("--overwrite-dataset")], there="data")
    add(small(0), there="data")
    add(small(2), there="empty")
    add(small(0) + [opt("--n-scenes"), val("0")], there="none")
    add(small(1) + [opt("--overwrite-dataset"), opt("--n-sources"), val("0")], there="data")
    add(small(1) + [opt("--overwrite-dataset"), opt("--bogus")], there="data")
    add(small(1) + [opt("--overwrite-dataset"), opt("--room-size"), val("1,2")], there="data")
    add(small(1) + [opt("--overwrite-dataset"), opt("--seed"), val("x")], there="data")

    strip = [dict(c, line=[{k: v for k, v in t.items()} for t in c["line"]]) for c in cases]
    rs = {r["id"]: r["r"] for r in ctx.tlc("CliEval", constants={"Flaw": '"none"'}, cases=[dict(id=c["id"], which="build", line=c["line"]) for c in strip],
                                           label="command lines run for real").records}
    for c in cases:
        w = sandbox.scratch_dir(ctx, f"run{c['id']}")
        args, r = argv(c["line"]), rs[c["id"]]
        home = os.environ["HOME"]

        def place(name, there):
            d = w / name
            (d / "out").mkdir(parents=True)
            if there in ("data", "empty"):
                (d / "out" / "ds").mkdir()
            if there == "data":
                (d / "out" / "ds" / "keep.txt").write_text("precious")
            sandbox.give(d)
            return d

        def cli():
            os.environ["HOME"] = home
            sys.argv = [MOD] + args
            logging.getLogger().handlers[:] = []
            try:
                m = types.ModuleType("__main__")
                m.__dict__.update(__package__=MOD.rpartition(".")[0], __file__=found.origin, __spec__=found, __loader__=found.loader)
                sys.modules["__main__"] = m
                exec(code, m.__dict__)
            except SystemExit as exc:
                return "exit" if exc.code not in (0, None) else "ok"
            return "ok"
        d1, d2 = place("cli", c["there"]), place("api", c["there"])
        before = sandbox.tree(d1)
        res = sandbox.run(cli, root=d1, script=[dict(kind="refuse")]).result
        ok = res[0] == "ok" and res[1] == "ok"
        ctx.trace()
        ctx.comparisons += 1
        case = dict(argv=args, result=res[:3])
        if not r["ok"]:
            if ok or sandbox.tree(d1) != before:
                ctx.fail(f"a command line that must be refused gave {res[:3]} and changed {sorted(sandbox.tree(d1))[:5]}: {args}", case)
            continue
        kw = {}
        for p, v in r["args"].items():
            k = KIND.get(p)
            kw[p] = (int(v[0]) if k == "int" else [float(x) for x in v[0].split("|")] if k == "tri" else
                     v if k == "names" else v[0] if k == "path" or p == "log_level" else
                     (None if v[0] == "none" else float(v[0])) if k == "float" else v[0] == "yes")
        kw.pop("log_level")
        kw["cmu_root"], kw["dataset_root"] = Path(kw["cmu_root"]), Path(kw["dataset_root"])
        api = builder.start(d2, kw).result
        if (api[0] == "ok") != ok:
            ctx.fail(f"the command line gave {res[:3]}, the call it stands for {api[:3]}: {args}", case)
        elif builder.content(d1) != builder.content(d2):
            a, b = builder.content(d1), builder.content(d2)
            ctx.fail(f"the command line and the call it stands for built different things: "
                     f"{sorted(k for k in a.keys() | b.keys() if a.get(k) != b.get(k))[:5]}: {args}", case)
        elif c["there"] in ("data", "empty") and not kw["overwrite"] and (ok or sandbox.tree(d1) != before):
            ctx.fail(f"without permission to overwrite: {res[:3]}, left {sorted(sandbox.tree(d1))[:5]}: {args}", case)
        if not ok and c["there"] is None:
            ctx.fail(f"a valid command line gave {res[:3]}: {args}", case)
        sandbox.wipe(w)
        if ctx.enough():
            return
    ctx.count("command_lines_run_for_real", len(cases))


def run(ctx):
    inv = ["RefusedIffWrong", "LastWins", "OrderFree"]
    ctx.tlc("MCCli", constants={"MaxLen": ctx.pick(5, 6), "Flaw": '"none"'}, invariants=inv, workers=8, label="every short command line")
    for f in ("firstWins", "dangling"):
        r = ctx.tlc("MCCli", constants={"MaxLen": 5, "Flaw": f'"{f}"'}, invariants=inv, expect_ok=False, workers=4, label=f"flawed reader: {f}")
        if not r.violated:
            raise RuntimeError(f"the specification does not tell a {f} reader apart")
    import importlib

    mod = importlib.import_module(MOD)
    rng = ctx.rng
    cases = []
    for i in range(ctx.pick(1500, 15000)):
        if i % 3 == 2:
            conf = {k: rng.random() < .7 for k in ("plot", "plotted", "show", "gif")} | dict(out=rng.choice(PATHS))
            cases.append(dict(id=i, which="out", conf=conf, line=out_line(rng, conf)))
        else:
            cases.append(dict(id=i, which="build", line=build_line(rng)))
    # every option with every value, and every flag, on its own
    vals = dict(int=[t for t, _ in INTS] + NOINT, float=[t for t, _ in FLOATS + INTS[:2]] + NOFLOAT, tri=[t for t, _ in TRIS] + NOTRI, many=NAMES) | ONES
    for name, kind in OPTS:
        for how, t in enumerate(vals[kind] * 2):
            how %= 2
            cases.append(dict(id=len(cases), which="build", line=[opt("--cmu-root"), val("c")] + ([eq(name, t)] if how else [opt(name), val(t)])))
    for f in FLAGS:
        cases.append(dict(id=len(cases), which="build", line=[opt(f), eq("--cmu-root", "c")]))
    plain = len(cases)
    cases.append(dict(id=plain, which="build", line=[opt("--cmu-root"), val("c")]))
    rs = {r["id"]: r["r"] for r in ctx.tlc("CliEval", constants={"Flaw": '"none"'}, cases=cases, label="command lines read").records}
    if len(rs) != len(cases):
        raise RuntimeError("TLC did not read every line")
    here = os.getcwd()
    os.chdir(ctx.scratch)
    try:
        with Recorder(mod) as rec:
            same_defaults(ctx, rec.sig, rs[plain]["args"])
            probe = rec.run(["--cmu-root", "corpus"])
            heard = len(probe[2]) == 1
            if not heard:
                ctx.assumptions.append("the entry point does not call the module's builder: only real builds were compared")
            for c in cases:
                r = rs[c["id"]]
                if c["which"] == "out":
                    judge_out(ctx, c, r)
                elif heard:
                    judge_build(ctx, rec, c, r)
                ctx.count(f"{c['which']}_{'valid' if r['ok'] else 'refused'}")
                if ctx.enough():
                    return
        ctx.sample(dict(argv=argv(cases[0]["line"]), read=rs[cases[0]["id"]]))
    finally:
        os.chdir(here)
    real_builds(ctx)

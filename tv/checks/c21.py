"""C21: saving pictures and videos under faults (Render.tla): TLC lists how each scenario may end."""

from __future__ import annotations

import hashlib
import json
import logging
import multiprocessing as mp
import os
import re
import shutil
from pathlib import Path

import numpy as np
import soundfile as sf

from tv.core import VERIF, call

INV = ["Quiet", "Whole", "Requested", "Intact", "OnlyByTool", "NoLeftovers", "Told", "Reported", "Out"]
FLAWS = ["escape", "early", "unasked", "inplace", "leave", "trust", "mute"]


class Ears(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.seen = []

    def emit(self, r):
        if not r.name.startswith(("matplotlib", "PIL")):
            self.seen.append((r.levelno, r.getMessage()))


def dress(rng, sc):
    """The parts of a run the scenario leaves open."""
    T = rng.choice([1, 2, 3, 4, 6])
    ns, nm = rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
    ch = rng.choice([1, 1, 2, 2, 3, 4, 6])
    return dict(T=T, ns=ns, nm=nm, seed=rng.randrange(10 ** 6), prefix=rng.choice(["scene", "a b", "run.v2", "p_3d", "x.gif", "é"]),
                annotate=rng.random() < .75, lines=rng.choice([None, None, ["T60: 0.3 s"], ["a", "", "b"], []]),
                fps=rng.choice([None, 2, 10, 0, -1]), signal=rng.choice([0, 80, 800, 4000]), old=rng.random() < .4, form=rng.randrange(3),
                deep=rng.random() < .4, chans=ch, rate=rng.choice([8000, 16000, 44100]),
                want=[rng.choice([-1, 0, 1, ch - 1, ch - 1, min(ch, 6), rng.randint(-2, 6)]) for _ in range(2)], direct=sc["kind"] == "videos" and rng.random() < .5,
                sub=rng.choice(["PCM_16", "FLOAT", "PCM_24"]), frames=rng.choice([0, 1, 50, 800, 3000]), broken=rng.randrange(4))


def scene(sc, o):
    import torch

    g = np.random.default_rng(o["seed"])
    dim = sc["dim"]
    room = np.array([5., 4., 3.])[:dim]
    src, mic = g.uniform(.3, 2.7, (o["ns"], dim)), g.uniform(.3, 2.7, (o["nm"], dim))
    st = g.uniform(.3, 2.7, (o["T"], o["ns"], dim)) if sc["st"] else None
    mt = g.uniform(.3, 2.7, (o["T"], o["nm"], dim)) if sc["mt"] else None
    f = (lambda x: None if x is None else torch.tensor(x, dtype=torch.float32)) if o["form"] != 1 else \
        (lambda x: None if x is None else torch.tensor(x).tolist())
    out = dict(room=f(room), sources=f(src), mics=f(mic), src_traj=f(st), mic_traj=f(mt))
    if o["form"] == 2:
        from torchrir import MicrophoneArray, Source

        out.update(sources=Source.from_positions(src.tolist()), mics=MicrophoneArray.from_positions(mic.tolist()))
    return out


def state(p: Path, note):
    """What a path of the output directory holds."""
    if not p.exists():
        return "none"
    if not p.is_file():
        return "other"
    b = p.read_bytes()
    if p.suffix == ".mp4":
        if b.startswith(b"VIDEO ") and b in note["plain"] and b.endswith(b"END"):
            return "plain"
        return "sound" if b in note["sound"] else "other"
    from PIL import Image

    try:
        with Image.open(p) as im:
            for k in range(getattr(im, "n_frames", 1)):
                im.seek(k)
                im.load()
            return "plain" if im.format == dict(png="PNG", gif="GIF")[p.suffix[1:]] else "other"
    except Exception:  # noqa: BLE001
        return "other"


def run_one(job):
    """One run of the real code; returns the observation."""
    root, sc, o, names, asked = job
    import matplotlib
    import matplotlib.animation as ma
    import matplotlib.figure as mf
    import torch

    matplotlib.use("Agg")
    torch.set_num_threads(1)
    from torchrir import viz

    root = Path(root)
    root.mkdir(parents=True)
    bin_ = root / "bin"
    bin_.mkdir()
    out = root / "out" / "deep" / "er" if o["deep"] else root / "out"
    tmpd = root / "tmp"
    tmpd.mkdir()
    shutil.copy(VERIF / "tv" / "fake_ffmpeg.py", bin_ / "ffmpeg")
    os.chmod(bin_ / "ffmpeg", 0o755)
    (bin_ / "plan.json").write_text(json.dumps(dict(n=sc["n"] if sc["kind"] == "videos" else 0, how=sc["how"], tool=sc["tool"])))
    keep = {k: os.environ.get(k) for k in ("PATH", "TMPDIR")}
    os.environ["PATH"], os.environ["TMPDIR"] = str(bin_), str(tmpd)
    import tempfile

    tempfile.tempdir = None
    name = {tuple(v): n.replace("@", o["prefix"]) for v, n in names}
    path = {v: out / n for v, n in name.items()}
    mixp = root / "mixture.wav"
    wave = None
    if sc["mix"] == "good":
        wave = np.random.default_rng(o["seed"] + 1).uniform(-.9, .9, (o["frames"], o["chans"]))
        sf.write(mixp, wave, o["rate"], subtype=o["sub"])
        wave = sf.read(mixp, always_2d=True)[0]
    elif sc["mix"] == "unreadable":
        mixp.write_bytes(b"RIFF\x10\x00\x00\x00WAVEnope" + bytes(40))
    mix0 = mixp.read_bytes() if mixp.exists() else None
    if o["old"] and not (sc["how"] == "broken" and o["broken"] == 0):
        out.mkdir(parents=True)
        (out / "notes.txt").write_text("kept")
        (out / "room_layout.mp4").write_text("kept")
        for v in path:                       # what an earlier run left
            if v[0] not in ("static", "dynamic") or sc["kind"] == "plots":
                path[v].write_bytes(b"old")
    kw = scene(sc, o)
    traj = {k: kw.pop(k) for k in ("src_traj", "mic_traj")}
    if sc["how"] == "broken":
        how = o["broken"]
        if how == 0:
            out.parent.mkdir(parents=True, exist_ok=True)
            out.write_text("a file")
        elif how == 1 and sc["kind"] != "plots" and sc["st"]:
            traj["src_traj"] = [[1., 1., 1.]]
        elif how == 2:
            kw["sources"] = "nowhere"
        else:
            kw["room"] = None
    fault = tuple(asked[sc["n"] - 1]) if sc["n"] and sc["how"] != "broken" else None
    undo = []
    if fault and sc["kind"] != "videos":
        if sc["how"] == "refuse":
            out.mkdir(parents=True, exist_ok=True)
            path[fault].unlink(missing_ok=True)
            path[fault].mkdir()
        elif sc["kind"] == "gifs":
            real, n = ma.PillowWriter.finish, [0]

            def finish(self):
                n[0] += 1
                if n[0] == sc["n"]:
                    Path(self.outfile).write_bytes(b"GIF89a torn")
                    raise OSError(28, "No space left on device")
                return real(self)
            ma.PillowWriter.finish = finish
            undo.append(lambda: setattr(ma.PillowWriter, "finish", real))
        else:
            real, n = mf.Figure.savefig, [0]

            def savefig(self, fname, *a, **k):
                n[0] += 1
                if n[0] == sc["n"]:
                    Path(fname).write_bytes(b"\x89PNG torn")
                    raise OSError(28, "No space left on device")
                return real(self, fname, *a, **k)
            mf.Figure.savefig = savefig
            undo.append(lambda: setattr(mf.Figure, "savefig", real))
    lg = logging.getLogger(f"tv.run{o['seed']}")
    ears = Ears()
    rl = logging.getLogger()
    lvl = rl.level
    rl.addHandler(ears)
    rl.setLevel(logging.INFO)
    ann = dict(annotate_sources=o["annotate"], annotation_lines=o["lines"])
    try:
        if sc["kind"] == "plots":
            r = call(viz.save_scene_plots, out_dir=out, **kw, **traj, prefix=o["prefix"], show=False, logger=lg, plot_2d=sc["w2"], plot_3d=sc["w3"], **ann)
        elif sc["kind"] == "layout":
            r = call(viz.save_scene_layout_images, out_dir=out, **kw, **traj, logger=lg, save_2d=sc["w2"], save_3d=sc["w3"], **ann)
        elif sc["kind"] == "gifs":
            r = call(viz.save_scene_gifs, out_dir=out, **kw, **traj, prefix=o["prefix"], signal_len=o["signal"], fs=8000, gif_fps=o["fps"] or 0,
                     logger=lg, **ann)
        else:
            mix = dict(mixture_path=None if sc["mix"] == "off" and o["seed"] % 2 else mixp, mux_audio=sc["mix"] != "off")
            if sc["mix"] == "off" and not mix["mux_audio"] and o["seed"] % 3 == 0:
                sf.write(mixp, np.zeros((9, 2)), 8000)
                mix0 = mixp.read_bytes()
                mix["mixture_path"] = mixp
            if o["direct"]:
                r = ("ok", None)
                for v in [tuple(x) for x in asked]:
                    r1 = call(viz.animate_scene_mp4, out_path=path[v], **kw, **traj, fps=o["fps"], signal_len=o["signal"], fs=8000,
                              plot_2d=v[1] == 2, plot_3d=v[1] == 3, audio_channels=tuple(o["want"]), **mix, **ann)
                    r = r1 if r1[0] == "err" else r
            else:
                r = call(viz.save_scene_videos, out_dir=out, **kw, **traj, signal_len=o["signal"], fs=8000, logger=lg, mp4_fps=o["fps"],
                         save_3d=sc["w3"], **mix, **ann)
    finally:
        for u in undo:
            u()
        rl.removeHandler(ears)
        rl.setLevel(lvl)
        for k, val in keep.items():
            os.environ.pop(k, None) if val is None else os.environ.__setitem__(k, val)
        tempfile.tempdir = None
        import matplotlib.pyplot as plt

        open_figs = len(plt.get_fignums())
        plt.close("all")
    note = dict(plain=set(), sound=set())
    tool = [json.loads(x) for x in (bin_ / "log.ndjson").read_text().splitlines()] if (bin_ / "log.ndjson").exists() else []
    for t in tool:
        if t["kind"] == "draw" and t.get("ok"):
            note["plain"].add(t["data"].encode())
        elif t["kind"] == "mix":
            note["sound"].add(t["new"].encode())
    seen = dict(raised=repr(r[1]) if r[0] == "err" else "", figures=open_figs, file=[], saved=[], log=ears.seen, bad=[],
                warned=any(lv >= logging.WARNING for lv, _ in ears.seen), drawn=[t for t in tool if t["kind"] == "draw"])
    for v, p in path.items():
        st = state(p, note)
        if st == "other" and p.is_file() and p.read_bytes() == b"old":
            st = "none"
        seen["file"].append([list(v), st])
        if any(lv < logging.WARNING and re.search(re.escape(name[v]) + r"(?![\w.])", m) and re.search(r"(?<![\w .])" + re.escape(name[v]), m)
               for lv, m in ears.seen):
            seen["saved"].append(list(v))
    mine = set(name.values()) | ({"notes.txt", "room_layout.mp4"} if o["old"] else set())
    if out.is_dir():
        seen["bad"] += [f"left {x.name} behind" for x in out.iterdir() if x.name not in mine]
        if o["old"] and (out / "notes.txt").exists() and {(out / n).read_text() for n in ("notes.txt", "room_layout.mp4")} != {"kept"}:
            seen["bad"].append("changed a file it was not asked to write")
    seen["bad"] += [f"left the temporary {x.name} behind" for x in tmpd.iterdir() if not x.name.startswith(("mpl", "matplotlib"))]
    seen["bad"] += [f"left {x.name} behind beside the mixture" for x in root.iterdir() if x.name not in ("bin", "out", "tmp", "mixture.wav")]
    if (mixp.read_bytes() if mixp.exists() else None) != mix0:
        seen["bad"].append("changed the mixture")
    seen["mixed"] = []
    for t in tool:
        if t["kind"] != "mix":
            continue
        if t["inplace"] or t["before"].encode() not in note["plain"]:
            seen["bad"].append("the tool was to overwrite the video itself")
        if (bin_ / t["link"]).read_bytes() not in note["plain"]:
            seen["bad"].append("the video was overwritten in place, not replaced by a complete one")
        try:
            x, rate = sf.read(bin_ / t["audio"], always_2d=True)
        except Exception as exc:  # noqa: BLE001
            seen["bad"].append(f"the track handed to the tool cannot be read: {exc!r}")
            continue
        if rate != o["rate"] or x.shape != (len(wave), 2):
            seen["bad"].append(f"the track has {x.shape[1]} channels of {x.shape[0]} frames at {rate} Hz, the mixture {len(wave)} at {o['rate']}")
            continue
        cols = [[a for a in range(wave.shape[1]) if np.abs(wave[:, a] - x[:, b]).max(initial=0) < 2e-4] for b in (0, 1)]
        seen["mixed"].append(cols)
    shutil.rmtree(root)
    return seen


def after_a_kill(root):
    """Adding sound where a killed run left its unfinished files; returns what is wrong."""
    import matplotlib

    matplotlib.use("Agg")
    from torchrir import MicrophoneArray, Source, viz

    root = Path(root)
    bin_ = root / "bin"
    bin_.mkdir(parents=True)
    shutil.copy(VERIF / "tv" / "fake_ffmpeg.py", bin_ / "ffmpeg")
    os.chmod(bin_ / "ffmpeg", 0o755)
    (bin_ / "plan.json").write_text(json.dumps(dict(n=0, how="", tool="ok")))
    (root / "tmp").mkdir()
    os.environ["PATH"], os.environ["TMPDIR"] = str(bin_), str(root / "tmp")
    import tempfile

    tempfile.tempdir = None
    sf.write(root / "mixture.wav", np.random.default_rng(3).uniform(-.5, .5, (300, 2)), 8000)
    said = lambda: [json.loads(x) for x in (bin_ / "log.ndjson").read_text().splitlines()]  # noqa: E731
    left = []
    for turn in range(2):
        r = call(viz.animate_scene_mp4, out_path=root / "out.mp4", room=[4., 3., 2.5],
                 sources=Source.from_positions([[1., 1., 1.]]), mics=MicrophoneArray.from_positions([[2., 2., 1.]]),
                 src_traj=np.array([[[1., 1., 1.]], [[2., 1., 1.]]]), signal_len=300, fs=8000, mixture_path=root / "mixture.wav", mux_audio=True)
        if r[0] == "err":
            return f"run {turn} raised {r[1]!r}"
        log = said()
        if (root / "out.mp4").read_bytes() not in {t["new"].encode() for t in log if t["kind"] == "mix"}:
            return f"the video of run {turn} has no sound" + (f" where a killed run had left {left}" if turn else "")
        for p in {Path(q) for t in log if t["kind"] == "mix" for q in t["used"]} - {root / "out.mp4", root / "mixture.wav"}:
            if not p.exists():
                p.write_bytes(b"half of a file")
                left.append(p.name)
    return ""


def fits(e, seen, direct):
    """Is the observation an end the specification allows?"""
    if not direct and ({tuple(v) for v in seen["saved"]} != {tuple(v) for v in e["saved"]} or seen["warned"] != e["warned"]):
        return False
    want = {tuple(v): f for v, f in e["file"]}
    for v, f in seen["file"]:
        w = want.get(tuple(v), "none")
        if w in ("plain", "sound") and f != w:
            return False
        if w == "none" and f in ("plain", "sound") or (w == "none" and f == "other" and v not in e["asked"]):
            return False
    return True


def run(ctx):
    rng = ctx.rng
    ends, pairs = {}, {}
    r = ctx.tlc("MCRender", constants=dict(Scenarios="<- Sc", Flaw='""', Emit="TRUE"), invariants=INV, workers=4)
    for e in r.records:
        if "pairs" in e:
            pairs = {(n, a, b): tuple(p) for n, a, b, p in e["pairs"]}
        else:
            ends.setdefault(json.dumps(e["sc"], sort_keys=True), []).append(e)
    for f in FLAWS:
        if not ctx.tlc("MCRender", constants=dict(Scenarios="<- Sc", Flaw=f'"{f}"', Emit="FALSE"), invariants=INV, expect_ok=False, workers=4,
                       label=f"MCRender with flaw {f}").violated:
            raise AssertionError(f"the specification misses the flaw {f}")
    keys = sorted(ends)
    vid = [k for k in keys if json.loads(k)["kind"] == "videos"]
    rest = [k for k in keys if k not in vid]
    fine = [k for k in vid if all(not e["warned"] for e in ends[k]) and '"good"' in k]
    gifs = [k for k in rest if '"gifs"' in k]
    calm = [k for k in rest if all(not e["warned"] for e in ends[k]) and len(ends[k][0]["asked"]) > 1]
    gifs += [k for k in calm if k in gifs] * 6
    todo = ctx.pick(vid * 2 + fine * 15 + gifs * 2 + rng.sample(rest, 100), vid * 14 + fine * 60 + gifs * 20 + rest * 4)
    jobs = []
    for i, k in enumerate(todo):
        sc = json.loads(k)
        jobs.append((str(ctx.scratch / f"r{i}"), sc, dress(rng, sc), ends[k][0]["names"], ends[k][0]["asked"]))
    import torch  # noqa: F401
    import torchrir.viz  # noqa: F401

    torch.set_num_threads(1)
    with mp.get_context("fork").Pool(7) as pool:
        for job, seen in zip(jobs, pool.imap(run_one, jobs, chunksize=2)):
            judge(ctx, job, seen, ends, pairs)
            if ctx.enough():
                return
    with mp.get_context("fork").Pool(1) as pool:
        bad = pool.apply(after_a_kill, (str(ctx.scratch / "killed"),))
    ctx.comparisons += 2
    if bad:
        ctx.fail(f"saving videos: {bad}", {})
    shutil.rmtree(ctx.scratch / "killed")
    ctx.sample(dict(scenario=jobs[0][1], run=jobs[0][2]))
    ctx.assumptions += ["the external tool is a stand-in that fails in the modelled ways", "a killed process may leave its temporary files",
                        "a tool that reports success of an incomplete file cannot be told from one that works"]


def judge(ctx, job, seen, ends, pairs):
    _, sc, o, _, asked = job
    brief = dict(scenario=sc, run=o, observed={k: v for k, v in seen.items() if k != "drawn"})
    ctx.comparisons += 1
    ctx.trace()
    ctx.count(sc["kind"])
    for b in seen["bad"]:
        ctx.fail(f"saving {sc['kind']}: {b}", brief)
        return
    es = ends[json.dumps(sc, sort_keys=True)]
    if seen["raised"] and (not o["direct"] or all(not e["warned"] for e in es)):
        ctx.fail(f"saving {sc['kind']} raised {seen['raised']}", brief)
        return
    if not any(fits(e, seen, o["direct"]) for e in es):
        ctx.fail(f"saving {sc['kind']} ended in a way the specification does not allow: reported saved {seen['saved']}, "
                 f"warned {seen['warned']}, files {[x for x in seen['file'] if x[1] != 'none']}; allowed for instance {es[0]['file']}, "
                 f"saved {es[0]['saved']}, warned {es[0]['warned']}", brief)
        return
    want = pairs[(o["chans"], *(o["want"] if o["direct"] else (0, 1)))]
    if o["frames"] > 1:
        for cols in seen["mixed"]:
            if want[0] not in cols[0] or want[1] not in cols[1]:
                ctx.fail(f"of {o['chans']} channels, {o['want'] if o['direct'] else 'default'} asked for, the track is {cols}, specified are {want}", brief)
                return

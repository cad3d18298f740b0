"""C16: building datasets (Build.tla): histories of builds in one place.

TLC generates the histories; every build runs in an unprivileged child, some are
killed; what was on disk before and after each is judged by TLC, as are the
scenes themselves.
"""

from __future__ import annotations

import json
import os
import random
import subprocess
import sys

import numpy as np

from tv import builder, sandbox
from tv.core import REPO, VERIF


def requests(rng, k, roots):
    """Valid requests, small and different from each other."""
    out = []
    for i in range(k):
        n = rng.choice([1, 2, 3, 3, 6])
        spk = rng.sample(builder.SPEAKERS, rng.randrange(max(n, 2), 7))
        req = dict(cmu_root=roots[i % len(roots)], speakers=spk, n_scenes=rng.choice([1, 2, 3]), n_sources=n,
                   n_moving_sources=rng.randrange(0, n + 1), duration_sec=rng.choice([.2, .35, .5, .9]),
                   trajectory_steps=rng.choice([1, 2, 5, 12]), rir_samples=rng.choice([16, 40]), max_order=rng.choice([0, 1, 2]),
                   seed=(0, 2 ** 31)[i] if i < 2 else rng.randrange(1000), save_layout_mp4=False, save_layout_images=i % 8 == 7,
                   save_layout_images_3d=rng.random() < .5, randomize_mic_center=rng.random() < .6,
                   octa_edge_m=rng.choice([.2, 1.0]), annotate_source_indices=rng.random() < .5)
        if rng.random() < .4:
            req.update(room_size=rng.choice([[7.0, 9.0, 3.5], (8, 6, 3), np.array([9.0, 8.0, 2.6])]))
            if not req["randomize_mic_center"]:
                req["mic_center"] = [3.5, 3.2, 1.3]
        if i % len(roots) and i % 4 == 1:       # loud, and in step with each other
            n = rng.choice([3, 4, 6])
            req.update(n_sources=n, n_moving_sources=1, speakers=builder.SPEAKERS, duration_sec=.9, max_order=2, rir_samples=60,
                       n_scenes=2)
        out.append(req)
    return out


EARLY = [("no scenes", dict(n_scenes=0)), ("negative scenes", dict(n_scenes=-1)), ("no sources", dict(n_sources=0)),
         ("more moving than sources", dict(n_sources=2, n_moving_sources=3)), ("negative moving", dict(n_moving_sources=-1)),
         ("more sources than speakers", dict(n_sources=3, n_moving_sources=0, speakers=["bdl", "slt"])),
         ("no steps", dict(trajectory_steps=0)), ("no duration", dict(duration_sec=0.0)),
         ("negative duration", dict(duration_sec=-1.0)), ("less than a sample", dict(duration_sec=1e-6)),
         ("no response", dict(rir_samples=0)), ("absent corpus", dict(cmu_root="nowhere")),
         ("unknown speaker", dict(speakers=["bdl", "nobody", "slt"], n_sources=1, n_moving_sources=0)),
         ("speaker not on disk", dict(speakers=["bdl", "slt", "aew"], n_sources=1, n_moving_sources=0)),
         ("two-dimensional room", dict(room_size=[8.0, 6.0])), ("two-dimensional margin", dict(source_margin=[.5, .5])),
         ("array without extent", dict(octa_edge_m=0.0)), ("no reverberation time", dict(rt60=0.0)),
         ("no sound speed", dict(sound_speed=0.0)), ("negative room", dict(room_size=[-8.0, 6.0, 3.0])),
         ("microphones outside", dict(randomize_mic_center=False, mic_center=[4.0, 3.0, .2], octa_edge_m=1.0)),
         ("microphones beyond", dict(randomize_mic_center=False, mic_center=[7.9, 3.0, 1.5], octa_edge_m=1.0)),
         ("speaker without audio", dict(cmu_root="empty")), ("corpora of different rates", dict(cmu_root="rates"))]
LATE = [("margin too large", dict(source_margin=[3.0, 3.0, .3])), ("flat room", dict(source_margin=[.5, .5, 1.8])),
        ("motion ends before it starts", dict(move_start_ratio=.7, move_end_ratio=.6)),
        ("motion after the end", dict(move_end_ratio=1.2)), ("no speed", dict(moving_speed_min=0.0)),
        ("speeds the wrong way", dict(moving_speed_min=.8, moving_speed_max=.3)), ("negative order", dict(max_order=-1)),
        ("small room", dict(room_size=[3.0, 3.0, 3.0], mic_center=[1.5, 1.5, 1.5])),
        ("an utterance of another rate", dict(cmu_root="odd", duration_sec=4.0))]


class Place:
    """One directory for one history, with neighbours that must not change."""

    def __init__(self, ctx, n):
        self.w = sandbox.scratch_dir(ctx, f"h{n}")
        self.root = self.w / "out" / "ds"
        (self.w / "out").mkdir()
        (self.w / "out" / "neighbour").write_text("keep")
        (self.w / "out" / "ds2").mkdir()
        (self.w / "out" / "ds2" / "scene_0000").write_text("keep")
        (self.w / "tmp").mkdir()
        self.around = self.outside()

    def outside(self):
        return {k: v for k, v in sandbox.tree(self.w).items() if not (k + "/").startswith("out/ds/")}

    def fill(self, rng):
        """Something of the user's own."""
        self.root.mkdir()
        what = rng.choice(["empty", "file", "scene", "many"])
        if what != "empty":
            (self.root / "notes.txt").write_text("mine")
        if what in ("scene", "many"):
            (self.root / "scene_0000").mkdir()
            (self.root / "scene_0000" / "mixture.wav").write_bytes(b"not audio")
            (self.root / "scene_0000" / "source_09.wav").write_bytes(b"left over")
        if what == "many":
            (self.root / "scene_0007").mkdir()
            (self.root / "scene_0007" / "metadata.json").write_text("{}")
        sandbox.give(self.w)


def child_main():
    spec = json.load(sys.stdin)
    from pathlib import Path
    from torchrir.datasets import build_dynamic_cmu_arctic_dataset

    for i, kw in enumerate(spec["reqs"]):
        kw["cmu_root"] = Path(kw["cmu_root"])
        build_dynamic_cmu_arctic_dataset(**kw, dataset_root=Path(spec["root"]) / str(i))


def run(ctx):
    rng = ctx.rng
    builder.prepare()
    inv = ["Fine", "Unasked", "Complete"]
    depth = 3
    hists = ctx.tlc("MCBuild", constants=dict(Depth=depth, Flaw='""'), invariants=inv + ["Emit"], workers=1).records
    for flaw in ("eager", "merge", "force", "swallow"):
        r = ctx.tlc("MCBuild", constants=dict(Depth=2, Flaw=f'"{flaw}"'), invariants=inv, expect_ok=False,
                    label=f"MCBuild with flaw {flaw}")
        if not r.violated:
            raise AssertionError(f"the specification misses the flaw {flaw}")
    uniq, seen = [], set()
    for h in hists:
        key = json.dumps(h, sort_keys=True)
        if key not in seen:
            seen.add(key)
            uniq.append(h)
    ctx.count("histories_generated", len(uniq))
    rng.shuffle(uniq)

    fs = 1000
    base = ctx.scratch / "corpora"
    base.mkdir()
    roots = [builder.corpus(base / "quiet", 1, fs), builder.corpus(base / "loud", 2, fs, loud=True)]
    special = dict(odd=builder.corpus(base / "odd", 3, fs, odd="bdl"), empty=builder.corpus(base / "empty", 4, fs, empty="slt"),
                   rates=builder.corpus(base / "rates", 5, fs, speakers=["bdl", "slt"]), nowhere=base / "nowhere")
    builder_rate(special["rates"], fs)
    reqs = requests(rng, ctx.pick(12, 40), roots)

    # what each request means, and its scenes
    canon, scenes = [], []
    for i, kw in enumerate(reqs):
        p = Place(ctx, f"canon{i}")
        sandbox.give(p.w)
        ch = builder.start(p.w, dict(kw, dataset_root=p.root))
        ctx.comparisons += 1
        if ch.result[0] != "ok":
            ctx.fail(f"a valid request failed: {ch.result[1:3]}", repr(kw))
            return
        if ch.result[1] != [fs, 6]:
            ctx.fail(f"the build returned {ch.result[1]}", repr(kw))
        if ch.fetches:
            ctx.fail("a build without downloads used the network", repr(kw))
        canon.append(builder.content(p.root))
        top = sorted(x.name for x in p.root.iterdir())
        if top != [f"scene_{k:04d}" for k in range(kw["n_scenes"])]:
            ctx.fail(f"{kw['n_scenes']} scenes were requested, there are {top}", repr(kw))
        for d in sorted(p.root.iterdir()):
            scenes.append(dict(id=len(scenes), req=repr(kw), scene=builder.scene(d, kw, fs)))
            try:
                builder.descriptions(d)
            except Exception as exc:  # noqa: BLE001
                ctx.fail(f"descriptions of {d.name}: {exc!r}", repr(kw))
        sandbox.wipe(p.w)
    if len({json.dumps(c, default=repr, sort_keys=True) for c in canon}) != len(canon):
        ctx.fail("different requests gave the same dataset")
    verdict = ctx.tlc("BuildTrace", cases=[dict(id=s["id"], scene=s["scene"]) for s in scenes], label="BuildTrace scenes").records
    for s, v in zip(scenes, verdict):
        ctx.comparisons += 1
        ctx.count("scenes")
        if v["wrong"]:
            ctx.fail(f"a scene has {v['wrong']}: {s['scene']}"[:400], s["req"])

    # the same in other processes
    other = ctx.scratch / "other"
    other.mkdir()
    pick = [i for i, r in enumerate(reqs) if not isinstance(r.get("room_size"), np.ndarray)][: ctx.pick(4, 12)]
    for hs in ("1", "77"):
        p = subprocess.run([sys.executable, "-c", "from tv.checks.c16 import child_main; child_main()"],
                           input=json.dumps(dict(root=str(other / hs), reqs=[dict(reqs[i], cmu_root=str(reqs[i]["cmu_root"])) for i in pick])),
                           text=True, capture_output=True, cwd=VERIF,
                           env=dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=f"{REPO}/src:{VERIF}", OMP_NUM_THREADS="1"))
        ctx.comparisons += len(pick)
        if p.returncode:
            ctx.fail(f"a build failed in a process of its own: {p.stderr[-300:]}")
            continue
        for k, i in enumerate(pick):
            got = builder.content(other / hs / str(k))
            if got != canon[i]:
                diff = sorted(x for x in set(got) | set(canon[i]) if got.get(x) != canon[i].get(x))
                ctx.fail(f"the same request gives another dataset in another process: {diff[:4]}", repr(reqs[i]))
    sandbox.wipe(other)

    # histories
    early, late, traces = list(EARLY), list(LATE), []
    n = ctx.pick(60, 450)
    for k, h in enumerate(uniq[:n]):
        place = Place(ctx, k)
        if h["first"] == "kept":
            place.fill(rng)
        sandbox.give(place.w)
        names = dict(zip("AB", rng.sample([i for i in range(len(reqs)) if not reqs[i]["save_layout_images"]], 2))
                     if any(o["fault"] == "disk" for o in h["hist"]) else zip("AB", rng.sample(range(len(reqs)), 2)))
        kept = builder.content(place.root) if h["first"] == "kept" else None
        steps, notes, mess = [], [], None

        def state():
            if not place.root.exists():
                return dict(k="absent", req="")
            c = builder.content(place.root)
            for nm, i in names.items():
                if c == canon[i]:
                    return dict(k="data", req=nm)
            if c == kept:
                return dict(k="kept", req="")
            return dict(k="mess", req="")
        for op in h["hist"]:
            kw = dict(reqs[names[op["req"]]])
            what = ""
            if op["valid"] != "yes":
                pool, full = (early, EARLY) if op["valid"] == "early" else (late, LATE)
                if not pool:
                    pool.extend(full)
                what, change = pool.pop(rng.randrange(len(pool)))
                if "n_sources" not in change and what in ("speaker without audio", "corpora of different rates"):
                    change = dict(change, speakers=["bdl", "slt"], n_sources=1, n_moving_sources=0)
                if "room_size" in kw and "mic_center" in change:
                    kw.pop("room_size")
                if what == "an utterance of another rate":
                    change = dict(change, speakers=["bdl"], n_sources=1, n_moving_sources=0)
                if what in ("motion ends before it starts", "motion after the end", "no speed", "speeds the wrong way"):
                    kw["n_moving_sources"] = kw["n_sources"]
                kw.update(change)
                if isinstance(kw["cmu_root"], str):
                    kw["cmu_root"] = special[kw["cmu_root"]]
            before, raw = state(), sandbox.tree(place.root)
            random.seed(rng.random())
            np.random.seed(rng.randrange(1000))
            fault = {}
            if op["fault"] == "kill":
                fault = dict(kill_at=int(2 ** rng.uniform(0, 7)))
            elif op["fault"] == "disk":
                kw["save_layout_images"] = False        # a picture that cannot be drawn is only reported
                fault = rng.choice([dict(fail_at=int(2 ** rng.uniform(0, 7)), fail_for=rng.choice([1, 2, 10 ** 6])),
                                    dict(fsize=rng.choice([0, 30, 44, 200, 600, 1000, 2000, 5000, 10000]))])
            ch = builder.start(place.w, dict(kw, dataset_root=place.root, overwrite=op["ow"]), **fault)
            end = {"ok": "ok", "err": "error", "killed": "killed"}[ch.result[0]]
            after = state()
            if after["k"] == "mess" and sandbox.tree(place.root) == raw:
                after = before
            elif after == dict(k="mess", req="") and before["k"] == "mess":
                after = dict(k="mess", req="")
            if before["k"] == after["k"] == "mess" and sandbox.tree(place.root) != raw:
                # leftovers replaced by other leftovers: for the model a change
                before = dict(k="kept", req="")
            steps.append(dict(before=before, op=op, end=end, after=after))
            notes.append(dict(what=what, fault=fault, result=repr(ch.result[:3])[:200], kw=repr(kw)))
            ctx.count(f"end_{end}")
            if op["fault"] == "disk":
                ctx.count(f"refusing_disk_{end}")
        if place.outside() != place.around:
            a, b = place.outside(), place.around
            ctx.fail(f"a build changed something outside its root: {[x for x in set(a) | set(b) if a.get(x) != b.get(x)][:4]}", notes)
        traces.append(dict(id=k, steps=steps, notes=notes))
        ctx.trace()
        sandbox.wipe(place.w)
    # every single effect of a build refused once, then building again
    i = min((k for k in range(len(reqs)) if not reqs[k]["save_layout_images"]), key=lambda k: (reqs[k]["n_scenes"], reqs[k]["n_sources"]))
    place = Place(ctx, "total")
    sandbox.give(place.w)
    total = builder.start(place.w, dict(reqs[i], dataset_root=place.root)).count
    sandbox.wipe(place.w)
    pts = list(range(1, total + 1))
    ctx.count("effects_of_a_build", total)
    for k in pts if total <= ctx.pick(60, 400) else sorted(rng.sample(pts, ctx.pick(60, 400))):
        place = Place(ctx, f"refuse{k}")
        sandbox.give(place.w)
        steps, notes, before = [], [], dict(k="absent", req="")
        for fault, op in ((dict(fail_at=k), dict(req="A", valid="yes", ow=False, fault="disk")),
                          ({}, dict(req="A", valid="yes", ow=True, fault="none"))):
            ch = builder.start(place.w, dict(reqs[i], dataset_root=place.root, overwrite=op["ow"]), **fault)
            after = dict(k="absent", req="") if not place.root.exists() else \
                dict(k="data", req="A") if builder.content(place.root) == canon[i] else dict(k="mess", req="")
            steps.append(dict(before=before, op=op, end={"ok": "ok", "err": "error"}[ch.result[0]], after=after))
            notes.append(dict(what="", fault=fault, result=repr(ch.result[:3])[:200], kw=repr(reqs[i])))
            before = after
        if place.outside() != place.around:
            ctx.fail("a build on a failing disk changed something outside its root", notes)
        traces.append(dict(id=len(traces), steps=steps, notes=notes))
        ctx.trace()
        sandbox.wipe(place.w)
    verdict = ctx.tlc("BuildTrace", cases=[dict(id=t["id"], steps=t["steps"]) for t in traces], label="BuildTrace histories").records
    if len(verdict) != len(traces):
        raise AssertionError("verdicts missing")
    for t, v in zip(traces, verdict):
        ctx.comparisons += len(t["steps"])
        for b in sorted(v["bad"])[:1]:
            s = t["steps"][b - 1]
            ctx.fail(f"build {b} of a history ({t['notes'][b - 1]['what'] or 'valid'}, overwrite={s['op']['ow']}): from "
                     f"{s['before']} it ended '{s['end']}' leaving {s['after']}: {t['notes'][b - 1]['result']}", t)
        if ctx.enough():
            return
    # every kind of invalid request at least once, from nothing
    left = [(w, c, "early") for w, c in EARLY] + [(w, c, "late") for w, c in LATE]
    for w, c, kind in left:
        place = Place(ctx, f"inv{len(ctx.cover)}{w.replace(' ', '')}")
        sandbox.give(place.w)
        kw = dict(reqs[0], cmu_root=roots[0], n_sources=2, n_moving_sources=1, speakers=["bdl", "slt", "clb"])
        kw.pop("room_size", None), kw.pop("mic_center", None)
        kw.update(c)
        if w in ("speaker without audio", "corpora of different rates"):
            kw.update(speakers=["bdl", "slt"], n_sources=1, n_moving_sources=0)
        if w == "an utterance of another rate":
            kw.update(speakers=["bdl"], n_sources=1, n_moving_sources=0)
        if isinstance(kw["cmu_root"], str):
            kw["cmu_root"] = special[kw["cmu_root"]]
        ch = builder.start(place.w, dict(kw, dataset_root=place.root))
        ctx.comparisons += 1
        if ch.result[0] != "err":
            ctx.fail(f"an invalid request ({w}) was built: {ch.result}", repr(kw))
        elif kind == "early" and place.root.exists():
            ctx.fail(f"a refused request ({w}) left something behind", repr(kw))
        sandbox.wipe(place.w)
        if ctx.enough():
            return
    ctx.sample(dict(history=traces[0]["steps"]))
    ctx.sample(dict(scene=scenes[0]["scene"]))
    ctx.assumptions += ["a request for which no placement is found may leave the directory empty, partial or untouched "
                        "(only when overwriting was allowed or nothing was there)",
                        "images are compared by name, not by pixels; no video tool is installed here"]


def builder_rate(root, fs):
    """Give one speaker of a corpus another sampling rate throughout."""
    import soundfile as sf

    d = root / "ARCTIC" / "cmu_us_slt_arctic" / "wav"
    d.chmod(0o755)
    for p in d.iterdir():
        p.chmod(0o644)
        x, _ = sf.read(p)
        sf.write(p, x, 2 * fs)
        p.chmod(0o444)
    d.chmod(0o555)

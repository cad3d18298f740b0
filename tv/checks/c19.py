"""C19: scene descriptions (Metadata.tla): TLC says what each scene's description holds."""

from __future__ import annotations

import json
import logging
import math
from pathlib import Path

import numpy as np
import torch

from tv import disk
from tv.core import call

EPS = {"float32": 1.2e-7, "float64": 2.3e-16}


def pts(rng, n, dim, L, taken=()):
    out = []
    while len(out) < n:
        p = [rng.randint(1, L[a] - 1) for a in range(dim)]
        r = rng.random()
        if out and r < .15:                 # same column, same height, axis-aligned neighbours
            p = list(rng.choice(out + list(taken)))
            a = rng.randrange(dim)
            p[a] = rng.randint(1, L[a] - 1)
        elif taken and r < .3:
            p = list(rng.choice(taken))
            p[-1] = rng.randint(1, L[-1] - 1)
        if p not in out and p not in taken:
            out.append(p)
    return out


def scene(rng, many=False):
    dim = rng.choice([2, 3, 3])
    L = [rng.randint(120, 1500) for _ in range(dim)]
    ns = rng.choice([1, 1, 2, 3, 5])
    nm = rng.choice([26, 32, 40, 64]) if many else rng.choice([1, 1, 2, 2, 3, 4, 8, 25])
    src = pts(rng, ns, dim, L)
    mic = pts(rng, nm, dim, L, tuple(src))
    T = rng.choice([1, 2, 3, 5, 9])
    kinds = rng.choice(["none", "none", "src", "mic", "both", "both", "one", "clash", "count", "dim"])

    def walk(pos, T):
        move = rng.choice(["all", "one", "still"])
        k = rng.randrange(len(pos))
        home = rng.random() < .6
        return [[list(p) if move == "still" or (move == "one" and i != k) or (t == 0 and home) else
                 [rng.randint(1, L[a] - 1) for a in range(dim)] for i, p in enumerate(pos)] for t in range(T)]

    st = walk(src, T) if kinds in ("src", "both", "clash") else []
    mt = walk(mic, T) if kinds in ("mic", "both") else []
    if kinds == "one":
        st, mt = walk(src, rng.choice([1, T])), walk(mic, 1)
        if rng.random() < .5:
            st, mt = walk(src, 1), walk(mic, rng.choice([1, T]))
    if kinds == "clash":
        mt = walk(mic, rng.choice([T + 1, T + 3, max(2, T - 1)]))
    if kinds == "count":
        w = rng.choice(["src", "mic"])
        pos = src if w == "src" else mic
        k = rng.choice([len(pos) + 1, len(pos) + 2] + [len(pos) - 1] * (len(pos) > 1))
        bad = walk([pos[i % len(pos)] for i in range(k)], T)
        st, mt = (bad, rng.choice([[], walk(mic, T)])) if w == "src" else (rng.choice([[], walk(src, T)]), bad)
    if kinds == "dim":
        bad = [[p[:-1] if rng.random() < 2 else p for p in f] for f in walk(src, T)]
        st = bad
    return dict(unit=rng.choice([.01, .01, 1e-3, 1e-4, .25]), dim=dim, L=L, src=src, mic=mic, srcTraj=st, micTraj=mt, given=rng.random() < .25,
                len=rng.choice([-1, 0, 1, 2, 100, 16000, rng.randint(1, 10 ** 6)]) if T < 9 else rng.choice([-1, 48000]),
                fs=rng.choice([8000, 16000, 44100, 16000.5, 1, 48000]), c=rng.choice([343.0, 340, 1]),
                wall=rng.choice(["none", "beta", "beta", "t60", "t60", "inf"]), n=rng.choice([1, 2, 10, 500]),
                dtype=rng.choice(["float32", "float32", "float64"]), slim=rng.random() < .5,
                so=rng.choice(["none", "one", "each", "angles", "zero"]), mo=rng.choice(["none", "one", "each", "angles", "zero"]),
                extra=rng.choice(EXTRAS), info=rng.choice(EXTRAS), grad=rng.random() < .1)


EXTRAS = [None, {}, {"a": 1, "b": [1.5, "x", None, True]}, {"p": Path("/x/y"), "t": torch.tensor([[1, 2], [3, 4]])},
          {"nested": {"d": (1, 2), "e": [torch.tensor(1.5), {"q": Path("z")}]}}, {"np": np.arange(3), "f": np.float32(.5)},
          {"uni": "çæ日本\n\"q\""}, {"dtype": [np.int64(3), np.bool_(True)]}, {"room": "mine", "dynamic": "often", "doa": None, "array": [], "extra": 1}, {"big": np.array([2 ** 60 + 1, 3]), "s": np.array(["a", "b"])},
          {"bad": float("inf")}, {"bad": torch.tensor([1.0, float("nan")])}]
ODD = ("bad",)


def plain(v):
    """What a value becomes in the description; numbers JSON cannot hold are not judged."""
    if torch.is_tensor(v) or isinstance(v, (np.ndarray, np.generic)):
        return v.tolist()
    if isinstance(v, Path):
        return str(v)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def build(c, rng):
    from torchrir import MicrophoneArray, Room, Source

    dt = getattr(torch, c["dtype"])
    T = lambda p: (torch.tensor(p, dtype=torch.float64) * c["unit"]).to(dt)
    wall = {}
    if c["wall"] == "beta":
        wall["beta"] = torch.tensor([(i + 1) / 10 for i in range(2 * c["dim"])], dtype=dt)
    elif c["wall"] in ("t60", "inf"):
        wall["t60"] = .4 if c["wall"] == "t60" else math.inf
    room = Room(size=T(c["L"]), fs=c["fs"], c=c["c"], **wall)

    def ori(how, n):
        if how == "none":
            return None
        v = torch.tensor([[math.cos(i), math.sin(i), .5][:c["dim"]] for i in range(n)], dtype=dt)
        if how in ("angles", "zero"):           # an azimuth, or an azimuth and an elevation, each
            v = torch.tensor([[i * .3 - 1, .1 * i][:c["dim"] - 1] for i in range(n)], dtype=dt) * (how == "angles")
        return v[0] if how == "one" else v

    so, mo = ori(c["so"], len(c["src"])), ori(c["mo"], len(c["mic"]))
    kw = {}
    for k, w in (("src_traj", "srcTraj"), ("mic_traj", "micTraj")):
        if c[w]:
            t = T(c[w])
            if c["grad"]:
                t = t.requires_grad_()
            kw[k] = t[:, 0] if c["slim"] and t.shape[1] == 1 else t
    if c["len"] >= 0:
        kw["signal_len"] = c["len"]
    steps = max(len(c["srcTraj"]) or 1, len(c["micTraj"]) or 1)
    if c["given"]:
        kw["timestamps"] = torch.tensor([.5 * i * i for i in range(steps)], dtype=torch.float64)
    if c["extra"] is not None:
        kw["extra"] = c["extra"]
    if c["info"] is not None:
        kw["source_info"] = c["info"] if c["dim"] == 2 else [c["info"], c["info"]]
    shape = (len(c["src"]), len(c["mic"]), c["n"])
    kw["rirs"] = torch.zeros(shape if steps == 1 and not (c["srcTraj"] or c["micTraj"]) else shape if steps == 1 and rng.random() < .5 else (steps, *shape), dtype=dt)
    return room, Source(T(c["src"]), so), MicrophoneArray(T(c["mic"]), mo), kw


def strict(text):
    def no(x):
        raise ValueError(f"{x} is not JSON")
    return json.loads(text, parse_constant=no)


def near(a, b, tol):
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


class Log(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, r):
        self.lines.append((r.levelno, r.getMessage()))


def one(ctx, c, rec, d, k):
    from torchrir.io import build_metadata, save_metadata_json, save_scene_metadata

    rng = ctx.rng
    room, src, mic, kw = build(c, rng)
    path = d / rng.choice(["m.json", "a/b/m.json", f"x{k % 3}.json"])
    before = path.read_text() if path.exists() else None
    how = rng.choice(["scene", "scene", "two"])
    lg = Log()
    log = logging.Logger("x", 0)
    log.addHandler(lg)

    def go():
        if how == "scene":
            return save_scene_metadata(out_dir=path.parent, metadata_name=path.name, room=room, sources=src, mics=mic,
                                       **kw, **({"logger": log} if k % 2 else {}))
        m = build_metadata(room=room, sources=src, mics=mic, **kw)
        save_metadata_json(path, m)
        return m

    case = {x: c[x] for x in c if x not in ("extra", "info")}
    case["extras"] = repr((c["extra"], c["info"]))
    st, m = call(go)
    ctx.comparisons += 1
    odd = any(isinstance(e, dict) and any(o in e for o in ODD) for e in (c["extra"], c["info"]))
    if not rec["ok"]:
        if st == "ok":
            ctx.fail("contradictory trajectories were described instead of rejected", case)
        return ctx.trace()
    if st == "err":
        if not odd:
            return ctx.fail(f"describing the scene raised {type(m).__name__}: {m}", case)
        left = path.read_text() if path.exists() else None
        if left != before:
            ctx.fail("a description that could not be written damaged the file", case)
        return ctx.trace()
    try:
        f = strict(path.read_text(encoding="utf-8"))
    except ValueError as e:
        return ctx.fail(f"the description is not valid JSON: {e}", case)
    if how == "scene" and k % 2 and not any(str(path) in x for _, x in lg.lines):
        ctx.fail("the log does not say what was saved", case)
    if json.dumps(f, sort_keys=True) != json.dumps(json.loads(json.dumps(m)), sort_keys=True) and not odd:
        ctx.fail("the returned description differs from the written one", case)

    def need(ok, what):
        ctx.comparisons += 1
        if not ok:
            ctx.fail(f"{what}", case)

    try:
        body(ctx, c, rec, f, room, src, mic, kw, need, odd)
    except (KeyError, IndexError, TypeError) as e:
        ctx.fail(f"the description lacks a part: {e!r}", case)
    ctx.trace()


def body(ctx, c, rec, f, room, src, mic, kw, need, odd):
    fs, dim = float(c["fs"]), c["dim"]
    r = f["room"]
    need(r["size"] == room.size.tolist() and r["fs"] == fs and r["c"] == float(c["c"]), "room size, rate or sound speed differ")
    need(r["beta"] == (room.beta.tolist() if room.beta is not None else None), "reflection coefficients differ")
    if c["wall"] != "inf":
        need(r["t60"] == room.t60, "reverberation time differs")
    for k, dev in (("sources", src), ("mics", mic)):
        need(f[k]["positions"] == dev.positions.tolist(), f"positions of {k} differ")
        need(f[k]["orientation"] == (None if dev.orientation is None else dev.orientation.tolist()), f"orientation of {k} differs")
    need(f["array"]["positions"] == mic.positions.tolist(), "array positions differ")
    need(f["array"]["orientation"] == f["mics"]["orientation"], "array orientation differs")
    need(f["dynamic"] is rec["dynamic"], f"dynamic is {f['dynamic']}, the scene has {rec['steps']} steps")
    tol = EPS[c["dtype"]] * 20
    for k, w in (("sources", "src"), ("mics", "mic")):
        got = f["trajectories"][k]
        if rec["dynamic"]:
            dt = getattr(torch, c["dtype"])
            want = (torch.tensor(rec[w], dtype=torch.float64) * c["unit"]).to(dt).tolist()
            need(got == want, f"trajectory of {k} differs from the scene's")
        else:
            need(got is None, f"trajectory of {k} in a scene of one step")
    n = len(c["mic"])
    need(near(f["array"]["center"], np.array(rec["centre"]) * c["unit"] / n, tol * 20), "array centre differs")
    sp = f["array"]["spacing"]
    if n == 1:
        need(sp is None, "spacing of a single microphone")
    else:
        need(sp is not None and abs(sp - math.sqrt(rec["spacing"]) * c["unit"]) <= tol * 20 * max(c["L"]) * c["unit"] / 3,
             f"smallest spacing {sp}, the scene has {math.sqrt(rec['spacing']) * c['unit']}")
    need(f["array"]["geometry"] == rec["geometry"], "geometry name differs")
    doa = np.array(rec["doa"], float)
    az, el = np.asarray(f["doa"]["azimuth"], float), np.asarray(f["doa"]["elevation"], float)
    need(az.shape == doa.shape[:3] and el.shape == az.shape, f"directions of shape {az.shape}")
    if az.shape == doa.shape[:3] == el.shape:
        h = np.hypot(doa[..., 0], doa[..., 1])
        dist = np.sqrt((doa ** 2).sum(-1))
        a = np.arctan2(doa[..., 1], doa[..., 0])
        z = doa[..., 2] if dim == 3 else 0 * h
        e = np.arctan2(z, h)
        slack = 4 * EPS[c["dtype"]] * max(c["L"])
        da = np.abs((az - a + math.pi) % (2 * math.pi) - math.pi)
        bad = (h > 0) & (da > slack / np.maximum(h, 1) + 1e-6)
        need(not bad.any() and np.isfinite(az).all(), "an azimuth is not that of the source seen from the microphone")
        bad = (dist > 0) & (np.abs(el - e) > slack / np.maximum(dist, 1) + (1e-6 if dim == 3 else 0))
        need(not bad.any() and np.isfinite(el).all(), "an elevation is not that of the source seen from the microphone")
        need(bool(np.all(np.abs(az) <= math.pi + 1e-6)), "azimuth outside (-pi, pi]")
    ts = f["timestamps"]
    if rec["times"]["kind"] == "none":
        need(ts is None, "timestamps in a scene that has none")
    elif rec["times"]["kind"] == "given":
        need(ts == kw["timestamps"].tolist(), "timestamps differ from the given ones")
    else:
        want = np.array(rec["times"]["num"]) / (rec["steps"] - 1) / fs
        need(ts is not None and near(ts, want, 1e-6 * max(1.0, want[-1])), "timestamps are not evenly spaced over the signal")
    need(f["rirs_shape"] == list(kw["rirs"].shape), "response shape differs")
    t = f["time_axis"]
    need(t["fs"] == fs and t["nsample"] == c["n"] and near(t["t"], np.arange(c["n"]) / fs, 1e-6 * max(1, c["n"] / fs)), "sample times differ")
    if not odd:
        if c["extra"]:
            need(f["extra"] == plain(c["extra"]), "extra data differ")
        if c["info"] is not None:
            need(f["source_info"] == plain(kw["source_info"]), "source information differs")


def unwritable(ctx, d):
    """What cannot be written leaves an existing description as it was, and no half of one."""
    from torchrir.io import save_metadata_json

    for bad in ({"a": [1, 2], "z": object()}, {"a": 1, "z": {1, 2}}, {"a": "x" * 5000, "z": lambda: 0}, {"a": {(1, 2): 3}}):
        for old in (None, '{"kept": true}'):
            p = d / "old.json"
            p.unlink(missing_ok=True)
            if old is not None:
                p.write_text(old)
            st, e = call(save_metadata_json, p, bad)
            ctx.comparisons += 1
            if p.exists():
                try:
                    strict(p.read_text())
                except ValueError as x:
                    ctx.fail(f"the description file is not valid JSON: {x}", dict(bad=repr(bad)[:80], old=old))
                    continue
                if st == "err" and p.read_text() != (old or ""):
                    ctx.fail("a description that could not be written damaged the file", dict(bad=repr(bad)[:80], old=old))


def small_disks(ctx):
    """A description is stored whole, or storing it raises (Store.tla)."""
    import torch
    from torchrir import MicrophoneArray, Room, Source
    from torchrir.datasets import attribution_for
    from torchrir.io import save_attribution_file, save_metadata_json, save_scene_metadata

    meta = {"a": list(range(400)), "b": "x" * 300}
    att = attribution_for("librispeech", "dev-clean")
    big = {"k": [[.5] * 30] * 200}
    scene = dict(metadata_name="x.json", room=Room.shoebox(size=[6., 5., 3.], fs=8000.),
                 sources=Source.from_positions([[1., 1., 1.]]), mics=MicrophoneArray.from_positions([[2., 2., 1.]]),
                 rirs=torch.zeros(1, 1, 50), signal_len=400)

    disk.stores(ctx, [
        ("save_metadata_json", lambda root: save_metadata_json(root / "x.json", meta), None),
        ("save_metadata_json (large)", lambda root: save_metadata_json(root / "new" / "x.json", big), None),
        ("save_scene_metadata", lambda root: save_scene_metadata(out_dir=root / "s", **scene), None),
        ("save_attribution_file", lambda root: save_attribution_file(
            out_dir=root, dataset_attribution=att, modifications=["m"] * 30), None),
    ], ctx.pick(8, 120))


def real_arrays(ctx, d):
    """Descriptions of named arrays: the smallest spacing as computed in exact arithmetic."""
    from torchrir import MicrophoneArray, Room, Source
    from torchrir.geometry import arrays as A
    from torchrir.io import build_metadata

    rng = ctx.rng
    room = Room.shoebox([9.0, 8.0, 4.0], fs=16000, t60=.3)
    for make in (lambda c: A.eigenmike_em32(c), lambda c: A.eigenmike_em64(c), lambda c: A.polyhedron_array(c, kind="dodecahedron"),
                 lambda c: A.linear_array(c, num=40, spacing=.02), lambda c: A.circular_array(c, num=60, radius=.3)):
        for dt in (torch.float32, torch.float64):
            c = [rng.uniform(1, 7), rng.uniform(1, 6), rng.uniform(1, 3)]
            p = make(torch.tensor(c, dtype=dt))
            st, m = call(lambda: build_metadata(room=room, sources=Source.from_positions([[1.0, 1.0, 1.0]]),
                                                mics=MicrophoneArray.from_positions(p), rirs=torch.zeros(1, len(p), 4)))
            q = p.double()
            w = ((q[:, None] - q[None]).norm(dim=-1) + 9 * torch.eye(len(q), dtype=torch.float64)).min().item()
            ctx.comparisons += 1
            if st == "err" or m["array"]["spacing"] is None or abs(m["array"]["spacing"] - w) > 1e-5:
                ctx.fail(f"smallest spacing {m if st == 'err' else m['array']['spacing']} of an array of {len(p)} whose spacing is {w}", dict(n=len(p), centre=c))


def attribution(ctx, d):
    from torchrir.datasets.attribution import DatasetAttribution, attribution_for, default_modification_notes
    from torchrir.io import save_attribution_file

    rng = ctx.rng
    req = ["dataset", "source", "license_name", "license_url", "required_attribution"]
    word = lambda: rng.choice(["Name", "über ß", "http://x/y", "CC BY 4.0: terms", "a - b", "{x}", "%s"]) + str(rng.randrange(99))

    class Own:
        def __init__(self, m):
            self.m = m

        def to_dict(self):
            return dict(self.m)

    for k in range(ctx.pick(150, 800)):
        full = {x: word() for x in req}
        if rng.random() < .5:
            full["subset"] = rng.choice([None, "dev-clean", word()])
        full["dataset_key"] = "k"
        drop = rng.choice([None, None] + req)
        m = {x: v for x, v in full.items() if x != drop}
        form = rng.choice(["map", "own", "data"])
        if form == "data":
            drop, m = None, full
            arg = DatasetAttribution(**{x: full[x] for x in full})
        else:
            arg = dict(m) if form == "map" else Own(m)
        notes = [word() for _ in range(rng.choice([0, 1, 3]))]
        name = rng.choice([None, "NOTICE.md"])
        o = d / f"at{k % 7}" / rng.choice(["", "deep"])
        p = o / (name or "ATTRIBUTION.txt")
        p.unlink(missing_ok=True)
        st, r = call(lambda: save_attribution_file(out_dir=o, dataset_attribution=arg, modifications=notes, **({"attribution_name": name} if name else {})))
        case = dict(given=m, notes=notes, form=form)
        ctx.comparisons += 1
        ctx.trace()
        if drop:
            if st == "ok" or p.exists():
                ctx.fail(f"attribution without {drop} was accepted", case)
            continue
        if st == "err" or not p.exists() or Path(r) != p:
            ctx.fail(f"attribution was not written: {r!r}", case)
            continue
        text = p.read_text(encoding="utf-8")
        want = [m[x] for x in req] + notes + ([m["subset"]] if m.get("subset") is not None else [])
        for w in want:
            if not any(line.endswith(w) for line in text.splitlines()):
                ctx.fail(f"the attribution file does not state {w!r}", case)
        if m.get("subset") is None and "ubset" in text:
            ctx.fail("the attribution file names a subset although there is none", case)
    for dyn in (False, True):
        st, notes = call(lambda: default_modification_notes(dynamic=dyn))
        ctx.comparisons += 1
        said = " ".join(notes).lower() if st == "ok" else ""
        if ("dynamic" in said, "static" in said) != (dyn, not dyn):
            ctx.fail(f"the notes for {'moving' if dyn else 'fixed'} devices say {notes!r}", dict(dynamic=dyn))
    for key, sub in (("cmu_arctic", None), ("librispeech", None), ("librispeech", "dev-clean"), ("CMU_ARCTIC", None), ("LibriSpeech", "x")):
        st, a = call(attribution_for, key, sub)
        ctx.comparisons += 1
        if st == "err":
            ctx.fail(f"no attribution for {key}: {a!r}", dict(key=key))
            continue
        if a.dataset_key != key.lower() or key.lower().split("_")[-1] not in a.dataset.lower() or not a.attribution_required:
            ctx.fail(f"the attribution of {key} is that of {a.dataset!r} ({a.dataset_key})", dict(key=key))
        p = d / "each" / "ATTRIBUTION.txt"
        st, r = call(lambda: save_attribution_file(out_dir=p.parent, dataset_attribution=a, modifications=["m"]))
        text = p.read_text() if st == "ok" else ""
        for w in [a.dataset, a.source, a.license_name, a.license_url, a.required_attribution] + ([sub] if sub else []):
            if not w or w not in text:
                ctx.fail(f"attribution of {key} lacks {w!r}", dict(key=key, sub=sub))
    for bad in ("timit", "", "cmu", "cmu-arctic"):
        st, a = call(attribution_for, bad)
        if st == "ok":
            ctx.fail(f"attribution invented for {bad!r}", dict(key=bad))
    for bad in (None, 3, ["dataset"], object()):
        st, a = call(lambda: save_attribution_file(out_dir=d / "none", dataset_attribution=bad, modifications=[]))
        if st == "ok":
            ctx.fail("attribution accepted from nothing", dict(given=repr(bad)))


def run(ctx):
    inv = ["StepsAgree", "DynamicIff", "Still", "Contradiction", "WrongCount", "Opposite", "Even", "Spacing"]
    mc = dict(NPos=1, MaxT=ctx.pick(2, 3))
    ctx.tlc("MCMetadata", constants=dict(mc, Flaw='"none"'), invariants=inv, workers=4)
    for flaw, hit in (("given", "DynamicIff"), ("sources", "StepsAgree")):
        r = ctx.tlc("MCMetadata", constants=dict(mc, Flaw=f'"{flaw}"'), invariants=[hit], expect_ok=False, workers=2)
        assert r.violated, flaw
    rng = ctx.rng
    cases = [scene(rng, many=k % 12 == 0) for k in range(ctx.pick(500, 4000))]
    send = [dict({x: c[x] for x in ("dim", "src", "mic", "srcTraj", "micTraj", "given", "len")}, id=i) for i, c in enumerate(cases)]
    recs = {r["id"]: r for r in ctx.tlc("MetadataEval", cases=send).records}
    d = ctx.scratch / "meta"
    d.mkdir()
    for i, c in enumerate(cases):
        one(ctx, c, recs[i], d, i)
        if ctx.enough():
            return
    unwritable(ctx, d)
    small_disks(ctx)
    real_arrays(ctx, d)
    attribution(ctx, d)
    ctx.sample(send[1])
    ctx.assumptions += ["coincident microphones and infinite sampling rate or sound speed are not judged",
                        "angles judged to rounding of the stored positions; straight above the azimuth is free"]

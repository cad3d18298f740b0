"""C18: audio files (Audio.tla): what TLC says a file holds, against the file."""

from __future__ import annotations

import logging
import math
from pathlib import Path

import numpy as np
import soundfile as sf

from tv import disk
from tv.core import call

KINDS = [("wav", None), ("wav", "PCM_16"), ("wav", "PCM_24"), ("wav", "PCM_32"), ("wav", "PCM_U8"), ("wav", "FLOAT"),
         ("wav", "DOUBLE"), ("wav", "ULAW"), ("wav", "ALAW"), ("wave", None), ("wave", "FLOAT"), ("flac", None), ("flac", "PCM_16"), ("flac", "PCM_24"),
         ("flac", "PCM_S8"), ("aiff", "PCM_24"), ("w64", "FLOAT"), ("caf", "PCM_16"), ("au", "DOUBLE"), ("au", None)]
STEP = {"PCM_S8": 2 ** -7, "PCM_U8": 2 ** -7, "PCM_16": 2 ** -15, "PCM_24": 2 ** -23, "PCM_32": 2 ** -24, "FLOAT": 0, "DOUBLE": 0}
FIXED = {"FLOAT", "DOUBLE"}


def recase(s, how):
    return dict(lower=s.lower(), upper=s.upper(), mixed="".join(c.upper() if i % 2 == 0 else c for i, c in enumerate(s)))[how]


def case(rng, i):
    kind, sub = rng.choice(KINDS)
    lay = rng.choice(["mono", "channels", "channels", "frames", "frames"])
    most = 8 if kind == "flac" else 24
    ch = rng.choice([1, 2, 3, 4, 6, 8, rng.randint(1, most), most])
    n = rng.choice([0, 1, 2, 5, 9, 16, 25, 100, rng.randint(1, 3000)]) if kind in ("wav", "wave") else rng.choice([16, 30, 100, 800])
    if lay == "channels":
        n = max(n, ch + 1) if ch > 8 else n
        shape = [ch, n]
    elif lay == "frames":
        n = max(n, 9, ch + (ch > 8))
        shape = [n, ch]
    else:
        shape = [n]
    eff = sub or "PCM_16"
    norm = rng.random() < .55
    unit = rng.choice([4096, 4096, 2 ** 20, 2 ** 30, 1])
    cap = min(unit, 2 ** 20)
    top = rng.choice([cap, max(1, cap // 2), min(cap, 100)])
    if eff in FIXED and rng.random() < .3 or norm:
        top = rng.choice([top, 3 * cap])
    cells = shape[0] * (shape[1] if len(shape) == 2 else 1)
    nz = []
    if cells and rng.random() < .93:
        pos = rng.sample(range(cells), min(cells, rng.choice([1, 2, 12, 40])))
        edge = [0, cells - 1, (shape[1] - 1) if len(shape) == 2 else 0]
        for p in sorted(set(pos) | set(rng.sample(edge, 2))):
            v = rng.choice([top, -top, rng.randint(-top, top)])
            if v:
                nz.append([p // shape[1] + 1, p % shape[1] + 1, v] if len(shape) == 2 else [p + 1, 1, v])
    peak = rng.choice([[1, 1], [1, 1], [1, 2], [9, 10], [1, 100], [0, 1], [-1, 2]]) if norm else rng.choice([[1, 1], [0, 1], [-1, 1]])
    if norm and eff in FIXED and rng.random() < .2:
        peak = [5, 2]
    return dict(id=i, x=dict(shape=shape, unit=unit, nz=nz), norm=norm, peak=peak, kind=kind, sub=sub,
                dtype=rng.choice(["float32", "float32", "float64", "int32"] if unit == 1 else ["float32", "float32", "float64"]),
                view=rng.choice(["", "", "t", "slice", "grad"]), rate=rng.choice([8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000, 12345, 1000]),
                casing=rng.choice(["lower", "lower", "upper", "mixed"]) if kind in ("wav", "flac") else "lower",
                via=rng.randrange(8), back=rng.randrange(8), attr=rng.random() < .08 and sub is not None,
                default=norm and peak == [1, 1] and rng.random() < .6)


def tensor(c):
    import torch

    x = c["x"]
    t = torch.zeros(x["shape"], dtype=torch.float64)
    for i, j, v in x["nz"]:
        if len(x["shape"]) == 2:
            t[i - 1, j - 1] = v / x["unit"]
        else:
            t[i - 1] = v / x["unit"]
    t = t.to(getattr(torch, c["dtype"]))
    if c["view"] == "t" and t.ndim == 2:
        t = t.t().contiguous().t()
    if c["view"] == "slice":
        big = torch.full([2 * s + 1 for s in t.shape], 7, dtype=t.dtype)
        sl = tuple(slice(1, 2 * s + 1, 2) for s in t.shape)
        big[sl] = t
        t = big[sl]
    if c["view"] == "grad" and t.is_floating_point():
        t = t.requires_grad_()
    return t


def savers(c):
    import torchrir
    from torchrir import io
    from torchrir.io import audio

    kw = dict(normalize=c["norm"], peak=c["peak"][0] / c["peak"][1])
    if c["default"]:
        kw = {}
    if c["sub"] and not c["attr"]:
        kw["subtype"] = c["sub"]
    f = [io.save_audio, audio.save_audio]
    if c["kind"] in ("wav", "wave"):
        f = [io.save_wav, audio.save, io.save, torchrir.save] + ([io.save_audio, audio.save_audio] if c["kind"] == "wav" else [])
    f = f[c["via"] % len(f)]

    def data(p, t, r, **k):
        if c["via"] % 2:     # the stored format, or the one asked for
            stored, k = k.get("subtype"), {a: b for a, b in k.items() if a != "subtype"}
        else:
            stored = "PCM_16" if "subtype" in k else None
        audio.save_audio_data(p, audio.AudioData(audio=t, sample_rate=r, format="ANY", subtype=stored), **k)
    def scene(p, t, r):
        log = logging.Logger("scene")
        lines = []
        log.addHandler(type("H", (logging.Handler,), {"emit": lambda self, rec: lines.append(rec.getMessage())})())
        got = io.save_scene_audio(out_dir=p.parent, audio=t, fs=r, audio_name=p.name, **({"logger": log} if c["id"] % 2 else {}))
        if Path(got) != p or (c["id"] % 2 and not any(str(p) in x for x in lines)):
            raise RuntimeError(f"the scene's audio is said to be at {got}, logged {lines}")
    if not kw and c["kind"] in ("wav", "wave") and c["via"] % 2:
        return scene, kw
    if c["via"] in (6, 7) and c["kind"] != "wave":
        return data, kw
    return f, kw


def loaders(c):
    import torchrir
    from torchrir import io
    from torchrir.io import audio

    def data(p):
        d = audio.load_audio_data(p)
        return d.audio, d.sample_rate
    f = [io.load_audio, audio.load_audio, data]
    if c["kind"] in ("wav", "wave"):
        f += [io.load_wav, audio.load, io.load, torchrir.load]
    g = [io.info_audio, audio.info_audio] + ([io.info_wav, io.info] if c["kind"] in ("wav", "wave") else [])
    return f[c["back"] % len(f)], g[c["back"] % len(g)]


def model(ctx):
    few = dict(Few=1, MaxRows=3, MaxCols=ctx.pick(3, 4), Vals=ctx.pick("<- ValsD", "<- ValsE"), Peaks="<- PeaksD")
    inv = ["Untouched", "Refusal", "Layouts", "Inside", "Kept", "Peak", "Silence", "Same"]
    ctx.tlc("MCAudio", constants=dict(few, Flaw='""'), invariants=inv, workers=4)
    for flaw in ("narrow", "inplace"):
        r = ctx.tlc("MCAudio", constants=dict(few, MaxRows=2, MaxCols=2 if flaw == "inplace" else 3, Flaw=f'"{flaw}"'), invariants=inv, expect_ok=False,
                    label=f"MCAudio with flaw {flaw}")
        if not r.violated:
            raise AssertionError(f"the specification misses the flaw {flaw}")


def run(ctx):
    import torch

    rng = ctx.rng
    model(ctx)
    d = ctx.scratch / "audio"
    d.mkdir()
    cases = [case(rng, i) for i in range(ctx.pick(700, 9000))]
    gates, expect = None, {}
    for a in range(0, len(cases), 1500):
        for r in ctx.tlc("AudioEval", constants=dict(Few=8), cases=[{k: c[k] for k in ("id", "x", "norm", "peak")} for c in cases[a:a + 1500]]).records:
            if "gates" in r:
                gates = r["gates"]
            else:
                expect[r["id"]] = r
    for c in cases:
        one(ctx, c, expect[c["id"]], d, torch)
        if ctx.enough():
            return
    refuse(ctx, gates, d, torch)
    keep(ctx, cases, d)
    extremes(ctx, d, torch)
    small_disks(ctx, torch)
    ctx.sample(cases[0])
    ctx.assumptions += ["lossy compressed formats are not compared", "two-dimensional audio with at most eight rows is channel-first, "
                        "else the shorter side is the channels"]


def one(ctx, c, e, d, torch):
    t = tensor(c)
    p = d / f"a{c['id'] % 7}.{recase(c['kind'], c['casing'])}"
    if c["attr"]:
        t._torchrir_subtype = c["sub"]
    before = p.read_bytes() if p.exists() else None
    t0 = t.detach().clone()
    f, kw = savers(c)
    if c["attr"] and f.__name__ == "data":
        t._torchrir_subtype = None
        kw["subtype"] = c["sub"]
    brief = {k: v for k, v in c.items()}
    st, v = call(f, p, t, c["rate"], **kw)
    ctx.comparisons += 1
    if not torch.equal(t.detach(), t0) or t.dtype != t0.dtype:
        ctx.fail(f"{f.__name__} modified the caller's tensor", brief)
        return
    if not e["ok"]:
        if st == "ok":
            ctx.fail(f"{f.__name__} normalised to a peak of {c['peak'][0]}/{c['peak'][1]}", brief)
        elif (p.read_bytes() if p.exists() else None) != before:
            ctx.fail(f"{f.__name__} refused to save but changed the file", brief)
        ctx.count("refused")
        return
    if st == "err":
        ctx.fail(f"{f.__name__} raised {v!r}", brief)
        return
    got, rate = sf.read(str(p), dtype="float64", always_2d=True)
    inf = sf.info(str(p))
    want = np.zeros((e["frames"], e["chans"]))
    for k, i, val in e["data"]:
        want[i - 1, k - 1] = val * e["num"] / e["den"]
    if rate != c["rate"] or got.shape != want.shape:
        ctx.fail(f"{f.__name__}: the file has {got.shape[1]} channels of {got.shape[0]} frames at {rate} Hz, "
                 f"specified are {want.shape[1]} of {want.shape[0]} at {c['rate']}", brief)
        return
    eff = c["sub"] or inf.subtype
    if inf.subtype != eff:
        ctx.fail(f"{f.__name__}: the sample format is {inf.subtype}, asked for was {eff}", brief)
        return
    if eff not in FIXED:
        want = want.clip(-1, 1)
    tol = np.abs(want) * (3e-7 if c["norm"] else 1.2e-7 if c["dtype"] == "float64" else 0)
    if eff in ("ULAW", "ALAW"):
        tol = tol + np.abs(want) * .04 + 2e-3
    else:
        tol = tol + STEP[eff] * 1.6
    bad = np.abs(got - want) > tol
    ctx.comparisons += want.size
    if bad.any():
        i, k = np.argwhere(bad)[0]
        ctx.fail(f"{f.__name__}: frame {i} of channel {k} is {got[i, k]:.7g}, specified is {want[i, k]:.7g}", brief)
        return
    g, h = loaders(c)
    st, v = call(g, p)
    if st == "err":
        ctx.fail(f"{g.__name__} raised {v!r}", brief)
        return
    y, r = v
    first = np.zeros(e["frames"])
    for k, i, val in e["first"]:
        first[i - 1] = val * e["num"] / e["den"]
    if eff not in FIXED:
        first = first.clip(-1, 1)
    if r != c["rate"] or tuple(y.shape) != first.shape or y.dtype != torch.float32:
        ctx.fail(f"{g.__name__}: {tuple(y.shape)} at {r}, specified {first.shape} at {c['rate']}", brief)
    elif first.size and (np.abs(y.numpy() - first) > tol[:, 0] + 1.2e-7 * np.abs(first)).any():
        ctx.fail(f"{g.__name__} returns other samples than channel 0 of the file", brief)
    st, v = call(h, p)
    if st == "err" or (v.sample_rate, v.num_frames, v.num_channels, v.format, v.subtype) != \
            (inf.samplerate, e["frames"], e["chans"], inf.format, inf.subtype) or abs(v.duration - e["frames"] / c["rate"]) > 1e-9:
        ctx.fail(f"{h.__name__} reports {v} for a file of {e['chans']} channels of {e['frames']} frames at {c['rate']} Hz", brief)
    if c["kind"] in ("wav", "wave") and inf.format not in ("WAV", "WAVEX"):
        ctx.fail(f"{f.__name__} wrote {inf.format} into a wav file", brief)
    ctx.trace()


def refuse(ctx, gates, d, torch):
    """Entry points for wav only, over names."""
    import torchrir
    from torchrir import io
    from torchrir.io import audio

    t = torch.linspace(-.5, .5, 40)
    for g in gates:
        name = f"n.{recase(g['suffix'], g['casing'])}" if g["suffix"] else "n"
        p = d / name
        for f in (audio.save, io.save_wav, io.save, torchrir.save, audio.load, io.load_wav, io.load, torchrir.load, io.info_wav, io.info):
            write = f.__name__.startswith("save")
            if not write:
                sf.write(str(p), t.numpy(), 8000, format="WAV")
            elif p.exists():
                p.unlink()
            st, v = call(f, p, t, 8000) if write else call(f, p)
            ctx.comparisons += 1
            if (st == "ok") != g["ok"]:
                ctx.fail(f"{f.__module__}.{f.__name__} {'accepted' if st == 'ok' else 'refused'} the name {name}"
                         + (f": {v!r}" if st == "err" else ""), dict(name=name))
            elif st == "err" and not isinstance(v, ValueError):
                ctx.fail(f"{f.__module__}.{f.__name__} refused {name} with {v!r}", dict(name=name))
            elif write and st == "err" and p.exists():
                ctx.fail(f"{f.__module__}.{f.__name__} refused {name} but wrote it", dict(name=name))
        if p.exists():
            p.unlink()


def extremes(ctx, d, torch):
    """Levels, values and lengths beyond what the evaluated cases hold: normalising forgets the level, the rest is kept."""
    from torchrir.io import audio

    rng = ctx.rng
    for i in range(ctx.pick(12, 80)):
        g = torch.Generator().manual_seed(rng.randrange(10 ** 6))
        shape = rng.choice([(50,), (3, 40), (200_000,), (2, 70_001), (90_000, 2)])
        x = torch.rand(shape, generator=g, dtype=torch.float64) - .5
        p = d / f"e{i % 3}.wav"
        scale = 2.0 ** rng.choice([-100, -60, -40, -27, 20, 60])
        peak = rng.choice([1.0, .25])
        ctx.comparisons += 2
        st, v = call(audio.save_audio, p, (x * scale).to(torch.float32), 16000, normalize=True, peak=peak, subtype="FLOAT")
        want = (x / x.abs().max() * peak).numpy()
        want = want.T if want.ndim == 2 and want.shape[0] < 9 else want
        if st == "err":
            ctx.fail(f"saving a signal of level {scale:.3g} raised {v!r}", dict(shape=shape, scale=scale))
        else:
            got = sf.read(str(p), dtype="float64", always_2d=want.ndim == 2)[0]
            if got.shape != want.shape or np.abs(got - want).max() > 1e-6:
                ctx.fail(f"a signal of level {scale:.3g}, normalised to {peak}, is not the same signal", dict(shape=shape, scale=scale))
        y = x.to(torch.float32)
        odd = [math.inf, -math.inf, math.nan, 1e30, -1e-42, 3.4e38]
        for v in odd:
            y.view(-1)[rng.randrange(y.numel())] = v
        st, v = call(audio.save_audio, p, y, 16000, normalize=False, subtype="FLOAT")
        if st == "err":
            ctx.fail(f"saving without normalisation raised {v!r}", dict(shape=shape))
            continue
        first, r = audio.load_audio(p)
        want = y if y.ndim == 1 else y[0] if y.shape[0] < 9 else y[:, 0]
        if r != 16000 or first.shape != want.shape or not torch.equal(first.nan_to_num(nan=12345.0), want.nan_to_num(nan=12345.0)):
            ctx.fail("floating-point samples without normalisation come back as others", dict(shape=shape))
    for q in d.glob("e?.wav"):
        q.unlink()


def small_disks(ctx, torch):
    """A wav file is saved whole, or saving it raises (Store.tla)."""
    from torchrir.io import audio, save_scene_audio
    from torchrir.io.audio import AudioData

    writers = []
    for n, chans, sub in ((3000, 1, None), (40, 2, "FLOAT"), (9000, 3, "PCM_24"), (1, 1, "PCM_U8")):
        g = torch.Generator().manual_seed(n)
        x = torch.rand((chans, n) if chans > 1 else (n,), generator=g) - .5
        want = x.reshape(chans, n).T.numpy()

        def whole(root, want=want):
            y, r = sf.read(str(root / "x.wav"), dtype="float64", always_2d=True)
            return r == 8000 and y.shape == want.shape and bool(np.abs(y - want * (np.abs(y).max() / np.abs(want).max())).max() < .02)
        kw = dict(subtype=sub) if sub else {}
        writers.append((f"save_audio of {chans}x{n}", lambda root, x=x, kw=kw: audio.save_audio(root / "x.wav", x, 8000, **kw), whole))
        if chans == 1:
            writers.append((f"save_audio_data of {n}", lambda root, x=x, sub=sub: audio.save_audio_data(
                root / "x.wav", AudioData(audio=x, sample_rate=8000, subtype=sub)), whole))
        if sub is None:
            writers.append(("save_wav", lambda root, x=x: audio.save(root / "x.wav", x, 8000), whole))
            writers.append(("save_scene_audio", lambda root, x=x: save_scene_audio(
                out_dir=root, audio=x, fs=8000, audio_name="x.wav"), whole))
    disk.stores(ctx, writers, ctx.pick(6, 80))


def keep(ctx, cases, d):
    """Loading with its format and saving again keeps samples and format."""
    from torchrir.io.audio import load_audio_data, save_audio_data

    for p in sorted(Path(d).iterdir()):
        a = load_audio_data(p)
        q = d / f"copy{p.suffix}"
        if p.suffix.lower() == ".wave":
            continue
        save_audio_data(q, a, normalize=False)
        x, r = sf.read(str(p), dtype="float32", always_2d=True)
        y, s = sf.read(str(q), dtype="float32", always_2d=True)
        sub = sf.info(str(q)).subtype
        ctx.comparisons += 1
        step = STEP.get(sub, 0) * 1.01
        if sub != sf.info(str(p)).subtype or r != s or y.shape != (len(x), 1) or (len(x) and np.abs(x[:, 0].clip(-1, 1) - y[:, 0].clip(-1, 1)).max() > step):
            ctx.fail(f"a copy of {p.name} through AudioData has format {sub} at {s} Hz, shape {y.shape}")
        q.unlink()

"""C26: backend selection (Backends.tla): generated histories against recording backends."""

from __future__ import annotations

import warnings
from pathlib import Path

from tv.core import call

SAVES = {"save_wav", "save_audio", "save"}


def recase(s, how):
    return [s.lower(), s.upper(), "".join(c.upper() if i % 2 else c for i, c in enumerate(s)), s.capitalize()][how % 4]


class Recorder:
    """Backends that note which was called with what."""

    def __init__(self, io):
        self.io = io
        self.reg = None
        for v in list(vars(io).values()):
            if isinstance(v, dict) and v and all(isinstance(x, io.AudioBackend) for x in v.values()):
                self.reg = v
        self.saved = dict(self.reg) if self.reg is not None else None
        self.seen = []
        self.boom = None

    def backend(self, name):
        def note(kind):
            def f(*a, **k):
                self.seen.append((name, kind, a, k))
                if self.boom is not None:
                    raise self.boom
                self.out = object() if kind == "info" else (object(), 8000)
                return self.out if kind != "save" else None
            return f
        return self.io.AudioBackend(name=name, load=note("load"), save=note("save"), info=note("info"))

    def __enter__(self):
        if self.reg is not None:
            for n in ("soundfile", "alpha", "beta"):
                self.reg[n] = self.backend(n)
        return self

    def __exit__(self, *exc):
        if self.reg is not None:
            self.reg.clear()
            self.reg.update(self.saved)
        call(self.io.set_audio_backend, "soundfile")


def entries():
    import torchrir
    from torchrir import io

    gen = [io.load_audio, io.save_audio, io.info_audio]
    wav = [io.load_wav, io.save_wav, io.info_wav]
    old = [io.load, io.save, io.info, torchrir.load, torchrir.save]
    return [(f, False, False) for f in gen] + [(f, True, False) for f in wav] + [(f, True, True) for f in old]


def attempt(ctx, rec, entry, path, fmt, backend, rng, want, what):
    """One call: `want` is the backend that must be used, or None for an error."""
    import torch

    f, gated, old = entry
    kw = {}
    if fmt and gated:
        kw["format"] = fmt
    if backend is not None:
        kw["backend"] = backend
    args = [path]
    expect = None
    if f.__name__ in SAVES:
        audio = torch.randn(rng.randrange(1, 9))
        rate = rng.choice([8000, 44100])
        args += [audio, rate]
        opt = dict(normalize=rng.random() < .5, peak=rng.choice([.1, .5, 2.0]), subtype=rng.choice(["FLOAT", "PCM_24"]))
        opt = {k: v for k, v in opt.items() if rng.random() < .6}
        kw.update(opt)
        expect = [path, audio, rate, opt.get("normalize", True), opt.get("peak", 1.0), opt.get("subtype")]
    rec.seen.clear()
    rec.boom = OSError("the backend failed") if rng.random() < .1 else None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        st, v = call(f, *args, **kw)
    ctx.comparisons += 1
    name = f"{f.__module__}.{f.__name__}"
    dep = [x for x in w if issubclass(x.category, DeprecationWarning)]
    if old and len(dep) != 1 or not old and dep:
        ctx.fail(f"{name} gave {len(dep)} deprecation warnings", what)
    if want is None:
        if st == "ok" or rec.seen:
            ctx.fail(f"{name} accepted path {path.name!r}, format {fmt!r}, backend {backend!r}", what)
        elif not isinstance(v, ValueError):
            ctx.fail(f"{name} refused with {v!r}", what)
        return
    if len(rec.seen) != 1:
        ctx.fail(f"{name} called {[s[0] for s in rec.seen]} instead of {want}: {v!r}", what)
        return
    b, kind, a, k = rec.seen[0]
    if b != want or kind != f.__name__.split("_")[0]:
        ctx.fail(f"{name} used {kind} of backend {b!r} instead of {want!r}", what)
        return
    if rec.boom is not None:
        if st != "err" or v is not rec.boom:
            ctx.fail(f"{name} hid the failure of its backend: {v!r}", what)
        return
    if st == "err":
        ctx.fail(f"{name} raised {v!r}", what)
    elif kind != "save" and v is not rec.out and v != rec.out:
        ctx.fail(f"{name} returned something other than its backend did", what)
    elif kind == "save":
        names = ["path", "audio", "sample_rate", "normalize", "peak", "subtype"]
        got = list(a) + [k.get(n, "absent") for n in names[len(a):]]
        same = all(x is y or (not hasattr(x, "shape") and not hasattr(y, "shape") and x == y) for x, y in zip(got, expect)) and got[1] is expect[1]
        if not same:
            ctx.fail(f"{name} passed {got[2:]} on instead of {expect[2:]}", what)
        if k.get("backend"):
            ctx.fail(f"{name} passed the backend's name on", what)
    elif a[:1] != (path,) and k.get("path") != path:
        ctx.fail(f"{name} passed another path on", what)


def real(ctx):
    """Only the real backend can be reached: its table."""
    from torchrir import io

    for name in ("soundfile", "nosuch", "Soundfile", "soundfile "):
        st, v = call(io.set_audio_backend, name)
        ctx.comparisons += 1
        if (st == "ok") != (name == "soundfile") or io.get_audio_backend() != "soundfile":
            ctx.fail(f"selecting {name!r}: {v!r}, selected is {io.get_audio_backend()!r}")


def run(ctx):
    from torchrir import io

    rng = ctx.rng
    consts = dict(Known='{"soundfile", "alpha", "beta"}', Unknown='"nosuch"', First='"soundfile"', Flaw='""')
    inv = ["Latest", "Usable"]
    recs = ctx.tlc("Backends", constants=dict(consts, Depth=ctx.pick(3, 4)), invariants=inv + ["Emit"], workers=1).records
    for flaw in ("late", "sticky"):
        r = ctx.tlc("Backends", constants=dict(consts, Depth=2, Flaw=f'"{flaw}"'), invariants=inv, expect_ok=False,
                    label=f"Backends with flaw {flaw}")
        if not r.violated:
            raise AssertionError(f"the specification misses the flaw {flaw}")
    gates = [r for r in recs if "gates" in r][0]["gates"]
    hists = [r["hist"] for r in recs if "hist" in r]
    rng.shuffle(hists)
    ents = entries()
    unknown = ["nosuch", "SOUNDFILE", "sound", "Alpha", "alpha ", "none"]
    goods = [("a.wav", None), ("b.WAVE", None), ("c.flac", "wav"), ("d", "WAVE"), ("e.Wav", "Wav")]
    bads = [("a.flac", None), ("b.wav", "flac"), ("c", None), ("d.wav.gz", None), ("e.WAV", "mp3")]
    with Recorder(io) as rec:
        if rec.reg is None:
            real(ctx)
            ctx.assumptions.append("no registry of backends found; only the real backend was selected")
            return
        if io.list_audio_backends() != ["alpha", "beta", "soundfile"]:
            ctx.fail(f"the listed backends are {io.list_audio_backends()}")
        for h in hists[: ctx.pick(6000, 60000)]:
            call(io.set_audio_backend, "soundfile")
            before = "soundfile"
            for s in h:
                name = s["name"] if s["name"] != "nosuch" else rng.choice(unknown)
                if s["op"] == "select":
                    st, v = call(io.set_audio_backend, name)
                    ctx.comparisons += 1
                    if (st == "ok") != s["ok"] or st == "err" and not isinstance(v, ValueError):
                        ctx.fail(f"selecting {name!r}: {st} {v!r}", h)
                else:
                    e = rng.choice(ents)
                    p, fmt = rng.choice(goods if s["passes"] else bads)
                    gated = e[1]
                    ok = s["ok"] or (not gated and not s["passes"] and s["name"] != "nosuch")
                    used = (s["used"] if s["passes"] else (s["name"] if s["name"] != "none" else before)) if ok else None
                    attempt(ctx, rec, e, Path(p), fmt, None if s["name"] == "none" else name, rng, used, h)
                before = s["after"]
                if io.get_audio_backend() != s["after"]:
                    ctx.fail(f"the selected backend is {io.get_audio_backend()!r} instead of {s['after']!r}", h)
                    break
            ctx.trace()
            if ctx.enough():
                return
        # every entry point, every name and format, in several cases
        for g in gates:
            for k in range(ctx.pick(2, 4)):
                for e in ents:
                    sel = rng.choice(["soundfile", "alpha", "beta"])
                    io.set_audio_backend(sel)
                    b = rng.choice([None, "soundfile", "alpha", "beta"])
                    how, how2 = (0, 0) if k == 0 else (rng.randrange(4), rng.randrange(4))
                    p = Path("dir.wav") / (f"n.{recase(g['suffix'], how)}" if g["suffix"] else "n")
                    fmt = recase(g["format"], how2) or None
                    ok = g["ok"] if e[1] else True
                    attempt(ctx, rec, e, p, fmt, b, rng, (b or sel) if ok else None, g)
        ctx.count("gate_rows", len(gates))
    real(ctx)
    ctx.count("histories", len(hists))
    ctx.sample(hists[0])
    ctx.sample(gates[:5])

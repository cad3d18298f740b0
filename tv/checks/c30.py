"""C30: an accelerator changes where something is computed, not what (Accel.tla).

The accelerator is a stand-in (tv/pretend.py): tensors that report its device,
refuse to mix with others, have no direct way to numpy and, on MPS, no double
precision, and are computed on the CPU.
"""

from __future__ import annotations

import json
import logging
import random
import warnings

import numpy as np
import torch

from tv import pretend
from tv.checks import c03
from tv.core import TlcError, call


def settings_run(o, ns):
    """One small simulation with the settings of a specification call; everything made at its place."""
    from torchrir import MicrophoneArray, Room, Source
    from torchrir.config import SimulationConfig
    from torchrir.sim import simulate_dynamic_rir, simulate_rir

    dt = torch.float32 if o["single"] else torch.float64
    dev = o["place"]
    lut = o["lut"]
    cfg = SimulationConfig(frac_delay_length=41 if o["short"] else 81, sinc_lut_granularity=3 if o["coarse"] else 20,
                           use_lut=lut, use_compile=o["comp"], accumulate_chunk_size=3 if o["small"] else 4096,
                           rir_hpf_enable=False)
    s = torch.tensor([[1.03, 2.11, 1.27], [2.5, 1.4, .9]], dtype=dt)
    m = torch.tensor([[2.21, 1.87, 1.05]], dtype=dt)
    room = Room.shoebox(size=[4.0, 5.0, 3.0], fs=8000.0, beta=[.9, .8, .7, .6, .5, .4], dtype=dt)

    def go(put):
        if ns % 2:
            return simulate_dynamic_rir(room=room, src_traj=put(torch.stack([s, s + .1])), mic_traj=put(torch.stack([m, m])),
                                        max_order=1, nsample=ns, config=cfg)
        return simulate_rir(room=room, sources=Source.from_positions(put(s)), mics=MicrophoneArray.from_positions(put(m)),
                            max_order=1, nsample=ns, config=cfg)
    if dev == "cpu":
        return go(lambda x: x)
    with pretend.on(dev):
        r = go(pretend.there)
        if str(r.device) != dev:
            raise AssertionError(f"result on {r.device}, tensors on {dev}")
        return pretend.back(r)


def histories(ctx):
    inv = ["Pure", "NoTableOnMps", "Once"]
    c0 = dict(MaxLen=2, Forget='"none"', EmitMod=ctx.pick(30, 6))
    hist = ctx.tlc("Accel", constants=c0, invariants=inv + ["Emit"], workers=1).records
    for flaw in ("single", "short", "coarse", "lut", "place"):
        q = ctx.tlc("Accel", constants=dict(c0, Forget=f'"{flaw}"'), invariants=inv, expect_ok=False)
        if not q.violated:
            raise TlcError(f"the accelerator model does not notice a key without {flaw}")
    ctx.rng.shuffle(hist)
    ref = {}
    made = []

    def expect(o):
        """The same settings by other means: on the CPU, directly, as one batch."""
        lut = o["lut"] and o["place"] != "mps"
        k = (o["single"], o["short"], o["coarse"] and lut, lut)
        return ref.setdefault(k, {}), dict(o, place="cpu", comp=False, small=False, lut=lut)

    for h in hist:
        for o in h:
            ns = ctx.rng.choice([150, 151])
            table, plain = expect(o)
            if ns not in table:
                st, v = call(settings_run, plain, ns)
                if st == "err":
                    ctx.fail(f"on the CPU: raised {v!r}", o)
                    return
                table[ns] = v.clone()
            want = table[ns]
            if o["place"] == "mps" and o["lut"]:    # with the table would be as right
                k2, plain2 = expect(dict(o, place="cpu"))
                if ns not in k2:
                    k2[ns] = settings_run(plain2, ns).clone()
                other = k2[ns]
            else:
                other = want
            st, v = call(settings_run, o, ns)
            made.append(o)
            case = dict(settings=o, after=made[-3:-1], samples=ns)
            ctx.comparisons += 1
            if st == "err":
                if pretend.not_ours(v):
                    ctx.count("not_judged")
                    continue
                ctx.fail(f"simulation on {o['place']}: {type(v).__name__}: {v}", case)
            elif v.shape != want.shape or v.dtype != want.dtype or not any(
                    torch.allclose(v, w, rtol=1e-5, atol=2e-6) for w in (want, other)):
                ctx.fail(f"simulation on {o['place']} differs from the one on the CPU by "
                         f"{float((v - want).abs().max()) if v.shape == want.shape else 'shape'}", case)
            ctx.count("on_" + o["place"])
        ctx.trace()
        if ctx.enough():
            return
    ctx.sample(hist[0])


class Place:
    """Where the tensors of one run live and what device is asked for."""

    def __init__(self, dev, mode, seed):
        self.dev, self.mode, self.rng = dev, mode, random.Random(seed)
        self.first = True
        # the device of the result
        self.want = "cpu" if dev == "cpu" or mode == "asked for the CPU" else dev

    def gen(self):
        return torch.Generator().manual_seed(self.rng.randrange(10 ** 6))

    def t(self, x):
        x = torch.as_tensor(x, dtype=torch.float32) if not torch.is_tensor(x) else x
        here = self.mode in ("tensors there", "automatic", "asked for the CPU") or (self.mode == "first one there" and self.first)
        self.first = False
        return pretend.there(x) if self.dev != "cpu" and here else x

    def kw(self):
        if self.mode == "asked for the CPU":
            return dict(device="cpu")
        if self.mode == "automatic":
            return dict(device="auto")
        if self.mode == "asked for":
            return dict(device=self.dev)
        return {}


def pts(p, n, hi=2.8):
    return torch.tensor([[p.rng.uniform(.2, hi) for _ in range(3)] for _ in range(n)])


def operations(ctx):
    """(name, run(place) -> tensors and plain data, modes)."""
    from torchrir import DynamicScene, MicrophoneArray, Room, Source, StaticScene, geometry as g, io, util, viz
    from torchrir.config import SimulationConfig
    from torchrir.datasets import DatasetItem, collate_dataset_items
    from torchrir.signal import DynamicConvolver, convolve_rir, fft_convolve
    from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir

    ALL = ["tensors there", "asked for", "automatic", "first one there", "asked for the CPU"]
    THERE = ["tensors there"]
    ops = []
    top = ctx.scratch / "there"
    top.mkdir(exist_ok=True)

    def op(name, modes=THERE):
        def add(fn):
            ops.append((name, fn, modes))
            return fn
        return add

    def room(p, **k):
        return Room.shoebox(size=[3.0 + p.rng.random(), 4.0, 3.0], fs=8000.0,
                            **(k or dict(beta=[p.rng.uniform(.2, .95) for _ in range(6)])))

    def cfg(p, **k):
        if p.rng.random() < .5:            # settings that must not matter here, and other filter lengths
            k = dict(frac_delay_length=p.rng.choice([1, 3, 9, 21, 41, 81, 121]), sinc_lut_granularity=p.rng.choice([1, 2, 20]),
                     accumulate_chunk_size=p.rng.choice([1, 7, 4096]), image_chunk_size=p.rng.choice([1, 5, 2048]),
                     use_compile=p.rng.random() < .5, **k)
        return SimulationConfig(use_lut=False, **k)

    def static(p, **k):
        s, m = pts(p, p.rng.randint(1, 3)), pts(p, p.rng.randint(1, 3))
        r = room(p)
        if p.rng.random() < .5:
            s, m = p.t(s), p.t(m)
        else:
            s, m = Source.from_positions(p.t(s)), MicrophoneArray.from_positions(p.t(m))
        base = dict(max_order=p.rng.randint(0, 3), nsample=p.rng.randint(60, 500), config=cfg(p))
        base.update(k)
        return simulate_rir(room=r, sources=s, mics=m, **base, **p.kw())

    def moving(p, **k):
        T, S, M = p.rng.randint(1, 5), p.rng.randint(1, 3), p.rng.randint(1, 3)
        st = torch.stack([pts(p, S) for _ in range(T)])
        mt = torch.stack([pts(p, M) for _ in range(T)])
        base = dict(max_order=p.rng.randint(0, 3), nsample=p.rng.randint(60, 500), config=cfg(p))
        base.update(k)
        return simulate_dynamic_rir(room=room(p), src_traj=p.t(st), mic_traj=p.t(mt), **base, **p.kw())

    op("static response", ALL)(static)
    op("moving response", ALL)(moving)
    op("static response with a tail", ALL)(lambda p: static(p, nsample=None, tmax=.05, tdiff=.02, config=cfg(p, seed=4)))
    op("static response unfiltered", ALL)(lambda p: static(p, config=cfg(p, rir_hpf_enable=False)))
    op("image box", ALL)(lambda p: static(p, nb_img=(1, 0, 2)))
    PAT = ["cardioid", "bidir", "homni", "subcardioid", "omni"]

    @op("static response with patterns", ALL)
    def _(p):
        so = torch.tensor([p.rng.uniform(-1, 1) for _ in range(3)])
        mo = torch.tensor([p.rng.uniform(-3, 3), .2])
        return static(p, directivity=tuple(p.rng.sample(PAT, 2)), orientation=(so, mo))

    @op("moving response with patterns", ALL)
    def _(p):
        so = torch.tensor([p.rng.uniform(-1, 1) for _ in range(3)])
        k = dict(orientation=(so, so * -1)) if p.rng.random() < .5 else dict(orientation=so)
        return moving(p, directivity=p.rng.choice(PAT), **k)

    def scene(p, dyn):
        s, m = pts(p, 2), pts(p, 2)
        so = torch.tensor([1.0, .2, .1])
        src = Source.from_positions(p.t(s), orientation=p.t(so))
        mic = MicrophoneArray.from_positions(p.t(m), orientation=p.t(so * -1))
        if not dyn:
            return StaticScene(room=room(p), sources=src, mics=mic)
        return DynamicScene(room=room(p), sources=src, mics=mic, src_traj=p.t(torch.stack([s, s + .1])),
                            mic_traj=p.t(torch.stack([m, m])))

    @op("simulated scene", ["tensors there", "asked for", "automatic", "asked for the CPU"])
    def _(p):
        x = scene(p, p.rng.random() < .5)
        r = ISMSimulator(max_order=2, nsample=200, directivity=p.rng.choice(PAT)).simulate(x, cfg(p, **p.kw()))
        return r.rirs

    @op("room by reverberation time", ALL)
    def _(p):
        s, m = pts(p, 1), pts(p, 2)
        return simulate_rir(room=room(p, t60=p.rng.uniform(.2, .9)), sources=p.t(s), mics=p.t(m), max_order=2, nsample=300,
                            config=cfg(p), **p.kw())

    @op("room on the device")
    def _(p):
        s, m = pts(p, 2), pts(p, 1)
        r = Room(size=p.t(torch.tensor([3.0, 4.0, 3.0])), fs=8000.0, beta=p.t(torch.full((6,), .7)))
        return simulate_rir(room=r, sources=p.t(s), mics=p.t(m), max_order=2, nsample=300, config=cfg(p))

    def sig(p, *shape):
        return p.t(torch.randn(*shape, generator=p.gen()))

    op("convolution")(lambda p: convolve_rir(sig(p, 2, 300), sig(p, 2, 3, 64)))
    op("one-dimensional convolution")(lambda p: fft_convolve(sig(p, 300), sig(p, 64)))
    op("trajectory convolution")(lambda p: DynamicConvolver().convolve(sig(p, 2, 512), sig(p, p.rng.choice([1, 2, 8, 16, 32]), 2, 2, 33)))
    op("hop convolution")(lambda p: DynamicConvolver(mode="hop", hop=100).convolve(sig(p, 1, 512), sig(p, 7, 1, 2, 33)))

    @op("trajectory convolution with times")
    def _(p):
        T = p.rng.choice([1, 3, 8, 9, 20])
        ts = [0] + sorted(p.rng.choices(range(p.rng.choice([2, 900])), k=T - 1))
        for _ in range(p.rng.choice([0, 1, 2])):           # whole runs of steps without samples
            a, n = p.rng.randrange(len(ts)), p.rng.choice([7, 8, 9, 17])
            ts[a:a] = [ts[a]] * n
        T, ts = len(ts), torch.tensor(ts) / 1024.0
        ts = ts.double() if p.rng.random() < .5 else ts.tolist() if p.rng.random() < .5 else p.t(ts)
        return DynamicConvolver(timestamps=ts, fs=1024.0)(sig(p, 1, 1000), sig(p, T, 1, 2, 40))

    # geometry and acoustics
    @op("arrays", ["tensors there", "asked for"])
    def _(p):
        c = p.t(torch.tensor([1.0, 2.0, 1.5]))
        nv = torch.tensor([.3, -.2, 1.0])
        return [g.linear_array(c, num=5, spacing=.1, **p.kw()), g.linear_array(c, num=4, spacing=.1, direction=nv, **p.kw()),
                g.circular_array(c, num=6, radius=.2, **p.kw()), g.circular_array(c, num=6, radius=.2, normal=nv, **p.kw()),
                g.eigenmike_em32(c, **p.kw()), g.eigenmike_em64(c, **p.kw()), g.binaural_array(c, **p.kw())] + \
            [g.polyhedron_array(c, kind=k, radius=.3, **p.kw()) for k in ("tetrahedron", "cube", "octahedron", "dodecahedron", "icosahedron")]

    @op("positions")
    def _(p):
        size = p.t(torch.tensor([3.0, 4.0, 3.0]))
        x = torch.randn(6, 3, generator=p.gen()) * 3
        return [g.clamp_positions(p.t(x), size, .2), g.linear_trajectory(p.t(x[0]), p.t(x[1]), 7)]

    @op("estimates")
    def _(p):
        size = p.t(torch.tensor([3.0, 4.0, 3.0]))
        b = util.estimate_beta_from_t60(size, .5)
        return [b, util.estimate_t60_from_beta(size, b), util.estimate_image_counts_from_tmax(.05, size, 343.0),
                util.orientation_to_unit(p.t(torch.tensor([.3, .2])), 3), util.orientation_to_unit(p.t(torch.tensor([1.0, 2, 3])), 3)]

    # descriptions, files, pictures
    @op("metadata", ["tensors there", "asked for"])
    def _(p):
        s, m = pts(p, 2), pts(p, 3)
        dyn = p.rng.random() < .6
        st, mt = torch.stack([s, s + .1, s + .2]), torch.stack([m, m, m + .1])
        k = dict(src_traj=p.t(st), mic_traj=p.t(mt)) if dyn else {}
        r = room(p)
        rirs = simulate_dynamic_rir(room=r, src_traj=p.t(st), mic_traj=p.t(mt), max_order=0, nsample=40, config=cfg(p), **p.kw()) \
            if dyn else simulate_rir(room=r, sources=p.t(s), mics=p.t(m), max_order=0, nsample=40, config=cfg(p), **p.kw())
        if dyn and p.rng.random() < .4:
            k["timestamps"] = p.t(torch.tensor([0.0, .1, .3]))
        out = top / "m.json"
        md = io.save_scene_metadata(out_dir=top, metadata_name="m.json", room=r, rirs=rirs, signal_len=900,
                                    sources=Source.from_positions(p.t(s), orientation=p.t(torch.tensor([1.0, 0, 0]))),
                                    mics=MicrophoneArray.from_positions(p.t(m)), extra=dict(table=p.t(m), n=3), **k)
        return [json.loads(out.read_text()), json.loads(json.dumps(md, default=lambda q: q.tolist()))]

    @op("audio files")
    def _(p):
        x = sig(p, 2, 400) * .2
        norm = p.rng.random() < .5
        io.save(top / "a.wav", x, 8000, normalize=norm, peak=.5, subtype="FLOAT")
        io.save_audio(top / "b.flac", x, 8000, normalize=norm)
        io.save_scene_audio(out_dir=top, audio=x, fs=8000, audio_name="c.wav", logger=logging.getLogger("tv.c30"))
        return [io.load(top / "a.wav")[0].numpy(), io.load_audio(top / "b.flac")[0].numpy(), io.load(top / "c.wav")[0].numpy()]

    @op("batch")
    def _(p):
        its = [DatasetItem(audio=sig(p, n), sample_rate=8000, utterance_id=f"u{n}", text="t", speaker="s") for n in (5, 9, 3)]
        b = collate_dataset_items(its)
        return [b.audio, list(map(int, b.lengths)), list(b.utterance_ids)]

    def pixels(path):
        from PIL import Image, ImageSequence

        im = Image.open(path)
        return [np.asarray(f.convert("RGB")).copy() for f in ImageSequence.Iterator(im)]

    @op("pictures")
    def _(p):
        dim = 3 if p.rng.random() < .6 else 2
        s, m = pts(p, 2)[:, :dim], pts(p, 2)[:, :dim]
        size = p.t(torch.tensor([3.0, 4.0, 3.0][:dim]))
        st, mt = torch.stack([s, s + .1, s + .2]), torch.stack([m, m, m])
        kind = p.rng.choice(["static", "dynamic", "layout"])
        import matplotlib.pyplot as plt

        if kind == "layout":
            (top / "lay").mkdir(exist_ok=True)
            viz.save_scene_layout_images(out_dir=top / "lay", room=size, sources=Source.from_positions(p.t(s)), save_3d=dim == 3,
                                         mics=MicrophoneArray.from_positions(p.t(m)), src_traj=p.t(st), mic_traj=p.t(mt),
                                         logger=logging.getLogger("tv.c30"))
            out = sorted((top / "lay").glob("*.png"))
            r = [[f.name for f in out], [pixels(f) for f in out]]
            for f in out:
                f.unlink()
            plt.close("all")
            return r
        if kind == "static":
            ax = viz.plot_scene_static(room=size, sources=Source.from_positions(p.t(s)), mics=p.t(m))
        else:
            ax = viz.plot_scene_dynamic(room=size, src_traj=p.t(st), mic_traj=p.t(mt))
        ax.figure.savefig(top / "p.png", dpi=60)
        plt.close("all")
        return pixels(top / "p.png")

    @op("animation")
    def _(p):
        s, m = pts(p, 1), pts(p, 2)
        st, mt = torch.stack([s, s + .1]), torch.stack([m, m])
        viz.animate_scene_gif(out_path=top / "a.gif", room=p.t(torch.tensor([3.0, 4.0, 3.0])), sources=Source.from_positions(p.t(s)),
                              mics=MicrophoneArray.from_positions(p.t(m)), src_traj=p.t(st), mic_traj=p.t(mt), fps=5)
        return pixels(top / "a.gif")
    return ops


def flat(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from flat(x)
    elif isinstance(v, dict):
        for k in sorted(v):
            yield k
            yield from flat(v[k])
    else:
        yield v


def agree(a, b):
    """None, or what differs."""
    a, b = list(flat(a)), list(flat(b))
    if len(a) != len(b):
        return f"{len(a)} parts instead of {len(b)}"
    for x, y in zip(a, b):
        if isinstance(y, (torch.Tensor, np.ndarray)):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or x.dtype != y.dtype:
                return f"{x.shape} {x.dtype} instead of {y.shape} {y.dtype}"
            if y.dtype == np.uint8:
                if (np.abs(x.astype(int) - y) > 8).any():
                    return f"{int((np.abs(x.astype(int) - y) > 8).any(axis=-1).sum())} pixels differ"
            elif not np.allclose(x, y, rtol=1e-4, atol=2e-5 * max(1.0, float(np.abs(y).max(initial=0))), equal_nan=True):
                return f"values differ by {np.abs(x.astype(float) - y).max():.3g}"
        elif isinstance(y, float) and isinstance(x, (int, float)):
            if abs(x - y) > 1e-4 * max(1.0, abs(y)) and x != y:
                return f"{x} instead of {y}"
        elif x != y:
            return f"{x!r} instead of {y!r}"
    return None


def everything(ctx):
    ops = operations(ctx)
    rng = ctx.rng
    logging.getLogger("tv.c30").setLevel(logging.CRITICAL)
    for rep in range(ctx.pick(5, 40)):
        for name, run, modes in ops:
            if rep >= ctx.pick(2, 10) and name in ("pictures", "animation"):
                continue
            seed = rng.randrange(10 ** 6)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                st, ref = call(run, Place("cpu", "tensors there", seed))
            if st == "err":
                ctx.fail(f"{name} on the CPU raised {type(ref).__name__}: {ref}", dict(seed=seed))
                continue
            for dev in ("cuda", "mps"):
                mode = rng.choice(modes)
                p = Place(dev, mode, seed)
                with pretend.on(dev), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    st, v = call(run, p)
                    where = {str(t.device) for t in flat(v) if torch.is_tensor(t)} if st == "ok" else set()
                case = dict(operation=name, device=dev, mode=mode, seed=seed)
                ctx.comparisons += 1
                if st == "err":
                    if pretend.not_ours(v):
                        ctx.count("not_judged")
                    else:
                        ctx.fail(f"{name} on {dev} ({mode}): {type(v).__name__}: {v}", case)
                    continue
                if any(w != p.want for w in where):
                    ctx.fail(f"{name} ({mode}, {dev}): result on {sorted(where)} instead of {p.want}", case)
                v = [pretend.back(t) if torch.is_tensor(t) else t for t in flat(v)]
                d = agree(v, list(flat(ref)))
                if d:
                    ctx.fail(f"{name} on {dev} ({mode}) is not what it is on the CPU: {d}", case)
                ctx.trace()
                ctx.count("elsewhere")
            if ctx.enough():
                return


def purity(ctx):
    """The operations of C03 on CUDA, one after another, in single and double precision."""
    ops = c03.catalogue(7)
    rng = ctx.rng
    order = [rng.randrange(len(ops)) for _ in range(ctx.pick(60, 500))]
    ref = {}
    for i in order:
        name, build, run = ops[i]
        if i not in ref:
            ref[i] = call(run, build())
        with pretend.on("cuda"):
            d = {k: pretend.there(v) if torch.is_tensor(v) else v for k, v in build().items()}
            keep = [pretend.back(v) for v in c03.leaves(d)]
            before = c03.states()
            st, v = call(run, d)
            after = c03.states()
        ctx.comparisons += 1
        case = dict(operation=name)
        if st == "err":
            if pretend.not_ours(v):
                ctx.count("not_judged")
            else:
                ctx.fail(f"'{name}' on cuda raised {type(v).__name__}: {v}", case)
            continue
        if not all(torch.equal(a, pretend.back(b)) for a, b in zip(keep, c03.leaves(d))):
            ctx.fail(f"'{name}' on cuda modifies its inputs", case)
        if not c03.same_states(before, after):
            ctx.fail(f"'{name}' on cuda changes the global random state", case)
        d = agree(pretend.back(v), ref[i][1])
        if d:
            ctx.fail(f"'{name}' on cuda is not what it is on the CPU: {d}", case)
        with pretend.on("cuda"):
            v.fill_(float("nan"))               # the caller may overwrite what it got
        ctx.trace()


def run(ctx):
    import matplotlib

    matplotlib.use("Agg")
    histories(ctx)
    everything(ctx)
    purity(ctx)
    ctx.assumptions += ["no accelerator is present: a stand-in reports the device and computes on the CPU, so rounding, speed and "
                        "memory of real hardware and torch.compile itself are not judged",
                        "tensors of one call live on one device except where the library is asked to move them"]

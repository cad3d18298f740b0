"""C03: simulation is a pure function of its arguments."""

from __future__ import annotations

import os
import pickle
import random

import numpy as np
import torch

from tv.checks import c01, c02
from tv.core import TlcError, call


def catalogue(shift=0, **over):
    """Named operations: (build inputs, run).  Pairs share tables, differ in precision or use.
    `over` replaces configuration values in all of them."""
    ops = []

    def geo(dim=3, seed=1, dtype="float64", ns=2, nm=2, T=0):
        r = random.Random(seed + shift)
        L = [r.randint(200, 600) for _ in range(dim)]

        def pt(n):
            return [[r.randint(1, L[a] - 1) * .01 for a in range(dim)] for _ in range(n)]

        dt = getattr(torch, dtype)
        d = dict(size=[x * .01 for x in L], src=torch.tensor(pt(ns), dtype=dt), mic=torch.tensor(pt(nm), dtype=dt),
                 beta=torch.tensor([r.uniform(.3, .95) for _ in range(2 * dim)], dtype=dt), dt=dt,
                 so=torch.tensor([[r.uniform(-1, 1) for _ in range(dim)] for _ in range(ns)], dtype=dt),
                 mo=torch.tensor([[r.uniform(-1, 1) for _ in range(dim)] for _ in range(nm)], dtype=dt))
        if T:
            d["st"] = torch.stack([torch.tensor(pt(ns), dtype=dt) for _ in range(T)])
            d["mt"] = torch.stack([torch.tensor(pt(nm), dtype=dt) for _ in range(T)])
        return d

    def static(name, g, cfg, **kw):
        def run(d):
            from torchrir import MicrophoneArray, Room, Source
            from torchrir.config import SimulationConfig
            from torchrir.sim import simulate_rir

            room = Room.shoebox(size=d["size"], fs=8000.0, beta=d["beta"], dtype=d["dt"])
            k = dict(max_order=2, nsample=600)
            k.update(kw)
            if k.pop("raw", False):
                s, m = d["src"], d["mic"]
            else:
                s = Source.from_positions(d["src"], orientation=d["so"])
                m = MicrophoneArray.from_positions(d["mic"], orientation=d["mo"])
            return simulate_rir(room=room, sources=s, mics=m, config=SimulationConfig(**{**cfg, **over}), **k)
        ops.append((name, lambda: geo(**g), run))

    def moving(name, g, cfg, **kw):
        def run(d):
            from torchrir import Room
            from torchrir.config import SimulationConfig
            from torchrir.sim import simulate_dynamic_rir

            room = Room.shoebox(size=d["size"], fs=8000.0, beta=d["beta"], dtype=d["dt"])
            return simulate_dynamic_rir(room=room, src_traj=d["st"], mic_traj=d["mt"], max_order=2, nsample=500,
                                        orientation=(d["so"], d["mo"]), config=SimulationConfig(**{**cfg, **over}), **kw)
        ops.append((name, lambda: geo(T=3, **g), run))

    def conv(name, mode, dtype="float64", **k):
        def build():
            g = torch.Generator().manual_seed(3 + shift)
            dt = getattr(torch, dtype)
            T = () if mode == "static" else (4,)
            return dict(x=torch.randn(2, 333, generator=g, dtype=dt), h=torch.randn(*T, 2, 2, 50, generator=g, dtype=dt))

        def run(d):
            from torchrir.signal import DynamicConvolver, convolve_rir, fft_convolve

            if mode == "static":
                return convolve_rir(d["x"], d["h"])
            return DynamicConvolver(mode=mode, **k).convolve(d["x"], d["h"])
        ops.append((name, build, run))

    off = dict(rir_hpf_enable=False)
    static("lut f64", {}, dict(off))
    static("lut f32", dict(dtype="float32"), dict(off))
    static("no lut f64", {}, dict(off, use_lut=False))
    static("no lut f32", dict(dtype="float32"), dict(off, use_lut=False))
    static("lut gran 5 f64", {}, dict(off, sinc_lut_granularity=5))
    static("lut gran 5 f32", dict(dtype="float32"), dict(off, sinc_lut_granularity=5))
    static("short filter f64", {}, dict(off, frac_delay_length=41))
    static("short filter f32", dict(dtype="float32"), dict(off, frac_delay_length=41))
    static("tail seed 5", {}, dict(off, seed=5), tdiff=.02, tmax=.07)
    static("tail seed 6", {}, dict(off, seed=6), tdiff=.02, tmax=.07)
    static("tail default seed f32", dict(dtype="float32"), dict(off), tdiff=.02, tmax=.07)
    static("high-pass", {}, {})
    static("high-pass 200 Hz order 3", {}, dict(rir_hpf_fc=200.0, rir_hpf_kwargs={"n": 3, "type": "butter"}))
    static("raw tensors 2-D", dict(dim=2), dict(off), raw=True)
    static("cardioid", {}, dict(off), directivity="cardioid")
    static("mixed patterns 2-D", dict(dim=2), dict(off), directivity=("bidir", "homni"))
    static("image box", {}, dict(off), nb_img=(1, 2, 0))
    static("order 0", {}, dict(off), max_order=0)
    moving("moving f64", {}, dict(off))
    moving("moving f32", dict(dtype="float32"), dict(off))
    moving("moving high-pass", {}, {})
    moving("moving cardioid", {}, dict(off), directivity="cardioid")
    moving("moving short filter", {}, dict(off, frac_delay_length=9, sinc_lut_granularity=5))
    conv("convolve", "static")
    conv("convolve f32", "static", dtype="float32")
    conv("trajectory", "trajectory")
    conv("hop", "hop", hop=100)
    return ops


def baselines(ctx, ops):
    """Each operation alone in a fresh process (forked before anything was simulated)."""
    out = []
    for i, (name, build, run) in enumerate(ops):
        p = ctx.scratch / f"base{i}.pkl"
        pid = os.fork()
        if pid == 0:
            try:
                torch.set_num_threads(1)
                st, v = call(run, build())
                p.write_bytes(pickle.dumps((st, v.numpy() if st == "ok" else repr(v))))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        out.append(pickle.loads(p.read_bytes()))
    return out


def states():
    return (torch.get_rng_state(), np.random.get_state()[1].copy(), np.random.get_state()[2], random.getstate(),
            torch.get_default_dtype(), torch.is_grad_enabled())


def same_states(a, b):
    return torch.equal(a[0], b[0]) and (a[1] == b[1]).all() and a[2] == b[2] and a[3] == b[3] and a[4:] == b[4:]


def leaves(d):
    return [v for v in d.values() if torch.is_tensor(v)]


def histories(ctx, ops, base):
    rng = ctx.rng
    inv = ["Pure", "RngUntouched"]
    K = 12
    c0 = dict(NOps=K, MaxLen=4, Alias="FALSE", BadKey="FALSE", Draws="FALSE", EmitMod=ctx.pick(400, 60))
    r = ctx.tlc("Purity", constants=c0, invariants=inv + ["Emit"], workers=1)
    hist = r.records
    rng.shuffle(hist)
    # the invariants notice each kind of defect
    for flaw in ("Alias", "BadKey", "Draws"):
        q = ctx.tlc("Purity", constants=dict(c0, NOps=4, MaxLen=4, **{flaw: "TRUE"}), invariants=inv, expect_ok=False)
        if not q.violated:
            raise TlcError(f"the purity model does not notice {flaw}")
    torch.set_num_threads(1)
    for h in hist:
        pick = rng.sample(range(len(ops)), K)
        results = []
        for step in h:
            if step["a"] == "reseed":
                s = rng.randrange(10 ** 6)
                torch.manual_seed(s)
                np.random.seed(s)
                random.seed(s)
                continue
            if step["a"] == "overwrite":
                t = results[step["k"] - 1]
                if t is not None:
                    t.fill_(float("nan")) if t.is_floating_point() else t.zero_()
                continue
            i = pick[step["k"] - 1]
            name, build, run = ops[i]
            d = build()
            keep = [v.clone() for v in leaves(d)]
            before = states()
            st, v = call(run, d)
            after = states()
            case = dict(operation=name, history=[(x["a"], ops[pick[x["k"] - 1]][0] if x["a"] == "call" else x["k"]) for x in h])
            ctx.comparisons += 1
            if not same_states(before, after):
                ctx.fail(f"'{name}' changes the global random state", case)
            if not all(torch.equal(a, b) for a, b in zip(keep, leaves(d))):
                ctx.fail(f"'{name}' modifies its inputs", case)
            bst, bv = base[i]
            if st == "err" or bst == "err":
                ctx.fail(f"'{name}' raised {v if st == 'err' else bv!r}", case)
                results.append(None)
                continue
            results.append(v)
            a = v.numpy()
            tol = 1e-6 if a.dtype == np.float32 else 1e-13
            if a.shape != bv.shape or a.dtype != bv.dtype or not np.allclose(a, bv, rtol=tol, atol=tol * max(1e-3, np.abs(bv).max())):
                dd = np.abs(a.astype(float) - bv).max() if a.shape == bv.shape else "shape"
                ctx.fail(f"'{name}' gives another result than in a fresh process (difference {dd})", case)
            for t in leaves(d):
                if t.data_ptr() == v.data_ptr() and v.numel():
                    ctx.fail(f"'{name}' returns one of its inputs", case)
        ctx.trace()
        if ctx.enough():
            return
    ctx.sample([(x["a"], x["k"]) for x in hist[0]])


def batching(ctx):
    rng = ctx.rng
    from torchrir.sim import simulate_rir

    for _ in range(ctx.pick(70, 600)):
        moving = rng.random() < .4
        c = c02.traj_case(rng) if moving else c01.room_case(rng)
        c["nsample"] = min(c["nsample"], 1200)
        c["via"] = "func"
        dirs = rng.choice([None, ("cardioid", "bidir")])

        def go(ch, ach, hpf=False):
            from torchrir.sim import simulate_dynamic_rir

            k = dict(c, chunk=ch, achunk=ach)
            room = c01.build_room(k)
            cfg = c01.config_of(k, rir_hpf_enable=hpf and c["nsample"] > 40)
            kw = dict(room=room, max_order=c["order"], nsample=c["nsample"], config=cfg)
            if c["nb"]:
                kw["nb_img"] = tuple(c["nb"])
            if dirs:
                o = torch.ones(c["dim"], dtype=getattr(torch, c["dtype"]))
                o[0] = -.3
                kw.update(directivity=dirs, orientation=o)
            if moving:
                st, mt = c02.tensors(k)
                return simulate_dynamic_rir(src_traj=st, mic_traj=mt, **kw)
            _, s, m = c01.build_inputs(dict(k, raw=True))
            return simulate_rir(sources=s, mics=m, **kw)

        a = call(go, 10 ** 6, 10 ** 6)
        for ch, ach in ((1, 1), (rng.randint(1, 9), rng.randint(1, 9)), (rng.randint(1, 300), rng.randint(1, 300)),
                        (10 ** 6, rng.randint(1, 40)), (rng.randint(1, 40), 10 ** 6)):
            b = call(go, ch, ach)
            ctx.comparisons += 1
            case = dict(c, chunk=ch, achunk=ach, moving=moving)
            if a[0] == "err" or b[0] == "err":
                ctx.fail(f"batch limits {ch}/{ach}: raised {(a if a[0] == 'err' else b)[1]!r}", case)
                break
            tol = 2e-6 if c["dtype"] == "float32" else 1e-12
            if a[1].shape != b[1].shape or not torch.allclose(a[1], b[1], rtol=tol * 10, atol=tol * max(1., float(a[1].abs().max()))):
                ctx.fail(f"batch limits {ch}/{ach} change the response", case)
                break
        ctx.trace()
        if ctx.enough():
            return


def run(ctx):
    ops = catalogue()
    base = baselines(ctx, ops)
    histories(ctx, ops, base)
    batching(ctx)
    ctx.assumptions.append("single-threaded CPU runs, compared to rounding (tails and seeds to rounding as well)")

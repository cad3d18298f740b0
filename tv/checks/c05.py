"""C05: simulation parameters resolve by one precedence and invalid ones are refused."""

from __future__ import annotations

import math
import warnings

import numpy as np
import torch

from tv import ism
from tv.core import call

NOVAL = 99
FS = 64.0
GEO = dict(dim=3, L=[300, 400, 250], src=[[100, 110, 90], [250, 40, 200]], mic=[[210, 140, 100]],
           beta=[.9, .8, .7, .6, .5, .4], c=10.0, fdl=9)
SRC_O, MIC_O = [[1., 2., 0.], [0., 1., 1.]], [-1., 0., 1.]


def references(ctx):
    """Responses for each order and pattern, from the image specification."""
    ref = {}
    tm = ism.terms(ctx, [dict(L=GEO["L"], order=k, nb=[], src=GEO["src"]) for k in range(4)])
    for k, term in enumerate(tm):
        for pat in ("omni", "cardioid", "bidir"):
            out = np.zeros((2, 1, 64))
            tol = np.zeros((2, 1, 64))
            for s in range(2):
                d, a, b, u = ism.amplitudes(term, s, GEO["mic"][0], GEO["beta"], src_pat=pat, mic_pat=pat,
                                            src_dir=np.array(SRC_O[s]), mic_dir=np.array(MIC_O), full=True)
                out[s, 0], tol[s, 0] = ism.render(d, a, fs=FS, c=GEO["c"], fdl=GEO["fdl"], nsample=64, single=False,
                                                  lut_gran=200, bound=b, unsure=u)
            ref[k, pat] = (out, tol)
    return ref


def scene_parts(dtype=torch.float64):
    from torchrir import MicrophoneArray, Room, Source

    room = Room.shoebox(size=[x * .01 for x in GEO["L"]], fs=FS, c=GEO["c"], beta=GEO["beta"], dtype=dtype)
    sp = torch.tensor(GEO["src"], dtype=torch.float64).mul(.01).to(dtype)
    mp = torch.tensor(GEO["mic"], dtype=torch.float64).mul(.01).to(dtype)
    src = Source.from_positions(sp, orientation=torch.tensor(SRC_O, dtype=dtype))
    mic = MicrophoneArray.from_positions(mp, orientation=torch.tensor(MIC_O, dtype=dtype))
    return room, src, mic


def cfg_values(**k):
    d = dict(rir_hpf_enable=False, frac_delay_length=GEO["fdl"], sinc_lut_granularity=200, use_lut=True)
    d.update(k)
    return d


def make_scene(dynamic, T=2, dtype=torch.float64):
    from torchrir import DynamicScene, StaticScene

    room, src, mic = scene_parts(dtype)
    if not dynamic:
        return StaticScene(room=room, sources=src, mics=mic)
    return DynamicScene(room=room, sources=src, mics=mic, src_traj=src.positions.repeat(T, 1, 1),
                        mic_traj=mic.positions.repeat(T, 1, 1))


def perform(c, extra_cfg=None, **kw):
    """Make the call a model record describes; returns (response tensor, result or None)."""
    from torchrir.config import SimulationConfig
    from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir

    entry = c["entry"]
    cfg = None
    if c["hascfg"]:
        k = cfg_values(**(extra_cfg or {}))
        if c["corder"] != NOVAL:
            k["max_order"] = c["corder"]
        if c["ctmax"] != NOVAL:
            k["tmax"] = c["ctmax"] / 2 / FS
        if c["cdir"] != "unset":
            k["directivity"] = c["cdir"]
        if c["cdev"] != "unset":
            k["device"] = c["cdev"]
        cfg = SimulationConfig(**k)
    a = {}
    if c["order"] != NOVAL:
        a["max_order"] = c["order"]
    elif entry in ("rir", "dyn"):
        a["max_order"] = None
    if c["tmax"] != NOVAL:
        a["tmax"] = c["tmax"] / 2 / FS
    if c["ns"] != NOVAL:
        a["nsample"] = c["ns"]
    if c["dir"] == "none":
        a["directivity"] = None
    elif c["dir"] != "default":
        a["directivity"] = c["dir"]
    if c["dev"] != "unset":
        a["device"] = c["dev"]
    a.update(kw)
    room, src, mic = scene_parts()
    if entry == "rir":
        return simulate_rir(room=room, sources=src, mics=mic, config=cfg, **a), None
    if entry == "dyn":
        return simulate_dynamic_rir(room=room, src_traj=src.positions.repeat(2, 1, 1),
                                    mic_traj=mic.positions.repeat(2, 1, 1),
                                    orientation=(src.orientation, mic.orientation), config=cfg, **a), None
    scene = make_scene(entry == "simdyn")
    r = ISMSimulator(**a).simulate(scene, cfg) if cfg is not None else ISMSimulator(**a).simulate(scene)
    return r.rirs, (r, scene, cfg)


def table(ctx, ref):
    from torchrir.config import default_config

    r = ctx.tlc("Params", constants=dict(EmitMod=ctx.pick(11, 1)), workers=1,
                invariants=["ExplicitOrder", "ConfigOrder", "CountWins", "Duration", "ExplicitDir", "ExplicitDev",
                            "NeverNegative", "NoContradiction", "Emit"])
    recs = r.records
    ctx.rng.shuffle(recs)
    n_hpf = 0
    for rec in recs:
        c = rec["call"]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            st, v = call(perform, c)
        ctx.comparisons += 1
        ctx.count("calls_" + rec["stage"])
        if rec["stage"] == "rejected":
            if st == "ok":
                ctx.fail(f"{c['entry']}: accepted a call that must be refused", c)
            continue
        if st == "err":
            if not rec["idle"]:
                ctx.fail(f"{c['entry']}: raised {type(v).__name__}: {v}", c)
            continue
        rir, extra = v
        dyn = c["entry"] in ("dyn", "simdyn")
        n = rec["res"]["n"]
        shape = ((2,) if dyn else ()) + (2, 1, n)
        if tuple(rir.shape) != shape:
            ctx.fail(f"{c['entry']}: response shape {tuple(rir.shape)}, specification {shape}", c)
            continue
        if rir.dtype != torch.float64 or rir.device.type != "cpu":
            ctx.fail(f"{c['entry']}: response is {rir.dtype} on {rir.device}", c)
            continue
        if not c["hascfg"]:
            # default configuration: high-pass on, default filter length; judged against an explicit default
            st2, v2 = call(perform, dict(c, hascfg=True), {k: getattr(default_config(), k) for k in
                                                           ("rir_hpf_enable", "frac_delay_length",
                                                            "sinc_lut_granularity", "use_lut")},
                           directivity=rec["res"]["dir"], max_order=rec["res"]["order"])
            if st2 == "err" or not torch.equal(v2[0], rir):
                ctx.fail(f"{c['entry']}: without a configuration the result is not that of the defaults", c)
            n_hpf += 1
        else:
            want, tol = ref[rec["res"]["order"], rec["res"]["dir"]]
            got = rir.numpy().reshape(-1, 2, 1, n)
            k = min(n, 64)
            for t in range(got.shape[0]):
                if not (np.abs(got[t, ..., :k] - want[..., :k]) <= tol[..., :k]).all():
                    ctx.fail(f"{c['entry']}: the response is not that of order {rec['res']['order']}, pattern "
                             f"{rec['res']['dir']}", c)
                    break
        warned = any(issubclass(x.category, RuntimeWarning) for x in w)
        if warned != rec["res"]["warns"]:
            ctx.fail(f"{c['entry']}: {'unexpected' if warned else 'missing'} fallback warning", c)
        if extra is not None:
            res, scene, cfg = extra
            if res.scene is not scene and res.scene != scene:
                ctx.fail("result does not carry the scene", c)
            if cfg is not None and res.config != cfg:
                ctx.fail("result does not carry the configuration used", c)
            if cfg is None and res.config != default_config():
                ctx.fail("result does not carry the default configuration", c)
            if res.seed != (cfg.seed if cfg is not None else None):
                ctx.fail("result does not carry the configuration's seed", c)
        ctx.trace()
        if ctx.enough():
            return
    ctx.sample(recs[0])


BAD_CFG = [dict(seed=-1), dict(frac_delay_length=0), dict(frac_delay_length=80), dict(frac_delay_length=-3),
           dict(frac_delay_length=2), dict(sinc_lut_granularity=0), dict(sinc_lut_granularity=-4),
           dict(image_chunk_size=0), dict(image_chunk_size=-1), dict(accumulate_chunk_size=0),
           dict(accumulate_chunk_size=-7), dict(rir_hpf_fc=0.0), dict(rir_hpf_fc=-10.0),
           dict(rir_hpf_kwargs={"n": 0}), dict(rir_hpf_kwargs={"n": -1, "type": "butter"}), dict(fs=0.0),
           dict(fs=-1.0), dict(tmax=0.0), dict(tmax=-.1), dict(max_order=-1)]


def invalid(ctx):
    from torchrir.config import SimulationConfig
    from torchrir import StaticScene
    from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir

    base = dict(corder=NOVAL, ctmax=NOVAL, ns=NOVAL, dir="default", cdir="unset", dev="unset", cdev="unset",
                order=1, tmax=64, hascfg=True)

    def must(what, fn, case):
        st, v = call(fn)
        ctx.comparisons += 1
        if st == "ok":
            ctx.fail(f"{what} was accepted", case)

    for bad in BAD_CFG:
        for entry in ("rir", "dyn", "sim", "simdyn"):
            must(f"{entry} with configuration {bad}",
                 lambda: perform(dict(base, entry=entry, **({"tmax": NOVAL, "ns": 30} if "tmax" in bad else {})), bad),
                 dict(bad=bad, entry=entry))
        must(f"SimulationConfig.replace({bad})", lambda: SimulationConfig().replace(**bad), bad)
        must(f"SimulationConfig.validate of {bad}", lambda: SimulationConfig(**bad).validate(), bad)
    for good in (dict(seed=0), dict(frac_delay_length=1), dict(max_order=0), dict(tmax=1e-3), dict(sinc_lut_granularity=1),
                 dict(image_chunk_size=1, accumulate_chunk_size=1), dict(fs=.5), dict(rir_hpf_fc=.1)):
        st, v = call(lambda: SimulationConfig().replace(**good))
        ctx.comparisons += 1
        if st == "err":
            ctx.fail(f"SimulationConfig.replace({good}) raised {v!r}", good)
        elif any(getattr(v, k) != x for k, x in good.items()):
            ctx.fail(f"SimulationConfig.replace({good}) lost the values", good)
    room, src, mic = scene_parts()
    cfg = SimulationConfig(**cfg_values())
    kw = dict(max_order=1, nsample=30, config=cfg)
    for bad in (None, "room", 3.0, [3, 4, 2], room.size, object()):
        must(f"room={bad!r} (static)", lambda: simulate_rir(room=bad, sources=src, mics=mic, **kw), {})
        must(f"room={bad!r} (moving)", lambda: simulate_dynamic_rir(
            room=bad, src_traj=src.positions[None], mic_traj=mic.positions[None], **kw), {})
    good_s, good_m = src.positions, mic.positions
    for sh in ([2, 2], [2, 4], [2, 1], [1, 2, 3], [2], [4], [1, 1, 1, 3], [0], []):
        x = torch.rand(sh, dtype=torch.float64)
        must(f"source positions of shape {sh}", lambda: simulate_rir(room=room, sources=x, mics=good_m, **kw), dict(sh=sh))
        must(f"mic positions of shape {sh}", lambda: simulate_rir(room=room, sources=good_s, mics=x, **kw), dict(sh=sh))
    g3s, g3m = good_s.repeat(3, 1, 1), good_m.repeat(3, 1, 1)
    for sh in ([2, 1, 3], [4, 1, 3], [3, 1, 2], [3, 1, 4], [3, 2], [3], [3, 1, 1, 3], [1, 1, 3], [2, 3]):
        x = torch.rand(sh, dtype=torch.float64)
        must(f"source trajectory of shape {sh} next to 3 steps",
             lambda: simulate_dynamic_rir(room=room, src_traj=x, mic_traj=g3m, **kw), dict(sh=sh))
        must(f"mic trajectory of shape {sh} next to 3 steps",
             lambda: simulate_dynamic_rir(room=room, src_traj=g3s, mic_traj=x, **kw), dict(sh=sh))
    for nb in ((1, 1), (1, 1, 1, 1), (1,), (-1, 1, 1), (1, 1, -2)):
        must(f"image counts {nb}", lambda: simulate_rir(room=room, sources=src, mics=mic, nb_img=nb, **kw), dict(nb=nb))
        must(f"image counts {nb} (moving)",
             lambda: simulate_dynamic_rir(room=room, src_traj=g3s, mic_traj=g3m, nb_img=nb, **kw), dict(nb=nb))
    # an order of zero in the configuration is an order
    zero = SimulationConfig(**cfg_values(max_order=0))
    st, v = call(lambda: ISMSimulator(max_order=0, nsample=30).simulate(StaticScene(room=room, sources=src, mics=mic), zero).rirs)
    st2, w = call(lambda: simulate_rir(room=room, sources=src, mics=mic, max_order=None, nsample=30, config=zero))
    want = simulate_rir(room=room, sources=src, mics=mic, max_order=0, nsample=30, config=cfg)
    ctx.comparisons += 2
    if st == "err" or st2 == "err" or not torch.equal(v, want) or not torch.equal(w, want):
        ctx.fail("a configured reflection order of zero is not used", dict(got=repr(v)[:200], func=repr(w)[:200]))
    for d in (("omni",), ("omni", "omni", "omni"), "nonsense", ("omni", "nonsense")):
        must(f"directivity {d}", lambda: simulate_rir(room=room, sources=src, mics=mic, directivity=d, **kw), dict(d=d))
    for bad in (None, room, (room, src, mic), "scene"):
        must(f"simulating {type(bad).__name__} as a scene",
             lambda: ISMSimulator(max_order=1, nsample=20).simulate(bad, cfg), {})


def precision_and_length(ctx):
    from torchrir.config import SimulationConfig
    from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir

    rng = ctx.rng
    for _ in range(ctx.pick(60, 400)):
        fs = rng.choice([8000.0, 16000.0, 44100.0, 22050.0, 11025, 1000.5, 3.7])
        tmax = rng.choice([rng.uniform(1e-4, .05), rng.randint(1, 500) / 1e4, 1.5 / fs, .2 / fs, 1 / fs])
        x = tmax * fs
        allowed = {math.ceil(x - 1e-9 * x), math.ceil(x + 1e-9 * x)} if abs(x - round(x)) < 1e-9 * x and x != round(x) \
            else {math.ceil(x)}
        pos_dt, arg_dt = rng.choice([torch.float32, torch.float64]), rng.choice([None, None, torch.float32, torch.float64])
        room, src, mic = scene_parts(pos_dt)
        room_dt = rng.choice([pos_dt, torch.float32, torch.float64])     # the positions decide, not the room
        room = room.replace(fs=fs, size=room.size.to(room_dt))
        entry = rng.choice(["rir", "dyn", "sim", "raw"])
        case = dict(fs=fs, tmax=tmax, pos=str(pos_dt), room=str(room_dt), arg=str(arg_dt), entry=entry)
        cfg = SimulationConfig(**cfg_values())
        ins = rng.random() < .5
        cfgt = SimulationConfig(**cfg_values(tmax=tmax)) if ins else cfg
        kt = {} if ins else dict(tmax=tmax)

        def go():
            if entry == "rir":
                return simulate_rir(room=room, sources=src, mics=mic, max_order=0, config=cfgt, dtype=arg_dt, **kt)
            if entry == "raw":
                return simulate_rir(room=room, sources=src.positions, mics=mic.positions, max_order=0, config=cfgt,
                                    dtype=arg_dt, **kt)
            if entry == "dyn":
                return simulate_dynamic_rir(room=room, src_traj=src.positions[None], mic_traj=mic.positions[None],
                                            max_order=0, config=cfgt, dtype=arg_dt, **kt)[0]
            from torchrir import StaticScene

            return ISMSimulator(max_order=0, tmax=tmax, dtype=arg_dt).simulate(
                StaticScene(room=room, sources=src, mics=mic), cfg).rirs

        st, r = call(go)
        ctx.comparisons += 1
        if st == "err":
            ctx.fail(f"duration {tmax} s at {fs} Hz raised {r!r}", case)
            continue
        if r.shape[-1] not in allowed or tuple(r.shape[:2]) != (2, 1):
            ctx.fail(f"duration {tmax} s at {fs} Hz gave shape {tuple(r.shape)}, expected {sorted(allowed)} samples", case)
        if r.dtype != (arg_dt or pos_dt):
            ctx.fail(f"requested precision {arg_dt}, positions {pos_dt}, result {r.dtype}", case)
        ctx.trace()
    # contradictions however small, agreement however written
    for _ in range(ctx.pick(30, 200)):
        tmax = rng.choice([.3, 1.0, rng.uniform(.01, 3)])
        off = rng.choice([1e-1, 1e-3, 1e-5, 1e-7, 1e-9]) * rng.choice([-1, 1])
        dyn = rng.random() < .5
        scene = make_scene(dyn)
        case = dict(tmax=tmax, off=off, dyn=dyn)
        ctx.comparisons += 1
        st, r = call(lambda: ISMSimulator(max_order=0, tmax=tmax).simulate(scene, SimulationConfig(**cfg_values(tmax=tmax * (1 + off)))))
        if st == "ok":
            ctx.fail("a duration contradicting the configuration's was accepted", case)
        # a sample count settles the length, but not the contradiction
        st, r = call(lambda: ISMSimulator(max_order=0, tmax=tmax, nsample=20).simulate(scene, SimulationConfig(**cfg_values(tmax=tmax * (1 + off)))))
        if st == "ok":
            ctx.fail("a duration contradicting the configuration's was accepted next to a sample count", case)
        same = rng.choice([tmax, np.float64(tmax)])
        st, r = call(lambda: ISMSimulator(max_order=0, tmax=same).simulate(scene, SimulationConfig(**cfg_values(tmax=tmax, max_order=0))))
        if st == "err":
            ctx.fail(f"a duration equal to the configuration's was refused: {r!r}", case)
        ctx.trace()


def run(ctx):
    ref = references(ctx)
    table(ctx, ref)
    invalid(ctx)
    precision_and_length(ctx)
    ctx.assumptions += ["no accelerator in the sandbox: device precedence is observed through the fallback warning and "
                        "the refusal of unknown device names"]

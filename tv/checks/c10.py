"""C10: scene objects accept exactly the well-formed scenes and keep their values."""

from __future__ import annotations

import dataclasses
import math
import warnings

import numpy as np
import torch

from tv.core import call

NUM = {"zero": 0.0, "neg": -2.0, "nan": math.nan, "inf": math.inf, "one": 1.0, "above1": 1.25}


def number(rng, cls, ints=False):
    if cls == "pos":
        if not ints and rng.random() < .15:
            return rng.choice([1., 1e-3, .25, 1e4, rng.uniform(0.001, 1)])
        return rng.randint(1, 9) if ints else rng.uniform(.5, 9)
    if cls == "mid":
        return rng.uniform(.05, .95)
    return int(NUM[cls]) if ints and math.isfinite(NUM[cls]) else NUM[cls]


def nested(rng, shape, fill, odd):
    """Nested list of the shape with one odd element at a random place."""
    n = int(np.prod(shape)) if shape else 1
    flat = [fill() for _ in range(n)]
    if n:
        flat[rng.randrange(n)] = odd
    if not shape:
        return flat[0]

    def build(sh, it):
        return [next(it) for _ in range(sh[0])] if len(sh) == 1 else [build(sh[1:], it) for _ in range(sh[0])]

    return build(list(shape), iter(flat))


def present(rng, v, ints):
    """The same values as list, tensor or array."""
    k = rng.choice(["list", "list", "f32", "f64", "int", "np", "tuple"])
    if k == "int" and not ints:
        k = "f64"
    if k == "f32":
        return torch.tensor(v, dtype=torch.float32)
    if k == "f64":
        return torch.tensor(v, dtype=torch.float64)
    if k == "int":
        flat = np.asarray(v).reshape(-1)
        some = [torch.int64, torch.int32] + [torch.int16, torch.int8] * bool((abs(flat) < 100).all())
        return torch.tensor(v, dtype=rng.choice(some + [torch.uint8] * bool((flat >= 0).all() and (flat < 100).all())))
    if k == "np":
        return np.array(v)
    return tuple(v) if k == "tuple" and isinstance(v, list) else v


def close(got, given, what, ctx, case):
    ctx.comparisons += 1
    a = np.asarray(got, dtype=float)
    b = np.asarray(given.tolist() if torch.is_tensor(given) else given, dtype=float)
    if a.size != b.size or not np.allclose(a.reshape(-1), b.reshape(-1), rtol=3e-7, atol=0):
        ctx.fail(f"{what}: given {b.tolist()}, reported {a.tolist()}", case)
    elif torch.is_tensor(given) and given.dtype == torch.float64 and torch.is_tensor(got) and got.dtype == torch.float64:
        if not np.array_equal(a.reshape(-1), b.reshape(-1)):
            ctx.fail(f"{what}: double-precision value changed", case)


def room_values(rng, t):
    ints = rng.random() < .4 and t["odd"] not in ("nan", "inf")
    size = nested(rng, t["shape"], lambda: number(rng, "pos", ints), number(rng, t["odd"], ints))
    kw = dict(size=present(rng, size, ints))
    for f in ("fs", "c"):
        v = number(rng, t[f], rng.random() < .5)
        kw[f] = v * 1000 if f == "fs" else v
    if t["nbeta"]:
        bi = rng.random() < .3 and t["betaodd"] in ("zero", "one", "neg")
        fill = (lambda: rng.choice([0, 1])) if bi else (lambda: rng.uniform(0, 1))
        kw["beta"] = present(rng, nested(rng, [t["nbeta"]], fill, number(rng, t["betaodd"], bi)), bi)
    if t["t60"] != "unset":
        kw["t60"] = number(rng, t["t60"], rng.random() < .3)
    return kw


def make_room(rng, kw):
    from torchrir import Room

    return Room.shoebox(**kw) if rng.random() < .6 else Room(**kw)


def check_room(ctx, room, kw, case):
    close(room.size, kw["size"], "room size", ctx, case)
    if not torch.is_tensor(room.size) or not room.size.is_floating_point():
        ctx.fail(f"room size has type {getattr(room.size, 'dtype', type(room.size))}", case)
    for f in ("fs", "c"):
        if f in kw and room.__getattribute__(f) != kw[f]:
            ctx.fail(f"room {f} given {kw[f]}, reported {getattr(room, f)}", case)
    if kw.get("beta") is not None:
        close(room.beta, kw["beta"], "reflection coefficients", ctx, case)
    elif room.beta is not None:
        ctx.fail("room reports reflection coefficients never given", case)
    if room.t60 != kw.get("t60"):
        ctx.fail(f"room t60 given {kw.get('t60')}, reported {room.t60}", case)


def rooms(ctx, recs):
    rng = ctx.rng
    for rec in recs:
        kw = room_values(rng, rec["t"])
        st, room = call(make_room, rng, kw)
        case = dict(t=rec["t"], values={k: repr(v) for k, v in kw.items()})
        verdict(ctx, "room", rec["ok"], st, room, case)
        if st == "ok" and rec["ok"]:
            check_room(ctx, room, kw, case)
        # the same change as a replacement of a well-formed object
        st0, old = call(make_room, rng, room_values(rng, rec["from"]))
        if st0 == "ok":
            diff = dict(kw)
            diff.setdefault("beta", None)
            diff.setdefault("t60", None)
            st2, r2 = call(lambda: old.replace(**diff))
            verdict(ctx, "room (replaced fields)", rec["ok"], st2, r2, case)
            if st2 == "ok" and rec["ok"]:
                check_room(ctx, r2, kw, case)
            if rec["ok"]:
                one = {"fs": kw["fs"]}
                st3, r3 = call(lambda: old.replace(**one))
                if st3 == "err" or r3.fs != kw["fs"] or not torch.equal(r3.size, old.size) or r3.t60 != old.t60:
                    ctx.fail("replacing only the sampling rate changed something else or failed", case)
        if ctx.enough():
            return


def verdict(ctx, what, ok, st, v, case):
    ctx.comparisons += 1
    ctx.count(what.split(" ")[0] + ("_accepted" if ok else "_refused"))
    if ok and st == "err":
        ctx.fail(f"well-formed {what} refused: {type(v).__name__}: {v}", case)
    elif not ok and st == "ok":
        ctx.fail(f"malformed {what} accepted", case)
    ctx.trace()


def entities(ctx, recs):
    from torchrir import MicrophoneArray, Source

    rng = ctx.rng
    for rec in recs:
        t = rec["t"]
        ints = rng.random() < .3 and t["odd"] not in ("nan", "inf")
        pos = nested(rng, t["shape"], lambda: number(rng, rng.choice(["pos", "neg", "zero"]), ints), number(rng, t["odd"], ints))
        posv = present(rng, pos, ints)
        oi = rng.random() < .2 and t["oriodd"] not in ("nan", "inf")
        ori = orv = None
        if t["hasori"]:
            ori = nested(rng, t["ori"], lambda: number(rng, rng.choice(["pos", "neg"]), oi), number(rng, t["oriodd"], oi))
            orv = present(rng, ori, oi)
        cls = rng.choice([Source, MicrophoneArray])
        how = rng.choice(["from", "direct"])
        st, e = call(lambda: cls.from_positions(posv, orientation=orv) if how == "from" else cls(posv, orv))
        case = dict(t=t, cls=cls.__name__, positions=repr(posv), orientation=repr(orv))
        verdict(ctx, "device set", rec["ok"], st, e, case)
        if st == "ok" and rec["ok"]:
            close(e.positions, posv, "positions", ctx, case)
            n = 1 if len(t["shape"]) == 1 else t["shape"][0]
            if tuple(e.positions.shape) != (n, t["shape"][-1]) or not e.positions.is_floating_point():
                ctx.fail(f"positions reported as {tuple(e.positions.shape)} {e.positions.dtype}", case)
            if orv is not None:
                close(e.orientation, orv, "orientation", ctx, case)
            elif e.orientation is not None:
                ctx.fail("orientation reported although none was given", case)
        base = cls.from_positions([[1., 2., 3.], [2., 1., 1.]], orientation=[[1., 0., 0.], [0., 1., 0.]])
        st2, e2 = call(lambda: base.replace(positions=posv, orientation=orv))
        verdict(ctx, "device set (replaced fields)", rec["ok"], st2, e2, case)
        if ctx.enough():
            return


def fixed(ctx):
    """An accepted object cannot be turned into a malformed one."""
    from torchrir import DynamicScene, MicrophoneArray, Room, Source, StaticScene

    room = Room.shoebox(size=[3., 4., 5.], fs=8000, beta=[.5] * 6)
    src, mic = Source.from_positions([[1., 1., 1.]]), MicrophoneArray.from_positions([[2., 2., 2.]])
    tr = torch.ones(2, 1, 3)
    for x, bad in ((room, dict(size=torch.tensor([-1., 2., 3.]), fs=0., c=-1., beta=torch.ones(3) * 2, t60=.3)),
                   (src, dict(positions=torch.ones(2), orientation=torch.ones(5, 3))),
                   (mic, dict(positions=torch.full((1, 3), math.nan), orientation=torch.ones(5, 3))),
                   (StaticScene(room=room, sources=src, mics=mic), dict(room=None, sources=mic, mics=src)),
                   (DynamicScene(room=room, sources=src, mics=mic, src_traj=tr, mic_traj=tr), dict(room=None, src_traj=None, mic_traj=tr[:1]))):
        for k, v in bad.items():
            old = getattr(x, k)
            st, _ = call(setattr, x, k, v)
            ctx.comparisons += 1
            if st == "ok" and getattr(x, k) is v:
                ctx.fail(f"{type(x).__name__}.{k} of an accepted object can be set to {v!r}", dict(field=k))
            if getattr(x, k) is not old and not torch.is_tensor(old):
                ctx.fail(f"{type(x).__name__}.{k} changed by a refused assignment", dict(field=k))


def build_scene(rng, t):
    from torchrir import DynamicScene, MicrophoneArray, Room, Scene, Source, StaticScene

    dt = torch.float64
    room = Room.shoebox(size=[5.0, 6.0, 4.0][:t["rdim"]], fs=4000.0, beta=[.8] * (2 * t["rdim"]), dtype=dt)

    def pts(sh):
        v = torch.tensor([rng.uniform(.2, 3.5) for _ in range(int(np.prod(sh)))], dtype=dt).reshape(sh)
        return v

    ints = rng.random() < .2 and t["sodd"] == "pos" and t["modd"] == "pos"
    src = Source.from_positions(pts([t["nsrc"], t["sdim"]]))
    mic = MicrophoneArray.from_positions(pts([t["nmic"], t["mdim"]]))

    def traj(has, sh, odd):
        if not has:
            return None, None
        v = pts(sh)
        if ints:
            v = torch.round(v + .5)
        if odd != "pos":
            v.view(-1)[rng.randrange(v.numel())] = NUM[odd]
        how = rng.choice(["tensor", "tensor", "list", "np"] + (["int"] if ints else []))
        if how == "list":
            return (v.to(torch.int64).tolist() if ints else v.tolist()), v
        if how == "np":
            return v.numpy(), v
        if how == "int":
            return v.to(torch.int64), v
        return v, v

    st, stv = traj(t["hs"], t["st"], t["sodd"])
    mt, mtv = traj(t["hm"], t["mt"], t["modd"])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if t["kind"] == "static":
            sc = StaticScene(room=room, sources=src, mics=mic)
        elif t["kind"] == "dynamic":
            sc = DynamicScene(room=room, sources=src, mics=mic, src_traj=st, mic_traj=mt)
        else:
            sc = Scene(room=room, sources=src, mics=mic, src_traj=st, mic_traj=mt)
            if not any(issubclass(x.category, DeprecationWarning) for x in w):
                raise AssertionError("the deprecated scene form gives no deprecation warning")
    return sc, (room, src, mic, st, mt, stv, mtv)


def scenes(ctx, recs):
    from torchrir import DynamicScene, StaticScene
    from torchrir.config import SimulationConfig
    from torchrir.sim import ISMSimulator

    rng = ctx.rng
    cfg = SimulationConfig(rir_hpf_enable=False, frac_delay_length=9)
    for rec in recs:
        t = rec["t"]
        st, v = call(build_scene, rng, t)
        case = dict(t=t)
        verdict(ctx, "scene", rec["ok"], st, v, case)
        if st == "err" or not rec["ok"]:
            if ctx.enough():
                return
            continue
        sc, (room, src, mic, a, b, av, bv) = v
        if sc.is_dynamic() != rec["dyn"]:
            ctx.fail(f"is_dynamic() is {sc.is_dynamic()}", case)
        if rec["dyn"]:
            close(torch.as_tensor(sc.src_traj), av, "source trajectory", ctx, case)
            close(torch.as_tensor(sc.mic_traj), bv, "microphone trajectory", ctx, case)
        for nm, x, y in (("room", sc.room, room), ("sources", sc.sources, src), ("mics", sc.mics, mic)):
            if x is not y and x != y:
                ctx.fail(f"scene reports another {nm}", case)
        st2, err = call(sc.validate)
        if st2 == "err":
            ctx.fail(f"validate() of an accepted scene raised {err!r}", case)
        # copies with replaced fields are re-validated
        bad_mic = mic.replace(positions=torch.rand(2, 5 - t["rdim"]))
        st3, _ = call(lambda: dataclasses.replace(sc, mics=bad_mic))
        if st3 == "ok":
            ctx.fail("a copy with microphones of another dimension was accepted", case)
        # the deprecated form simulates like the one it stands for
        if t["kind"] == "old":
            sim = ISMSimulator(max_order=1, nsample=120)
            new = DynamicScene(room=room, sources=src, mics=mic, src_traj=a, mic_traj=b) if rec["dyn"] else \
                StaticScene(room=room, sources=src, mics=mic)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ro, rn = call(lambda: sim.simulate(sc, cfg)), call(lambda: sim.simulate(new, cfg))
            ctx.comparisons += 1
            if ro[0] == "err" or rn[0] == "err":
                ctx.fail(f"simulating raised {(ro if ro[0] == 'err' else rn)[1]!r}", case)
            elif not torch.equal(ro[1].rirs, rn[1].rirs):
                ctx.fail("the deprecated scene form simulates differently", case)
            elif type(ro[1].scene) is not type(new) and ro[1].scene is not sc:
                ctx.fail(f"result carries a {type(ro[1].scene).__name__}", case)
            conv = call(sc.to_dynamic_scene if rec["dyn"] else sc.to_static_scene)
            wrong = call(sc.to_static_scene if rec["dyn"] else sc.to_dynamic_scene)
            if conv[0] == "err" or not isinstance(conv[1], type(new)):
                ctx.fail(f"conversion of the deprecated form failed: {conv[1]!r}", case)
            if wrong[0] == "ok":
                ctx.fail("conversion of the deprecated form to the wrong kind succeeded", case)
        if ctx.enough():
            return


def types(ctx):
    from torchrir import DynamicScene, MicrophoneArray, Room, Scene, Source, StaticScene

    room = Room.shoebox(size=[3., 4., 5.], fs=8000)
    src, mic = Source.from_positions([[1., 1., 1.]]), MicrophoneArray.from_positions([[2., 2., 2.]])
    tr = torch.ones(2, 1, 3)
    for bad in ("x", None, 3, torch.ones(1, 3), [[1., 1., 1.]]):
        for k in ("room", "sources", "mics"):
            kw = dict(room=room, sources=src, mics=mic)
            kw[k] = bad
            for nm, fn in (("StaticScene", lambda: StaticScene(**kw)),
                           ("DynamicScene", lambda: DynamicScene(**kw, src_traj=tr, mic_traj=tr)),
                           ("Scene", lambda: Scene(**kw)), ("Scene", lambda: Scene(**kw, src_traj=tr, mic_traj=tr))):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    st, v = call(fn)
                verdict(ctx, f"{nm} with {k}={bad!r}", False, st, v, dict(kind=nm, field=k, bad=repr(bad)))
    # swapped roles
    for fn in (lambda: StaticScene(room=room, sources=mic, mics=src),
               lambda: DynamicScene(room=room, sources=mic, mics=src, src_traj=tr, mic_traj=tr)):
        st, v = call(fn)
        verdict(ctx, "scene with sources and microphones swapped", False, st, v, {})


def run(ctx):
    recs = {}
    for what in ("room", "entity", "scene"):
        r = ctx.tlc("MCScene", constants=dict(What=f'"{what}"', Steps=ctx.pick(2, 3) if what != "entity" else 2, EmitMod=1),
                    invariants=["AlwaysWellFormed", "Emit"], extra_cfg="VIEW View", workers=1, label=f"MCScene {what}",
                    timeout=800)
        recs[what] = r.records
    for _ in range(ctx.pick(1, 4)):
        rooms(ctx, recs["room"])
        entities(ctx, recs["entity"])
        scenes(ctx, recs["scene"])
        if ctx.enough():
            break
    types(ctx)
    fixed(ctx)
    ctx.sample(recs["room"][0])
    ctx.sample(recs["scene"][-1])
    ctx.assumptions += ["malformed objects differ from a well-formed reachable one in up to two (thorough: three) fields",
                        "positions outside the room are accepted by design; empty sets and infinite rates are not judged"]

"""C04: directivity and orientation act per device, as specified by pattern."""

from __future__ import annotations

import math

import numpy as np
import torch

from tv import ism
from tv.checks import c01, c02
from tv.core import call

NAMES = ["omni", "omnidirectional", "homni", "halfomni", "half-omni", "subcardioid", "subcard",
         "cardioid", "card", "hypercardioid", "hypcard", "bidir", "bidirectional", "figure8", "figure-8"]
BAD = ["supercardioid", "", "omni ", "figure 8", "none", "hemi"]
CANON = {4: "omni", 3: "subcardioid", 2: "cardioid", 1: "hypercardioid", 0: "bidir"}


def any_case(rng, s):
    r = rng.random()
    if r < .4:
        return s
    return s.upper() if r < .6 else s.title() if r < .8 else "".join(rng.choice([c, c.upper()]) for c in s)


def orient(rng, dim, n, single_ok=True, bad=False):
    """(shape, nested value) of an orientation."""
    if bad:
        sh = rng.choice([[4], [n + 1, dim], [n + 2, dim], [n, 4], [1, n, dim] if n > 1 else [4], [n + 1, 3 - dim % 2]] +
                        ([[]] if dim == 3 else [[n + 3]]))
    elif dim == 2:
        sh = rng.choice([[], [1], [2], [n, 1], [n, 2], [n, 2]] + ([[n]] if n >= 3 else [])
                        + ([[1, 2], [1, 1]] if rng.random() < .2 else []))
        if sh == [2] and n == 2:
            sh = [n, 2]          # would be ambiguous: a vector or two angles
    else:
        sh = rng.choice([[3], [2], [n, 3], [n, 3], [n, 2]] + ([[1, 3], [1, 2]] if rng.random() < .2 else []))

    def row(k):
        if k == dim:
            v = [rng.randint(-4, 4) for _ in range(dim)]
            if not any(v):
                v[rng.randrange(dim)] = 1
            sc = rng.choice([1.0, 1.0, 1e-3, 1e4, .37, 1e-6, 1e6])
            return [x * sc for x in v]
        return [rng.uniform(-4, 4) + rng.choice([0, 0, 2, -4]) * math.pi for _ in range(k)]

    if sh == []:
        return sh, rng.choice([rng.uniform(-7, 7), rng.uniform(-7, 7), rng.uniform(-30, 30)])
    if len(sh) == 1:
        return sh, row(sh[0])
    if len(sh) == 2:
        return sh, [row(sh[1]) for _ in range(sh[0])]
    return sh, [[row(sh[2]) for _ in range(sh[1])]]


def vector(value, row, dim):
    """Direction of one device, from the row the specification says it uses."""
    v = np.asarray(value, dtype=float)
    if row["row"] > 0:
        v = v[row["row"] - 1]
    v = v.reshape(-1)
    if row["kind"] == "vec":
        return v[:dim]
    if row["kind"] == "angle":
        return np.array([math.cos(v[0]), math.sin(v[0])])
    az, el = v[0], v[1]
    return np.array([math.cos(el) * math.cos(az), math.cos(el) * math.sin(az), math.sin(el)])


def make_case(rng):
    moving = rng.random() < .45
    c = c02.traj_case(rng, T=rng.choice([1, 2, 3])) if moving else c01.room_case(rng)
    c["order"] = min(c["order"], 4)
    c["nsample"] = min(c["nsample"], 1500)
    c["moving"] = moving
    ns, nm, dim = len(c["src"]), len(c["mic"]), c["dim"]
    c["nsrc"], c["nmic"] = ns, nm
    via = rng.choice(["func", "scene"])
    c["via"] = via
    bad = rng.random() < .25
    kind = rng.choice(["none", "unknown", "shape", "shape", "patlen", "orilen"]) if bad else ""
    side_bad = rng.choice(["src", "mic"])
    same_pattern = rng.random() < .3
    pats = [rng.choice(NAMES), rng.choice(NAMES)]
    if same_pattern:
        pats[1] = pats[0]
    c["pair_pattern"] = not same_pattern or rng.random() < .5
    c["argmode"] = "none"
    if via == "func":
        c["argmode"] = rng.choice(["none", "pair", "pair", "both"]) if not moving else rng.choice(["pair", "both"])
    if kind == "orilen":
        c["via"] = via = "func"
        c["argmode"] = "pair"
    both = orient(rng, dim, rng.choice([ns, nm]))
    for side, n, p in (("src", ns, pats[0]), ("mic", nm, pats[1])):
        d = dict(pattern=p, arg="none", has=False, shape=[], argshape=[], value=None, argvalue=None)
        directional = p not in ("omni", "omnidirectional")
        can_have = via == "scene" or not (moving or c["raw"])
        if kind == "unknown" and side == side_bad:
            d["pattern"] = rng.choice(BAD)
            c["pair_pattern"] = True
        if can_have and (c["argmode"] == "none" or rng.random() < .5):
            if directional or rng.random() < .3:
                d["has"] = True
                d["shape"], d["value"] = orient(rng, dim, n)
                while d["shape"] and len(d["shape"]) == 2 and d["shape"][0] != n:
                    d["shape"], d["value"] = orient(rng, dim, n)
        if c["argmode"] == "both":
            d["arg"], (d["argshape"], d["argvalue"]) = "given", both
        elif c["argmode"] == "pair" and (directional or d["has"] or rng.random() < .5):
            d["arg"] = "given"
            d["argshape"], d["argvalue"] = orient(rng, dim, n, bad=kind == "shape" and side == side_bad)
        if kind == "none" and side == side_bad:
            d.update(has=False, arg="none")
            if c["argmode"] == "both":
                c["argmode"] = "none"
        c[side + "_o"] = d
    if c["argmode"] == "none":
        for s in ("src_o", "mic_o"):
            c[s]["arg"] = "none"
    c["src_o"]["spelled"] = any_case(rng, c["src_o"]["pattern"])
    c["mic_o"]["spelled"] = any_case(rng, c["mic_o"]["pattern"]) if c["pair_pattern"] else c["src_o"]["spelled"]
    if not c["pair_pattern"]:
        c["mic_o"]["pattern"] = c["src_o"]["pattern"]
    c["listpair"] = rng.random() < .3
    c["patlen"] = c["orilen"] = 2
    if kind == "patlen":
        c["pair_pattern"], c["patlen"] = True, rng.choice([0, 1, 3, 4])
    elif kind == "orilen":
        c["orilen"] = rng.choice([0, 1, 3, 3])
    return c


def resized(t, n):
    return type(t)((list(t) + [t[-1]] * 4)[:n])


def simulate(c, given):
    from torchrir import DynamicScene, MicrophoneArray, Source, StaticScene
    from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir

    dt = getattr(torch, c["dtype"])
    so, mo = c["src_o"], c["mic_o"]

    def ten(v):
        t = torch.tensor(v, dtype=dt)
        given.append((t, t.clone()))
        return t

    pat = [so["spelled"], mo["spelled"]]
    pat = resized(pat if c["listpair"] else tuple(pat), c["patlen"]) if c["pair_pattern"] else so["spelled"]
    ori = None
    if c["argmode"] == "both":
        ori = ten(so["argvalue"])
    elif c["argmode"] == "pair":
        ori = resized(tuple(ten(d["argvalue"]) if d["arg"] == "given" else None for d in (so, mo)), c["orilen"])
    room = c01.build_room(c)
    nb = tuple(c["nb"]) if c["nb"] else None
    cfg = c01.config_of(c)
    if c["moving"]:
        st, mt = c02.tensors(c)
        if c["via"] == "scene":
            sc = DynamicScene(
                room=room,
                sources=Source.from_positions(st[0], orientation=ten(so["value"]) if so["has"] else None),
                mics=MicrophoneArray.from_positions(mt[0], orientation=ten(mo["value"]) if mo["has"] else None),
                src_traj=st, mic_traj=mt)
            return ISMSimulator(max_order=c["order"], nsample=c["nsample"], nb_img=nb, directivity=pat).simulate(sc, cfg).rirs
        return simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, max_order=c["order"], nsample=c["nsample"],
                                    nb_img=nb, directivity=pat, orientation=ori, config=cfg)
    sp = (torch.tensor(c["src"], dtype=torch.float64) * ism.unit(c)).to(dt)
    mp = (torch.tensor(c["mic"], dtype=torch.float64) * ism.unit(c)).to(dt)
    if c["via"] == "scene" or not c["raw"]:
        sp = Source.from_positions(sp, orientation=ten(so["value"]) if so["has"] else None)
        mp = MicrophoneArray.from_positions(mp, orientation=ten(mo["value"]) if mo["has"] else None)
    if c["via"] == "scene":
        sc = StaticScene(room=room, sources=sp, mics=mp)
        return ISMSimulator(max_order=c["order"], nsample=c["nsample"], nb_img=nb, directivity=pat).simulate(sc, cfg).rirs
    return simulate_rir(room=room, sources=sp, mics=mp, max_order=c["order"], nsample=c["nsample"], nb_img=nb,
                        directivity=pat, orientation=ori, config=cfg)


def brief(c):
    return {k: v for k, v in c.items() if k not in ("src", "mic")}


def run(ctx):
    rng = ctx.rng
    ctx.tlc("MCDirectivity", constants=dict(MaxDev=4),
            invariants=["LengthFree", "DistFree", "OnAxis", "Behind", "Side", "Exchange", "OmniFlat", "Odd",
                        "HalfSplit", "ShapesOk"], workers=4)
    cases = [make_case(rng) for _ in range(ctx.pick(220, 2000))]
    recs = []
    for a in range(0, len(cases), 500):
        part = [dict(id=i, dim=c["dim"], nsrc=c["nsrc"], nmic=c["nmic"],
                     patlen=c["patlen"], orilen=c["orilen"],
                     src={k: c["src_o"][k] for k in ("pattern", "arg", "has", "shape", "argshape")},
                     mic={k: c["mic_o"][k] for k in ("pattern", "arg", "has", "shape", "argshape")})
                for i, c in enumerate(cases[a:a + 500])]
        recs += sorted(ctx.tlc("DirectivityEval", cases=part).records, key=lambda r: r["id"])
    geo = ism.terms(ctx, [c02.frame_cases(c) if c["moving"] else c for c in cases])
    for c, rec, term in zip(cases, recs, geo):
        given = []
        st, r = call(simulate, c, given)
        if not all(torch.equal(a, b) for a, b in given):
            ctx.fail("simulating changed the orientations it was given", c)
            continue
        ctx.count("outcome_" + rec["ok"])
        what = (f"patterns {c['src_o']['spelled']}/{c['mic_o']['spelled']}, "
                f"{'moving' if c['moving'] else 'static'} via {c['via']}")
        if rec["ok"] == "reject":
            ctx.comparisons += 1
            if st == "ok":
                ctx.fail(f"simulated although it must be refused ({what})", c)
            continue
        if st == "err":
            if rec["ok"] == "ok":
                ctx.fail(f"raised {type(r).__name__}: {r} ({what})", c)
            continue
        ns, nm = c["nsrc"], c["nmic"]
        T = c["T"] if c["moving"] else 1
        shape = ((T,) if c["moving"] else ()) + (ns, nm, c["nsample"])
        if tuple(r.shape) != shape:
            ctx.fail(f"shape {tuple(r.shape)}, expected {shape} ({what})", c)
            continue
        arr = r.numpy().astype(float).reshape(T, ns, nm, c["nsample"])
        dirs, pats = {}, {}
        for s, n in (("src", ns), ("mic", nm)):
            k, a4 = rec[s]["pat"]
            pats[s] = "homni" if k == "half" else CANON[a4]
            if pats[s] != "omni":
                d = c[s + "_o"]
                v = d["argvalue"] if rec[s]["u"] == "arg" else d["value"]
                dirs[s] = [vector(v, row, c["dim"]) for row in rec[s]["rows"]]
            else:
                dirs[s] = [None] * n
        done = False
        for t in range(T):
            for s in range(ns):
                for m in range(nm):
                    mp = c["mic_t"][t][m] if c["moving"] else c["mic"][m]
                    dist, amp, bound, unsure = ism.amplitudes(
                        term, t * ns + s if c["moving"] else s, mp, c["beta"], unit=ism.unit(c), src_pat=pats["src"],
                        mic_pat=pats["mic"], src_dir=dirs["src"][s], mic_dir=dirs["mic"][m], full=True)
                    want, tol = ism.render(dist, amp, fs=c["fs"], c=c["c"], fdl=c["fdl"], nsample=c["nsample"],
                                           single=c["dtype"] == "float32",
                                           lut_gran=c["gran"] if c["use_lut"] else None,
                                           bound=bound, unsure=unsure)
                    ok, k, d, tl = ism.worst(arr[t, s, m], want, tol)
                    ctx.comparisons += c["nsample"]
                    if not ok and not done:
                        done = True
                        ctx.fail(f"step {t} source {s} mic {m} sample {k}: got {arr[t, s, m, k]:.7g}, specification "
                                 f"{want[k]:.7g} (|diff| {d:.3g} > {tl:.3g}; {what})", c)
        ctx.trace()
        if ctx.enough():
            break
    ctx.sample(brief(cases[0]))
    ctx.assumptions += ["two 2-D devices with a two-element orientation are not exercised (ambiguous)",
                        "float rounding within a stated envelope; half-omni images grazed within 1e-4 are not judged"]

"""C22: array constructors produce the geometry they name (Arrays.tla)."""

from __future__ import annotations

import copy
import math

import numpy as np
import torch

from tv.core import call

PHI = (1 + math.sqrt(5)) / 2


def centre(rng, dim, shift=None):
    """The same centre in several kinds: (values, presentation, dtype name)."""
    ints = rng.random() < .45
    v = [rng.randrange(-4, 9) if ints else round(rng.uniform(-4, 9), 3) for _ in range(dim)]
    how = rng.choice(["list", "tuple", "f32", "f64", "np"] + (["i64", "i32"] if ints else []))
    p = {"list": list(v), "tuple": tuple(v), "f32": torch.tensor(v, dtype=torch.float32),
         "f64": torch.tensor(v, dtype=torch.float64), "np": np.array(v, dtype=float)}.get(how)
    if how in ("i64", "i32"):
        p = torch.tensor(v, dtype=torch.int64 if how == "i64" else torch.int32)
    if how == "f32":
        v = p.double().tolist()
    return np.array(v, dtype=float), p, how


def vector(rng, dim):
    """Directions and normals, also along and near the axes."""
    u = rng.random()
    if u < .5:
        v = [0.0] * dim
        v[rng.randrange(dim)] = rng.choice([-1.0, 1.0, -2.5, 3.0])
        if u < .1:
            v[rng.randrange(dim)] += rng.choice([1e-3, -1e-3])
    else:
        v = [rng.uniform(-2, 2) for _ in range(dim)]
        if all(abs(x) < .2 for x in v):
            v[0] = 1.0
    if rng.random() < .2:
        v = [int(x) if abs(x) >= 1 else 0 for x in v]
        if not any(v):
            v[-1] = 1
    elif rng.random() < .25:
        # only the way it points counts
        k = rng.choice([1e-5, 1e-4, 1e-2, 1e3, 1e5])
        v = [x * k for x in v]
    return v


def unchanged(before, now):
    if torch.is_tensor(before) or isinstance(before, np.ndarray):
        return type(now) is type(before) and now.dtype == before.dtype and bool((now == before).all())
    return now == before


def run(ctx):
    from torchrir import geometry as g

    rng = ctx.rng
    recs = ctx.tlc("MCArrays", constants=dict(MaxN=ctx.pick(7, 16), EmitOn="TRUE"), invariants=["LawsHold", "Emit"]).records
    rng.shuffle(recs)

    def pts(layout):
        return np.array([[a + b * PHI for a, b in v] for v in layout], dtype=float)

    def make(c, cen, rad, seedv):
        """The call for a model request around the centre `cen`."""
        kw = {}
        if seedv["dtype"] is not None:
            kw["dtype"] = seedv["dtype"]
        m = c["make"]
        if m == "linear":
            if c["dirdim"]:
                kw["direction"] = seedv["vec"]
                if rng.random() < .5:
                    kw["axis"] = 0
            else:
                kw["axis"] = c["axis"]
            return lambda: g.linear_array(cen, num=c["n"], spacing=rad, **kw)
        if m == "circular":
            if c["normdim"]:
                kw["normal"] = seedv["vec"]
            else:
                kw["plane"] = seedv["plane"]
            return lambda: g.circular_array(cen, num=c["n"], radius=rad, **kw)
        if m == "sphere":
            if c["kind"] in ("em32", "em64"):
                fn = g.eigenmike_em32 if c["kind"] == "em32" else g.eigenmike_em64
                if seedv["az"]:
                    kw["azimuth_offset_deg"] = seedv["az"]
                return lambda: fn(cen, radius=rad, **kw)
            return lambda: g.polyhedron_array(cen, kind=seedv["kind"], radius=rad, **kw)
        return lambda: g.binaural_array(cen, offset=rad, **kw)

    reps = ctx.pick(2, 12)
    for rec in recs:
        c = rec["c"]
        m = c["make"]
        size = c.get("size", 1)
        for _ in range(reps * (6 if m in ("sphere", "binaural") else 1)):
            cv, cen, how = centre(rng, c["dim"])
            rad = {1: rng.choice([.042, .08, 1, .5, 2.0, round(rng.uniform(.01, 3), 4)]), 0: 0, -1: -rng.uniform(.01, 2)}[size]
            vd = c.get("dirdim") or c.get("normdim") or 0
            case_ = lambda s: rng.choice([s, s.upper(), s.title()])
            sv = dict(dtype=rng.choice([None, None, torch.float32, torch.float64]), vec=vector(rng, vd) if vd else None,
                      plane=case_(c.get("plane", "")), kind=case_(c.get("kind", "")), az=rng.choice([0, 0, 90.0, -37.5, 400]))
            if sv["vec"] is not None and rng.random() < .5:
                ints = all(isinstance(x, int) for x in sv["vec"])
                sv["vec"] = torch.tensor(sv["vec"], dtype=rng.choice([None, None if ints else torch.float64]))
            fn = make(c, cen, rad, sv)
            given = copy.deepcopy((cen, sv["vec"]))
            st, out = call(fn)
            if not (unchanged(given[0], cen) and unchanged(given[1], sv["vec"])):
                ctx.fail(f"a {m} array changed the values it was given: {given} became {(cen, sv['vec'])}", dict(request=c))
            case = dict(request=c, centre=repr(cen), size=rad, **{k: repr(v) for k, v in sv.items()})
            ctx.trace()
            ctx.comparisons += 1
            if not rec["ok"]:
                ctx.count("refused")
                if st == "ok":
                    ctx.fail(f"a {m} request that must be refused gave {tuple(out.shape)}", case)
                continue
            ctx.count(m if m != "sphere" else c["kind"])
            if st == "err":
                ctx.fail(f"{m} array failed: {type(out).__name__}: {out}", case)
                continue
            bad = judge(c, rec["layout"], cv, rad, sv, out, pts, how)
            if bad:
                ctx.fail(f"{m} array ({c.get('kind', c.get('plane', ''))}), centre as {how}: {bad}", case)
                continue
            # moving the centre moves the array
            sh = np.array([rng.randrange(-3, 4) for _ in range(c["dim"])], dtype=float)
            if torch.is_tensor(cen) and cen.dtype in (torch.int32, torch.int64):
                cen2 = cen + torch.tensor(sh).to(cen.dtype)
            elif torch.is_tensor(cen):
                cen2 = cen + torch.tensor(sh, dtype=cen.dtype)
            elif isinstance(cen, np.ndarray):
                cen2 = cen + sh
            else:
                cen2 = type(cen)(x + (int(s) if isinstance(x, int) else s) for x, s in zip(cen, sh))
            st2, out2 = call(make(c, cen2, rad, sv))
            ctx.comparisons += 1
            if st2 == "err" or not np.allclose(out2.double().numpy(), out.double().numpy() + sh, atol=1e-5, rtol=0):
                ctx.fail(f"translating the centre of a {m} array does not translate it", case)
        if ctx.enough():
            break
    ctx.sample(recs[0])
    ctx.assumptions += ["the order of polyhedron vertices and the phase of circular arrays are not prescribed",
                        "the em64 table is taken from the repository's base revision; the em32 table has independent laws"]


def judge(c, layout, cv, rad, sv, out, pts, how):
    if not torch.is_tensor(out) or not out.is_floating_point():
        return f"result is {getattr(out, 'dtype', type(out))}"
    if sv["dtype"] is not None and out.dtype != sv["dtype"]:
        return f"asked for {sv['dtype']}, got {out.dtype}"
    x = out.double().numpy()
    if not np.isfinite(x).all():
        return "positions are not finite"
    off = x - cv
    tol = 4e-6 * (1 + np.abs(cv).max()) + 2e-6 * rad
    if out.dtype == torch.float64:
        tol *= 1e-6
    n = c.get("n")
    m = c["make"]
    if m == "linear":
        if x.shape != (n, c["dim"]):
            return f"shape {x.shape}"
        d = np.zeros(c["dim"])
        if sv["vec"] is not None:
            d = np.array([float(t) for t in sv["vec"]])
            d = d / np.linalg.norm(d)
        else:
            d[c["axis"]] = 1
        want = np.array(layout)[:, None] / 2 * rad * d
        return None if np.allclose(off, want, atol=tol * n, rtol=0) else f"offsets {off.tolist()} instead of {want.tolist()}"
    if m == "circular":
        if x.shape != (n, c["dim"]):
            return f"shape {x.shape}"
        if not np.allclose(np.linalg.norm(off, axis=1), rad, atol=tol, rtol=0):
            return "not at the requested radius"
        if c["dim"] == 3:
            if sv["vec"] is not None:
                nv = np.array([float(t) for t in sv["vec"]])
                nv = nv / np.linalg.norm(nv)
            else:
                nv = np.array({"xy": [0, 0, 1], "xz": [0, 1, 0], "yz": [1, 0, 0]}[sv["plane"].lower()], dtype=float)
            if not np.allclose(off @ nv, 0, atol=4 * tol, rtol=0):
                return "not in the requested plane"
            e1 = off[0] / np.linalg.norm(off[0])
            e2 = np.cross(nv, e1)
            ang = np.arctan2(off @ e2, off @ e1)
        else:
            a0 = math.atan2(off[0, 1], off[0, 0])
            ang = np.arctan2(off[:, 1], off[:, 0]) - a0
        want = 2 * np.pi * np.arange(n) / n
        at = 6 * tol / rad + (1e-11 if out.dtype == torch.float64 else 1e-5)
        ok = any(np.allclose(np.angle(np.exp(1j * (ang - s * want))), 0, atol=at) for s in (1, -1))
        return None if ok else "not evenly spaced"
    if m == "binaural":
        if x.shape != (2, c["dim"]):
            return f"shape {x.shape}"
        if not np.allclose(off[0], -off[1], atol=tol) or not np.allclose(np.abs(np.linalg.norm(off, axis=1)), rad, atol=tol):
            return f"offsets {off.tolist()} for offset {rad}"
        if not np.allclose(np.abs(off[:, 0]), rad, atol=tol):
            return "not along the first axis"
        return None
    if c["kind"] in ("em32", "em64"):
        t = np.deg2rad(np.array(layout, dtype=float) / 1e4)
        th, ph = t[:, 0], t[:, 1] + np.deg2rad(sv["az"])
        want = rad * np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], 1)
        if x.shape != want.shape:
            return f"shape {x.shape}"
        return None if np.allclose(off, want, atol=tol if out.dtype == torch.float64 else tol + 2e-6 * rad, rtol=0) else \
            f"capsule {int(np.abs(off - want).max(1).argmax())} is misplaced"
    want = pts(layout)
    want = rad * want / np.linalg.norm(want, axis=1, keepdims=True)
    if x.shape != want.shape:
        return f"shape {x.shape}"
    d = np.linalg.norm(off[:, None] - want[None], axis=2)
    if not (d.min(1) < 2 * tol).all() or not (d.min(0) < 2 * tol).all():
        return "not the solid's vertex set"
    return None

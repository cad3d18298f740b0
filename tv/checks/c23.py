"""C23: sampled positions and trajectories satisfy their constraints (Places.tla)."""

from __future__ import annotations

import random

import numpy as np
import torch

from tv.core import call

U = 2000.0      # units per metre: half millimetres


def run(ctx):
    from torchrir import geometry as g
    from torchrir.geometry import sampling as s

    rng = ctx.rng
    ctx.tlc("MCPlaces", constants=dict(S=ctx.pick(4, 5), MaxTry=3), invariants=["Sound", "Infeasible", "Sure", "ClampLaws"],
            workers=4)

    cases, meta = [], []

    def add(case, info):
        case["id"] = len(cases)
        cases.append(case)
        meta.append(info)

    def size_tensor(units, ints):
        v = [u / U for u in units]
        if ints:
            return torch.tensor([int(x) for x in v])
        return torch.tensor(v, dtype=rng.choice([torch.float32, torch.float64]))

    for k in range(ctx.pick(700, 12000)):
        dim = rng.choice([2, 3, 3])
        ints = rng.random() < .2
        size = [rng.randrange(2, 10) * 2000 if ints else rng.randrange(1000, 18000) for _ in range(dim)]
        # margins of every feasibility, down to one point left and none
        lim = min(size) // 2
        margin = rng.choice([0, rng.randrange(0, lim + 1), 200, 1000, lim if min(size) % 2 == 0 else lim - 1,
                             lim + rng.randrange(5, 2000)])
        if margin * 2 == min(size) and not ints:
            margin -= 1     # at the very edge the float division decides
        num = rng.choice([1, 1, 2, 5, 17])
        which = rng.choice(["plain", "z", "dist", "dist"])
        z = []
        if which != "plain" and rng.random() < .8:
            zs = size[2] if dim == 3 else 4000
            a = rng.randrange(-500, zs + 1500)
            z = rng.choice([[a, a + rng.randrange(50, 3000)], [a, a], [3000, 3600], [a, a - 300]])
            if dim == 3:
                # keep away from ranges that touch the permitted interval in one point by rounding
                lo, hi = max(margin, z[0]), min(size[2] - margin, z[1])
                if abs(hi - lo) < 4 and z[0] != z[1]:
                    z = []
                if z and z[0] == z[1] and (abs(z[0] - margin) < 4 or abs(z[0] - size[2] + margin) < 4):
                    z = []
        r = dict(size=size, margin=margin, z=z, centre=[], dist=0, num=num)
        kw = dict(num=num, room_size=size_tensor(size, ints), margin=margin / U)
        if margin == 1000 and rng.random() < .5:
            del kw["margin"]        # the documented default
        seed = rng.randrange(10 ** 6)
        if which == "plain":
            fn = lambda q: g.sample_positions(rng=random.Random(q), **kw)
        elif which == "z":
            zf = getattr(s, "sample_positions_with_z_range", None)
            if zf is None:
                continue
            if not z:
                r["z"] = [3000, 3600]
                if dim == 3 and (abs(min(size[2] - margin, 3600) - max(margin, 3000)) < 4):
                    continue
            else:
                kw["z_range"] = tuple(x / U for x in z)
            fn = lambda q: zf(rng=random.Random(q), **kw)
        else:
            cen = [rng.randrange(-500, x + 500) if rng.random() < .2 else rng.randrange(0, x) for x in size]
            dist = rng.choice([0, rng.randrange(0, 3000), rng.randrange(0, max(size)), max(size) * 2])
            r.update(centre=cen, dist=dist)
            kw.update(center=torch.tensor([x / U for x in cen], dtype=rng.choice([torch.float32, torch.float64])),
                      min_distance=dist / U, z_range=tuple(x / U for x in z) if z else None,
                      max_attempts=rng.choice([1000, 300]))
            if rng.random() < .25 and not (dim == 3 and abs(min(size[2] - margin, 3600) - max(margin, 3000)) < 4):
                del kw["z_range"]       # the documented default
                r["z"] = [3000, 3600]
            fn = lambda q: g.sample_positions_min_distance(rng=random.Random(q), **kw)
        gs = torch.random.get_rng_state().clone()
        st, out = call(fn, seed)
        st2, out2 = call(fn, seed)
        info = dict(which=which, r=r, kw={k: repr(v) for k, v in kw.items()}, seed=seed, st=st, out=out)
        ctx.comparisons += 1
        if st != st2 or (st == "ok" and not torch.equal(out, out2)):
            ctx.fail(f"{which}: the same seed gives different positions", info)
        if not torch.equal(gs, torch.random.get_rng_state()):
            ctx.fail(f"{which}: sampling draws from the global generator", info)
        if st == "ok":
            st3, out3 = call(fn, seed + 1)
            wide = all(x - 2 * margin > 50 for x in size)
            if wide and st3 == "ok" and torch.equal(out, out3):
                ctx.fail(f"{which}: different seeds give the same positions", info)
            if out.shape != (num, dim) or not torch.isfinite(out).all():
                ctx.fail(f"{which}: shape {tuple(out.shape)} or non-finite positions", info)
                continue
            # exact comparison in floating point as well, to rounding
            x = out.double().numpy()
            eps = 2e-6 * (1 + max(size) / U)
            if (x < margin / U - eps).any() or (x > np.array(size) / U - margin / U + eps).any():
                ctx.fail(f"{which}: a position lies outside the margin: {x.tolist()}", info)
            if which == "dist" and (np.linalg.norm(x - np.array(r["centre"]) / U, axis=1) < r["dist"] / U - eps).any():
                ctx.fail(f"{which}: a position is too near: {x.tolist()}", info)
            ps = [[round(float(v) * U) for v in p] for p in out]
        else:
            ps = []
        add(dict(what="sample", r=r, out=st, ps=ps, a=[], b=[], n=0), info)

    # small spaces, where many draws come close to the limits
    for k in range(ctx.pick(120, 1500)):
        dim = rng.choice([2, 3])
        size = [rng.randrange(24, 160) for _ in range(dim)]
        margin, n, dist = rng.randrange(0, 10), rng.choice([10, 40]), rng.randrange(2, max(size) // 2)
        cen = [rng.randrange(0, x) for x in size]
        st, out = call(lambda: g.sample_positions_min_distance(
            num=n, room_size=size_tensor(size, False), rng=random.Random(rng.random()), center=torch.tensor([x / U for x in cen]),
            min_distance=dist / U, margin=margin / U, z_range=None, max_attempts=20000))
        far = sum(max(abs(margin - c), abs(x - margin - c)) ** 2 for x, c in zip(size, cen)) ** .5
        info = dict(which="small", size=size, margin=margin, dist=dist, centre=cen, out=repr(out)[:400])
        ctx.comparisons += 1
        if st == "err":
            if far > 1.3 * dist:
                ctx.fail(f"small: a satisfiable distance is refused: {out!r}", info)
            continue
        ctx.count("small")
        x = out.double().numpy() * U
        away = np.linalg.norm(x - np.array(cen), axis=1)
        if x.shape != (n, dim) or (away < dist - 1e-3).any():
            ctx.fail(f"small: {n} positions at least {dist} away are {away.tolist()} away", info)
        elif (x < margin - 1e-3).any() or (x > np.array(size) - margin + 1e-3).any():
            ctx.fail(f"small: a position lies outside the margin", info)

    # many draws: everything permitted can come
    for k in range(ctx.pick(60, 600)):
        dim = rng.choice([2, 3, 3])
        size = [rng.choice([rng.randrange(1000, 18000), rng.randrange(100, 1000)]) for _ in range(dim)]
        lim = min(size) // 2
        margin = rng.choice([0, 0, min(20, lim - 20), rng.randrange(0, lim - 20), lim - 20])
        which = rng.choice(["plain", "z", "dist"])
        z = []
        if which != "plain" and dim == 3 and rng.random() < .7:
            a = rng.randrange(margin, size[2] - margin - 20)
            z = [max(0, a - rng.choice([0, 500])), a + rng.randrange(10, 3000)]
        n = rng.choice([250, 250, 900])
        r = dict(size=size, margin=margin, z=z, centre=[], dist=0, num=n)
        kw = dict(num=n, room_size=size_tensor(size, False), margin=margin / U, rng=random.Random(rng.random()))
        if which == "plain":
            st, out = call(lambda: g.sample_positions(**kw))
        elif which == "z":
            zf = getattr(s, "sample_positions_with_z_range", None)
            if zf is None:
                continue
            st, out = call(lambda: zf(z_range=tuple(x / U for x in z) if z else (0., 1e3), **kw))
        else:
            cen = [x // 2 for x in size]
            st, out = call(lambda: g.sample_positions_min_distance(
                z_range=tuple(x / U for x in z) if z else None, center=torch.tensor([x / U for x in cen]),
                min_distance=rng.choice([0., min(size) / U / 8]), max_attempts=20000, **kw))
        ps = [[round(float(v) * U) for v in p] for p in out] if st == "ok" else []
        add(dict(what="sample", r=r, out=st, ps=ps, a=[], b=[], n=1),
            dict(which="reach " + which, r=r, st=st, out=out if st == "err" else out[:5].tolist()))

    for k in range(ctx.pick(250, 4000)):
        dim = rng.choice([2, 3])
        ints = rng.random() < .3
        size = [rng.randrange(1, 10) * 2000 if ints else rng.randrange(1000, 18000) for _ in range(dim)]
        margin = rng.choice([0, 200, rng.randrange(0, min(size) // 2)])
        ps = [[rng.choice([rng.randrange(-4000, x + 4000), margin, x - margin, rng.randrange(0, x)]) for x in size]
              for _ in range(rng.randrange(1, 6))]
        dt = rng.choice([torch.float32, torch.float64])
        pt = torch.tensor([[v / U for v in p] for p in ps], dtype=dt)
        lead = rng.choice([0, 0, 1])
        arg = pt[None] if lead else pt
        keep = arg.clone()
        rs = size_tensor(size, ints)
        kw = {} if margin == 200 and rng.random() < .5 else dict(margin=margin / U)
        st, out = call(lambda: g.clamp_positions(arg, rs, **kw))
        info = dict(which="clamp", size=repr(rs), margin=margin / U, positions=pt.tolist(), st=st, out=out, arg=pt)
        if not torch.equal(arg, keep):
            ctx.fail("clamping changed its argument", info)
        if st == "ok" and out.shape != arg.shape:
            ctx.fail(f"clamping changed the shape to {tuple(out.shape)}", info)
            continue
        if st == "ok" and lead:
            info["out"] = out[0]
        add(dict(what="clamp", r=dict(size=size, margin=margin, z=[], centre=[], dist=0, num=0), out=st, ps=ps, a=[], b=[],
                 n=0), info)

    for k in range(ctx.pick(150, 2000)):
        dim = rng.choice([2, 3, 3, 1])
        n = rng.choice([1, 2, 2, 3, 5, rng.randrange(1, 40)])
        a = [rng.randrange(-8, 9) for _ in range(dim)]
        b = list(a) if rng.random() < .1 else [rng.randrange(-8, 9) for _ in range(dim)]
        dt = rng.choice([torch.float32, torch.float64, torch.int64])
        st, out = call(lambda: g.linear_trajectory(torch.tensor(a, dtype=dt), torch.tensor(b, dtype=dt), n))
        add(dict(what="line", r=dict(size=[], margin=0, z=[], centre=[], dist=0, num=0), out=st, ps=[], a=a, b=b, n=n),
            dict(which="line", a=a, b=b, n=n, dtype=str(dt), st=st, out=out))
    for n in (0, -1):
        st, out = call(lambda: g.linear_trajectory(torch.zeros(3), torch.ones(3), n))
        ctx.comparisons += 1
        if st == "ok" and out.numel():
            ctx.fail(f"a trajectory of {n} steps has {out.shape[0]}")

    res = ctx.tlc("PlacesEval", cases=cases).records
    if len(res) != len(cases):
        raise AssertionError("verdicts missing")
    for v, c in zip(res, cases):
        info = meta[v["id"]]
        ctx.trace()
        ctx.count(info["which"] + ("_" + v["demand"] if v["demand"] else ""))
        if c["what"] == "sample":
            if v["bad"]:
                ctx.fail(f"{info['which']}: {v['bad']} ({str(info['out'])[:200]})", info)
        elif info["st"] == "err":
            ctx.fail(f"{info['which']} failed: {info['out']!r}", info)
        else:
            y = info["out"].double().numpy()
            scale = U if c["what"] == "clamp" else max(c["n"] - 1, 1)
            want = np.array(v["ys"], dtype=float) / scale
            ctx.comparisons += 1
            if y.shape != want.shape or not np.allclose(y, want, atol=5e-6, rtol=0):
                ctx.fail(f"{info['which']}: {y.tolist()} instead of {want.tolist()}", info)
            elif c["what"] == "clamp":
                # untouched where it was inside
                x = info["arg"].double().numpy()
                inside = np.isclose(want, x, atol=1e-9) & (np.abs(want - np.clip(want, c["r"]["margin"] / U + 1e-4, None)) == 0)
                if not np.array_equal(y[inside], x[inside]) and not np.allclose(y[inside], x[inside], atol=1e-6):
                    ctx.fail("clamping moved a position that was inside", info)
        if ctx.enough():
            break
    ctx.sample(cases[0])
    ctx.sample(cases[-1])
    ctx.assumptions += ["sampled constraints are judged to a millimetre in the specification and to rounding in floating point",
                        "requests whose feasibility hinges on rounding are not generated; sampling no positions is not judged"]

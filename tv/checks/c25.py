"""C25: Sabine estimates and image counts (Acoustics.tla)."""

from __future__ import annotations

import math

import torch

from tv.core import call


def kinds(rng, vals, ints):
    """The same numbers as list, tensor of either precision, or integers; and the precision they arrive in."""
    if ints and rng.random() < .5:
        v = [int(x) for x in vals]
        return rng.choice([v, torch.tensor(v), torch.tensor(v, dtype=torch.int32)]), torch.float32
    v = [float(x) for x in vals]
    return rng.choice([(v, torch.float32), (torch.tensor(v), torch.float32),
                       (torch.tensor(v, dtype=torch.float64), torch.float64)])


def run(ctx):
    from torchrir import MicrophoneArray, Room, Source
    from torchrir.sim import simulate_rir
    from torchrir.util import (attenuation_db_to_time_sabine, estimate_beta_from_t60, estimate_image_counts_from_tmax,
                               estimate_t60_from_beta)

    rng = ctx.rng
    ctx.tlc("MCAcoustics", constants=dict(Sizes="{5, 10, 37}", Betas="{0, 55, 100}" if ctx.thorough else "{55, 100}"),
            invariants=["Laws", "CountLaws"], workers=4)
    cases = []
    for k in range(ctx.pick(900, 12000)):
        dim = rng.choice([2, 3, 3])
        ints = rng.random() < .35
        half = rng.random() < .4
        s = [rng.randrange(1, 11) * 10 if ints else rng.randrange(1, 21) * 5 if half else rng.randrange(3, 101) for _ in range(dim)]
        b = [rng.choice([0, 100, rng.randrange(0, 101), rng.randrange(80, 100)]) for _ in range(2 * dim)]
        if rng.random() < .1:
            b = [100] * (2 * dim)
            if rng.random() < .5:
                b[rng.randrange(2 * dim)] = 99
        if not ints and rng.random() < .1:
            s = [rng.choice([rng.randrange(1, 12), rng.randrange(1, 12), rng.randrange(50, 101)]) for _ in range(dim)]
        t = rng.choice([rng.randrange(10, 3000), rng.randrange(100, 900), rng.randrange(3000, 60000)])
        if rng.random() < .15:
            # barely attainable times
            x = [v / 10 for v in s] + [1.] * (3 - dim)
            vol, surf = math.prod(x), 2 * (x[0] * x[1] + x[1] * x[2] + x[0] * x[2]) if dim == 3 else 2 * (x[0] + x[1])
            t = max(1, math.ceil(161 * vol / surf / rng.uniform(.99, 1)) + rng.choice([0, 0, 1, -1]))
        tm = rng.choice([125, 250, 375, 500, 1000]) if half or ints else rng.randrange(1, 900)
        c = rng.choice([336, 344, 8, 40]) if half or ints else rng.choice([343, 340, 331, rng.randrange(200, 1500)])
        cases.append(dict(id=k, s=s, b=b, t=t, tm=tm, c=c, ints=ints))
    res = ctx.tlc("AcousticsEval", cases=cases).records
    if len(res) != len(cases):
        raise AssertionError("answers missing")
    for c, v in zip(cases, res):
        dim = len(c["s"])
        size, sdt = kinds(rng, [x / 10 for x in c["s"]], c["ints"])
        kw = {}
        if rng.random() < .3:
            kw["dtype"] = sdt = rng.choice([torch.float32, torch.float64])
        # numbers made in single precision stay rounded when they are widened
        narrow = isinstance(size, torch.Tensor) and size.dtype == torch.float32
        eps = 1.2e-7 if sdt == torch.float32 or narrow else 1e-12
        t60 = c["t"] / 1000
        info = dict(case=c, size=repr(size), kw=repr(kw), answer=v)
        ctx.trace()
        # --- coefficients from a time
        st, beta = call(estimate_beta_from_t60, size, t60, **kw)
        ctx.comparisons += 1
        if st == "err":
            ctx.fail(f"coefficients from {t60} s failed: {beta!r}", info)
            continue
        alpha = 0.161 * (v["vol"] / 1000) / (t60 * v["surf"] / 100)
        ctx.count("attainable_" + v["att"])
        if tuple(beta.shape) != (2 * dim,) or beta.dtype != sdt or (beta != beta[0]).any() or not 0 <= float(beta[0]) < 1:
            ctx.fail(f"coefficients {beta} for a {dim}-D room", info)
            continue
        if v["att"] == "no" and float(beta[0]) ** 2 > .0011:
            ctx.fail(f"coefficient {float(beta[0])} for a time too short for the room", info)
            continue
        if v["att"] == "yes":
            if abs(float(beta[0]) ** 2 - (1 - alpha)) > 8 * eps + 1e-9:
                ctx.fail(f"coefficient {float(beta[0])} instead of {math.sqrt(1 - alpha)}", info)
            st, back = call(estimate_t60_from_beta, size, beta, **kw)
            if st == "err" or abs(back - t60) > t60 * (20 * eps / alpha + 1e-9):
                ctx.fail(f"{t60} s becomes {back} when estimated back", info)
        # --- time from coefficients, wall by wall
        bv = [x / 100 for x in c["b"]]
        bint = all(x in (0, 100) for x in c["b"])
        barg = rng.choice([bv, torch.tensor(bv), torch.tensor(bv, dtype=torch.float64)] +
                          ([[int(x) for x in bv], torch.tensor([int(x) for x in bv])] if bint else []))
        if isinstance(barg, torch.Tensor) and barg.dtype == torch.float32:
            eps = 1.2e-7
        st, t = call(estimate_t60_from_beta, size, barg, **kw)
        ctx.comparisons += 1
        if v["absorb"] == 0:
            if st == "err" or t != math.inf:
                ctx.fail(f"without absorption the time is {t}", info)
        else:
            area = v["absorb"] / 1e4 / 100
            want = 0.161 * (v["vol"] / 1000) / area
            # cancellation in 1 - beta^2
            tol = 30 * eps * (v["surf"] / 100) / area + 1e-9
            if st == "err" or abs(t - want) > want * tol:
                ctx.fail(f"time {t} instead of {want} for coefficients {bv}", info)
        # --- image counts
        st, n = call(estimate_image_counts_from_tmax, c["tm"] / 1000, size, **(dict(c=float(c["c"])) if c["c"] != 343 or rng.random() < .5 else {}))
        ctx.comparisons += 1
        if st == "err" or tuple(n.shape) != (dim,) or n.is_floating_point():
            ctx.fail(f"image counts: {n!r}", info)
        else:
            for k in range(dim):
                g, w = int(n[k]), v["n"][k]
                if g != w and not (v["dot"][k] and g == w + 1):
                    ctx.fail(f"image counts {n.tolist()} instead of {v['n']}", info)
                    break
        if ctx.enough():
            return
    # --- quotients that are exact in any precision give exact counts
    for _ in range(ctx.pick(150, 1500)):
        size = [2. ** rng.randrange(-2, 5) for _ in range(rng.choice([2, 3]))]
        tm, c = 2. ** -rng.randrange(0, 8), rng.choice([256., 512., 344., 64., 340.])
        arg, dt = kinds(rng, size, False)
        st, n = call(estimate_image_counts_from_tmax, tm, arg, c)
        ctx.comparisons += 1
        if st == "err" or n.tolist() != [math.ceil(tm * c / x) for x in size]:
            ctx.fail(f"image counts {n} for {tm} s at {c} m/s in {size}", dict(size=size, tm=tm, c=c))
    # --- walls that hardly reflect less than everything
    for _ in range(ctx.pick(150, 1500)):
        dim = rng.choice([2, 3])
        size = [rng.uniform(.05, 60) for _ in range(dim)]
        b = [1 - rng.choice([0, 10 ** -rng.uniform(2, 9)]) for _ in range(2 * dim)]
        st, t = call(estimate_t60_from_beta, torch.tensor(size, dtype=torch.float64), torch.tensor(b, dtype=torch.float64))
        x = size + [1.] * (3 - dim)
        walls = [x[1] * x[2]] * 2 + [x[0] * x[2]] * 2 + ([x[0] * x[1]] * 2 if dim == 3 else [])
        area = sum(w * (1 - q) * (1 + q) for w, q in zip(walls, b))
        want = .161 * math.prod(x) / area if area else math.inf
        ctx.comparisons += 1
        if st == "err" or not (t == want or abs(t - want) <= want * (1e-9 + 1e-14 * sum(walls) / area)):
            ctx.fail(f"time {t} instead of {want}", dict(size=size, beta=b))
    # --- attenuation is proportional
    for _ in range(ctx.pick(100, 1000)):
        db, t60 = rng.choice([rng.uniform(.1, 120), rng.uniform(1e-3, 1), rng.uniform(100, 2000)]), rng.uniform(.05, 5)
        for d, t in ((db, t60), (int(db) + 1, t60), (60, t60), (db, 2)):
            ctx.comparisons += 1
            st, x = call(attenuation_db_to_time_sabine, d, t)
            if st == "err" or abs(x - d * t / 60) > 1e-12 * (1 + x):
                ctx.fail(f"{d} dB at {t} s takes {x}", {})
    # --- refusals
    s3, s2 = torch.tensor([4., 5., 3.]), torch.tensor([4., 5.])
    for bad in (0, 0.0, -1, -0.5, -math.inf):
        for nm, fn in (("beta", lambda: estimate_beta_from_t60(s3, bad)), ("beta2", lambda: estimate_beta_from_t60(s2, bad)),
                       ("att", lambda: attenuation_db_to_time_sabine(60, bad)),
                       ("att", lambda: attenuation_db_to_time_sabine(bad, .5)),
                       ("count", lambda: estimate_image_counts_from_tmax(bad, s3))):
            ctx.comparisons += 1
            if call(fn)[0] == "ok":
                ctx.fail(f"{nm} accepts {bad}", {})
    for s in (s2, s3):
        for k in (0, 1, 2, 3, 4, 5, 6, 7, 8):
            ctx.comparisons += 1
            if (call(estimate_t60_from_beta, s, torch.full((k,), .5))[0] == "ok") != (k == 2 * s.numel()):
                ctx.fail(f"{k} coefficients for {s.numel()} dimensions", {})
    for s in ([4.], [4., 5., 3., 2.], [[4., 5., 3.]]):
        for fn in (lambda: estimate_beta_from_t60(torch.tensor(s), .5), lambda: estimate_image_counts_from_tmax(.5, torch.tensor(s)),
                   lambda: estimate_t60_from_beta(torch.tensor(s), torch.full((6,), .5))):
            ctx.comparisons += 1
            if call(fn)[0] == "ok":
                ctx.fail(f"a room of size {s} is accepted", {})
    # --- a room by its time is the room by those coefficients
    for k in range(ctx.pick(25, 200)):
        dim = rng.choice([2, 3])
        dt = rng.choice([torch.float32, torch.float64])
        size = [rng.uniform(2, 6) for _ in range(dim)]
        t60 = rng.choice([rng.uniform(.1, .9), rng.uniform(.005, .05), 3])
        pos = lambda n: torch.tensor([[rng.uniform(.1, x - .1) for x in size] for _ in range(n)], dtype=dt)
        src, mic = Source.from_positions(pos(2)), MicrophoneArray.from_positions(pos(2))
        st = torch.tensor(size, dtype=dt)
        by_time = Room.shoebox(size=st, fs=4000., t60=t60)
        by_beta = Room.shoebox(size=st, fs=4000., beta=estimate_beta_from_t60(st, t60))
        kw = dict(sources=src, mics=mic, max_order=2, nsample=200)
        a, b = call(lambda: simulate_rir(room=by_time, **kw)), call(lambda: simulate_rir(room=by_beta, **kw))
        ctx.comparisons += 1
        if a[0] == "err" or b[0] == "err" or not torch.equal(a[1], b[1]):
            ctx.fail(f"a {dim}-D room with t60 {t60} simulates differently from one with its coefficients", dict(size=size, t60=t60))
        if ctx.enough():
            return
    ctx.sample(dict(case=cases[0], answer=res[0]))
    ctx.assumptions += ["sizes in decimetres, coefficients in hundredths; an image count on the boundary may be one larger, by rounding", "rooms without positive sizes are not judged here (C10)"]

"""C06: late-tail and high-pass options change only what they say."""

from __future__ import annotations

import math

import numpy as np
import torch

from tv import ism
from tv.checks import c01
from tv.core import call

FSI = [512, 1024, 4096, 8192]       # dyadic, so onsets are exact


def tail_case(rng):
    c = c01.room_case(rng, order_hi=3)
    c["order"] = min(c["order"], 3)
    c["nb"] = []
    c["fs"] = float(rng.choice(FSI))
    c["fdl"] = rng.choice([9, 41, 81])
    lossless = rng.random() < .1
    if lossless:
        c["beta_none"] = rng.random() < .5
        c["beta"] = [1.0] * (2 * c["dim"])
        if rng.random() < .5:                   # walls that lose next to nothing
            c["beta_none"], c["beta"] = False, [1 - 10 ** -rng.uniform(4, 6)] * (2 * c["dim"])
    elif c["beta_none"] or min(c["beta"]) > .97:
        c["beta_none"] = False
        c["beta"] = [round(rng.uniform(.2, .95), 3) for _ in range(2 * c["dim"])]
    den = 2048
    n = rng.choice([40, 128, 500, 3000])
    if lossless:
        c["fs"], n = 512.0, 2600
    c["den"] = den
    c["tmax"] = max(2, int(n * den / c["fs"]))
    if rng.random() < .4:                       # not a whole number of samples
        c["tmax"] += rng.randint(1, 3)
    c["tdiff"] = rng.choice([-1, rng.randint(0, c["tmax"]), rng.randint(0, c["tmax"]), rng.randint(1, max(1, c["tmax"] // 2)),
                             rng.randint(1, max(1, min(c["tmax"], int((c["fdl"] // 2 + 40) * den / c["fs"])))),
                             c["tmax"], c["tmax"] + rng.randint(1, 50), c["tmax"] - 1])
    c["ns"] = 0
    r = rng.random()
    if r < .2:
        c["ns"] = rng.randint(20, n)
        c["tmax"] = 0
    elif r < .35:
        c["ns"] = rng.randint(5, max(6, min(n, c["tmax"] * int(c["fs"]) // den)))
    if c["ns"] > 2 and rng.random() < .4:       # a tail of the very last samples
        c["tdiff"] = math.ceil((c["ns"] - rng.choice([1, 1, 2])) * den / c["fs"])
    if rng.random() < .06:                      # a tail after the first sample
        c["tdiff"] = math.ceil(den / c["fs"])
    c["seed"] = rng.choice([None, 0, 1, 7, 123456])
    c["use_t60"] = not lossless and rng.random() < .25
    if lossless:
        c.update(ns=0, tmax=n * 4, tdiff=rng.choice([rng.randint(100, 1500), rng.randint(20, 120), rng.randint(20, 120)]), dtype="float64")
    c["t60"] = rng.uniform(.3, 1.5)
    return c


def room_of(c):
    from torchrir import Room

    if c.get("use_t60"):
        return Room.shoebox(size=[x * ism.unit(c) for x in c["L"]], fs=c["fs"], c=c["c"], t60=c["t60"],
                            dtype=getattr(torch, c["dtype"]))
    return c01.build_room(c)


def t60_of(c, room):
    """Sabine's formula from the coefficients in use."""
    L = [x * ism.unit(c) for x in c["L"]]
    lx, ly = L[0], L[1]
    lz = L[2] if len(L) == 3 else 1.0
    s = [ly * lz, ly * lz, lx * lz, lx * lz] + ([lx * ly, lx * ly] if len(L) == 3 else [])
    V = lx * ly * lz
    if c.get("use_t60"):
        a = max(0.0, min(.161 * V / (c["t60"] * sum(s)), .999))
        absorb = a * sum(s)
    else:
        absorb = sum(x * (1 - b * b) for x, b in zip(s, c["beta"]))
    return math.inf if absorb <= 1e-9 else .161 * V / absorb


def run_case(c, tdiff=True, hpf=False, **cfgk):
    from torchrir import MicrophoneArray, Source
    from torchrir.sim import simulate_rir

    dt = getattr(torch, c["dtype"])
    room = room_of(c)
    sp = (torch.tensor(c["src"], dtype=torch.float64) * ism.unit(c)).to(dt)
    mp = (torch.tensor(c["mic"], dtype=torch.float64) * ism.unit(c)).to(dt)
    kw = {}
    if c["tmax"] > 0:
        kw["tmax"] = c["tmax"] / c["den"]
    if c["ns"] > 0:
        kw["nsample"] = c["ns"]
    if tdiff and c["tdiff"] >= 0:
        kw["tdiff"] = c["tdiff"] / c["den"]
    cfg = c01.config_of(c, rir_hpf_enable=hpf, seed=c["seed"], **cfgk)
    return simulate_rir(room=room, sources=Source.from_positions(sp), mics=MicrophoneArray.from_positions(mp),
                        max_order=c["order"], config=cfg, **kw)


def tails(ctx):
    rng = ctx.rng
    cases = [tail_case(rng) for _ in range(ctx.pick(120, 1000))]
    recs = sorted(ctx.tlc("PostEval", cases=[
        dict(id=i, fs=int(c["fs"]), tmax=c["tmax"], tdiff=c["tdiff"], den=c["den"], ns=c["ns"])
        for i, c in enumerate(cases)]).records, key=lambda r: r["id"])
    draws = {}
    for c, rec in zip(cases, recs):
        st0, plain = call(run_case, c, tdiff=False)
        st1, got = call(run_case, c)
        if st0 == "err" or st1 == "err":
            ctx.fail(f"raised {(plain if st0 == 'err' else got)!r}", c)
            continue
        n = rec["n"]
        if got.shape[-1] != n or plain.shape != got.shape or plain.dtype != got.dtype:
            ctx.fail(f"response has {tuple(got.shape)} ({got.dtype}), specification {n} samples, {plain.dtype}", c)
            continue
        ctx.comparisons += got.numel()
        single = c["dtype"] == "float32"
        if not rec["tail"]:
            ctx.count("without_tail")
            # an onset before the first sample leaves no early sample to continue from
            if not (rec["onset"] <= 0 <= c["tdiff"] and c["tdiff"] < max(c["tmax"], 1)) and \
                    not torch.allclose(got, plain, rtol=1e-6 if single else 1e-12, atol=1e-7 if single else 1e-13):
                ctx.fail("a response without tail differs from its image-source part", c)
            ctx.trace()
            continue
        ctx.count("with_tail")
        o = rec["onset"]
        if not torch.allclose(got[..., :o], plain[..., :o], rtol=1e-6 if single else 1e-12,
                              atol=1e-7 if single else 1e-13):
            ctx.fail(f"samples before the onset {o} differ from the image-source response", c)
            continue
        t60 = t60_of(c, room_of(c))
        level = plain[..., o - 1:o].abs().double().numpy()
        if math.isinf(t60):                     # never decays by Sabine's formula: whatever the rate, it must not grow
            ctx.count("lossless_tails")
            ctx.trace()
            if not bool((got[..., o:].abs().double().numpy() <= 8 * level + 1e-5).all()):
                ctx.fail("in a perfectly reflecting room the tail grows beyond the level it starts at", c)
            continue
        t = np.arange(n - o) / c["fs"]
        env = np.exp(-3 * math.log(10) * t / t60)
        tail = got[..., o:].double().numpy()
        if np.any(level > 1e-3) and np.array_equal(tail, plain[..., o:].double().numpy()):
            ctx.fail(f"the response has no tail after {o} of {n} samples", c)
            continue
        if not np.isfinite(tail).all():
            ctx.fail("the tail is not finite", c)
            continue
        with torch.random.fork_rng():           # whatever the program drew or seeded before
            torch.manual_seed(rng.randrange(10 ** 6))
            again = call(run_case, c)
        if again[0] == "err" or not torch.equal(again[1], got):
            ctx.fail("the same seed gives a different tail", c)
            continue
        loud = level[..., 0] > 1e-3
        if (got[..., o] == plain[..., o]).numpy()[loud].any():
            ctx.fail(f"sample {o} at the onset still is the image-source response", c)
            continue
        if not (np.abs(tail) <= 8 * level + 1e-5).all():
            ctx.fail("the tail grows beyond the level of the last early sample", c)
            continue
        # where level and envelope are resolvable, the underlying draws
        ok = (level > 1e-4).repeat(n - o, axis=-1) & (env > (1e-4 if single else 1e-9))
        z = np.where(ok, tail / (np.maximum(level, 1e-12) * env), np.nan)
        if np.nanmax(np.abs(z), initial=0) > 7:
            ctx.fail(f"the tail does not follow level {level.max():.3g} and reverberation time {t60:.3g} s: "
                     f"{np.nanmax(np.abs(z)):.3g} times the expected deviation", c)
            continue
        key = (c["seed"] if c["seed"] is not None else 0, got.shape[:2] + (n - o,), c["dtype"])
        draws.setdefault(key, []).append((z, c, o))
        if ok.sum() >= 40:                      # forty standard normal draws: deviation within a third and threefold
            s = float(np.sqrt(np.nanmean(z ** 2)))
            if not 1 / 3 < s < 3:
                ctx.fail(f"the tail starts at {s:.3g} times the level of the last early sample", c)
                continue
        if ok.sum() > 3000:
            s = float(np.nanstd(z))
            if not .9 < s < 1.1 or abs(float(np.nanmean(z))) > .1:
                ctx.fail(f"the normalised tail has mean {np.nanmean(z):.3g} and deviation {s:.3g} (expected 0 and 1)", c)
            head = z[..., : max(64, (n - o) // 4)]
            q = z[..., -max(64, (n - o) // 4):]
            for part in (head, q):
                if np.isfinite(part).sum() > 1500 and not .85 < np.nanstd(part) < 1.15:
                    ctx.fail(f"the tail does not decay at the room's reverberation time {t60:.3g} s", c)
        ctx.trace()
        if ctx.enough():
            return
    ctx.sample({k: cases[0][k] for k in ("L", "fs", "tmax", "tdiff", "den", "ns", "seed")})


def same_seed_other_room(ctx):
    """The tail depends on the room only through level and decay; different seeds, pairs differ."""
    rng = ctx.rng
    for _ in range(ctx.pick(25, 200)):
        c = tail_case(rng)
        for k in ("src", "mic"):                # several of each
            while len(c[k]) < 2:
                c[k] = c[k] + [[1 + (x + 17) % (c["L"][a] - 1) for a, x in enumerate(c[k][-1])]]
        c.update(beta_none=False, dtype="float64", ns=0, tmax=600, tdiff=rng.randint(150, 400), den=2048, fs=2048.0, use_t60=False,
                 order=2, c=343.0, fdl=81, beta=[round(rng.uniform(.3, .95), 3) for _ in range(2 * c["dim"])])
        d = dict(c)
        d["beta"] = [round(rng.uniform(.3, .95), 3) for _ in range(2 * c["dim"])]
        d["L"] = [x + rng.randint(0, 200) for x in c["L"]]
        plain = [call(run_case, k, tdiff=False) for k in (c, d)]
        if all(st == "ok" for st, _ in plain):  # an onset at which every pair is heard in both rooms
            low = np.minimum(*(p.abs().double().numpy().reshape(-1, p.shape[-1]).min(axis=0) for _, p in plain))
            o = 1 + int(low[:400].argmax())
            c["tdiff"] = d["tdiff"] = o
        o = c["tdiff"]
        out = []
        for k, (sp, p) in zip((c, d), plain):
            st, g = call(run_case, k)
            if st == "err" or sp == "err":
                ctx.fail(f"raised {g!r}", k)
                break
            lev = p[..., o - 1:o].abs().double().numpy()
            env = np.exp(-3 * math.log(10) * np.arange(600 - o) / 2048.0 / t60_of(k, None))
            out.append((g[..., o:].double().numpy() / np.maximum(env, 1e-300), lev, env > 1e-6))
        if len(out) < 2:
            continue
        (a, la, ea), (b, lb, eb) = out          # (far down the decay nothing is left to compare)
        use = (la > 1e-3) & (lb > 1e-3) & ea & eb
        use = np.broadcast_to(use, a.shape)
        with np.errstate(all="ignore"):
            za, zb = a / la, b / lb
        ctx.comparisons += int(use.sum())
        ctx.trace()
        rms = float(np.sqrt(np.mean(za[use] ** 2))) if use.sum() >= 400 else 1.0
        ctx.count("levels_fitted", int(use.sum() >= 400))
        if not .8 < rms < 1.25:
            ctx.fail(f"the tail's level is {rms:.3g} times that of the last early sample", c)
        if use.any() and not np.allclose(za[use], zb[use], rtol=2e-4, atol=1e-4):
            ctx.fail("with the same seed, two rooms' tails differ by more than level and decay "
                     f"(largest deviation {np.abs(za[use] - zb[use]).max():.3g})", dict(a=c, b=d))
        st, g2 = call(run_case, dict(c, seed=(c["seed"] or 0) + 1))
        st1, g1 = call(run_case, c)
        if st == "ok" and st1 == "ok" and torch.equal(g1, g2):
            ctx.fail("different seeds give the same tail", c)
        if st1 == "ok" and la.size > 1 and (la > 1e-4).sum() > 1:
            ctx.count("several_tails")
            fl = za.reshape(-1, za.shape[-1])[(la > 1e-4).reshape(-1)]
            co = np.abs(np.corrcoef(fl)) - np.eye(len(fl))
            if co.max() > .9:
                ctx.fail("two source/microphone pairs share one random tail", c)


def hpf(ctx):
    from scipy.signal import butter, sosfiltfilt, sosfreqz

    from tv.checks import c02

    rng = ctx.rng
    for i in range(ctx.pick(80, 600)):
        moving = rng.random() < .4
        c = c02.traj_case(rng) if moving else c01.room_case(rng)
        c["order"] = min(c["order"], 2)
        c["nsample"] = rng.choice([60, 200, 777, 1200])
        fc = rng.choice([10.0, 10.0, rng.uniform(5, c["fs"] * .45)])
        n = rng.choice([2, 2, 1, 3, 4] + [5, 6, 8] * (fc > .02 * c["fs"]))
        default = rng.random() < .4
        if default:
            fc, n = 10.0, 2
        kw = {} if default else dict(rir_hpf_fc=fc, rir_hpf_kwargs=rng.choice(
            [dict(n=n, rp=5.0, rs=60.0, type="butter"), dict(n=n, ftype="butter"), dict(n=n), *([dict(), dict(type="butter")] if n == 2 else [])]))
        if 2 * fc >= c["fs"]:
            continue

        def go(**k):
            from torchrir.sim import simulate_dynamic_rir, simulate_rir
            from torchrir.config import SimulationConfig

            base = dict(frac_delay_length=c["fdl"], use_lut=c["use_lut"], sinc_lut_granularity=c["gran"])
            base.update(k)
            cfg = SimulationConfig(**base)
            room = c01.build_room(c)
            if moving:
                st_, mt = c02.tensors(c)
                return simulate_dynamic_rir(room=room, src_traj=st_, mic_traj=mt, max_order=c["order"],
                                            nsample=c["nsample"], config=cfg)
            room, s, m = c01.build_inputs(c)
            return simulate_rir(room=room, sources=s, mics=m, max_order=c["order"], nsample=c["nsample"], config=cfg)

        a, b = call(go, rir_hpf_enable=False), call(go, **kw)
        if b[0] == "ok" and rng.random() < .5:      # the settings serve more than one simulation
            b = call(go, **kw)
        case = dict(c, fc=fc, n=n, default=default)
        if a[0] == "err" or b[0] == "err":
            ctx.fail(f"raised {(a if a[0] == 'err' else b)[1]!r}", case)
            continue
        raw, got = a[1], b[1]
        if raw.shape != got.shape or raw.dtype != got.dtype:
            ctx.fail(f"high-pass changed shape or precision: {tuple(raw.shape)} {raw.dtype} -> {tuple(got.shape)} {got.dtype}", case)
            continue
        sos = butter(n, fc, btype="highpass", fs=c["fs"], output="sos")
        want = sosfiltfilt(sos, raw.double().numpy(), axis=-1)
        scale = max(1e-3, float(np.abs(want).max()))
        ctx.comparisons += want.size
        if not np.allclose(got.double().numpy(), want, rtol=1e-5, atol=(1e-6 if c["dtype"] == "float32" else 1e-9) * scale):
            ctx.fail(f"high-pass output differs from the order-{n} {fc:g} Hz zero-phase Butterworth filter by "
                     f"{np.abs(got.double().numpy() - want).max():.3g}", case)
        ctx.trace()
        if i < 3:   # the reference itself: squared magnitude of the analogue prototype through the bilinear map
            w, h = sosfreqz(sos, worN=[2 * math.pi * f for f in (.05, .1, .3)])
            ideal = 1 / (1 + (math.tan(math.pi * fc / c["fs"]) / np.tan(w / 2)) ** (2 * n))
            assert np.allclose(np.abs(h) ** 2, ideal, rtol=1e-6)
        if ctx.enough():
            return
    # refused cutoffs
    from torchrir.config import SimulationConfig

    for fs, fc in ((1000.0, 500.0), (1000.0, 501.0), (16000.0, 9000.0), (20.0, 10.0), (15.0, 10.0)):
        c = c01.corner_cases(rng)[0]
        c["fs"] = fs
        room, s, m = c01.build_inputs(c)
        from torchrir.sim import simulate_dynamic_rir, simulate_rir

        cfg = SimulationConfig(rir_hpf_fc=fc)
        for nm, fn in (("static", lambda: simulate_rir(room=room, sources=s, mics=m, max_order=0, nsample=64, config=cfg)),
                       ("moving", lambda: simulate_dynamic_rir(room=room, src_traj=s.positions[None],
                                                               mic_traj=m.positions[None], max_order=0, nsample=64,
                                                               config=cfg))):
            st, v = call(fn)
            ctx.comparisons += 1
            if st == "ok":
                ctx.fail(f"cutoff {fc} Hz at {fs} Hz was accepted ({nm})", dict(fs=fs, fc=fc))


def combined(ctx):
    """Tail first, then the filter over everything."""
    from scipy.signal import butter, sosfiltfilt

    rng = ctx.rng
    for _ in range(ctx.pick(20, 150)):
        c = tail_case(rng)
        c.update(ns=0, tmax=500, tdiff=rng.randint(60, 499), den=2048, fs=2048.0, use_t60=False)
        a, b = call(run_case, c), call(run_case, c, hpf=True)
        if a[0] == "err" or b[0] == "err":
            ctx.fail(f"raised {(a if a[0] == 'err' else b)[1]!r}", c)
            continue
        want = sosfiltfilt(butter(2, 10.0, btype="highpass", fs=2048.0, output="sos"), a[1].double().numpy(), axis=-1)
        ctx.comparisons += want.size
        ctx.trace()
        tol = (1e-6 if c["dtype"] == "float32" else 1e-9) * max(1e-3, float(np.abs(want).max()))
        if not np.allclose(b[1].double().numpy(), want, rtol=1e-5, atol=tol):
            ctx.fail("with a tail, the high-pass result is not the filtered unfiltered result", c)


def run(ctx):
    ctx.tlc("MCPost", constants=dict(MaxFs=ctx.pick(6, 8), MaxT=ctx.pick(6, 9)),
            invariants=["Early", "TailFills", "NoTail", "Length", "Untouched", "NonEmpty"], workers=4)
    tails(ctx)
    same_seed_other_room(ctx)
    hpf(ctx)
    combined(ctx)
    ctx.assumptions += ["tail statistics judged with fixed seeds; in perfectly reflecting rooms only that the tail "
                        "does not grow",
                        "scipy's Butterworth design as filter reference (spot-checked against the closed form)"]

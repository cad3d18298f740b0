"""C01: a static RIR is the exact superposition of the specified image set."""

from __future__ import annotations

import numpy as np
import torch

from tv import ism
from tv.core import call

FS = [8000.0, 16000.0, 44100.0, 22050.5, 1000.0, 48000]
CS = [343.0, 340.29, 300.0, 1500.0]


def room_case(rng, *, dim=None, max_src=3, max_mic=3, order_hi=5, small=False):
    dim = dim or rng.choice([2, 3, 3])
    L = [rng.randint(60, 900) for _ in range(dim)]

    def pts(n):
        return [[rng.randint(1, L[a] - 1) for a in range(dim)] for _ in range(n)]

    src = pts(rng.randint(1, max_src))
    mic = pts(rng.randint(1, max_mic))
    if rng.random() < .2:                       # a microphone right beside a source
        near = [min(max(x + rng.choice([-1, 0, 0, 1, 3]), 1), L[a] - 1) for a, x in enumerate(rng.choice(src))]
        mic[rng.randrange(len(mic))] = near
    mic = [m if all(m != s for s in src) else [m[0] % (L[0] - 1) + 1] + m[1:] for m in mic]
    mic = [m if all(m != s for s in src) else [max(1, m[0] - 1)] + m[1:] for m in mic]
    nb = []
    order = rng.choice([0, 1, 1, 2, 3, 4, order_hi])
    if rng.random() < 0.3:
        nb = [rng.randint(0, 3) for _ in range(dim)]
        while np.prod([2 * b + 1 for b in nb]) > 250:
            nb[rng.randrange(dim)] = 0
    kind = rng.choice(["rand", "rand", "rand", "zero1", "ones", "none", "half"])
    faces = 2 * dim
    if kind == "rand":
        beta = [round(rng.random(), 3) for _ in range(faces)]
    elif kind == "zero1":
        beta = [rng.choice([0.0, 1.0, 0.5]) for _ in range(faces)]
    elif kind == "half":
        beta = [0.5 + 0.05 * k for k in range(faces)]
    else:
        beta = [1.0] * faces
    fs = rng.choice(FS)
    c = rng.choice(CS)
    fdl = rng.choice([1, 3, 5, 9, 41, 81, 81, 81, 129])
    diam = float(np.linalg.norm(L)) * 0.01
    reach = diam * (1 + (max(nb) if nb else order)) * fs / c
    nsample = int(min(6000, max(8, reach * rng.choice([0.05, 0.3, 0.7, 1.2]) + rng.randint(0, 90))))
    unit = rng.choice([.01, .01, .01, round(.01 * rng.uniform(.6, 1.4), 7), round(.01 * rng.uniform(.6, 1.4), 7), .0005])      # positions off the centimetres too
    return dict(dim=dim, unit=unit, L=L, src=src, mic=mic, order=order, nb=nb, beta=beta,
                beta_none=(kind == "none"), fs=fs, c=c, fdl=fdl, nsample=nsample,
                use_lut=rng.random() < 0.4, gran=rng.choice([1, 5, 20, 20, 64, 7]),
                dtype=rng.choice(["float32", "float64", "float64"]),
                raw=rng.random() < 0.3, explicit=rng.random() < 0.5,
                chunk=rng.choice([1, 7, 64, 2048]), achunk=rng.choice([1, 5, 100, 4096]))


def corner_cases(rng):
    """Deliberate inputs: walls, corners, coincident axes, exact delays, one-sample RIRs."""
    out = []
    base = dict(dim=3, L=[300, 400, 250], src=[[100, 100, 100]], mic=[[200, 100, 100]], order=3,
                nb=[], beta=[.9, .8, .7, .6, .5, .4], beta_none=False, fs=1000.0, c=100.0, fdl=81,
                nsample=700, use_lut=False, gran=20, dtype="float64", raw=False, explicit=True,
                chunk=2048, achunk=4096)

    def v(**k):
        d = dict(base)
        d.update(k)
        out.append(d)

    v()                                                 # every delay distance*10: axis images exact
    v(use_lut=True)
    v(nsample=1)
    v(nsample=2, fdl=3)
    v(src=[[0, 0, 0]], mic=[[300, 400, 250]])           # corners
    v(src=[[0, 200, 100]], mic=[[300, 200, 100]])       # on walls
    v(order=0, nsample=90)
    v(order=8, beta=[.99, .5, .98, .3, .97, .2], nsample=900)
    v(nb=[4, 0, 0], order=0)
    v(nb=[0, 4, 0], order=1)
    v(nb=[0, 0, 5], order=9)
    v(nb=[1, 2, 3], order=0)
    v(nb=[0, 0, 0], order=4)
    v(beta=[1, 1, 1, 1, 1, 1], beta_none=True, order=2)
    v(beta=[0, 0, 0, 0, 0, 0], order=3)
    v(beta=[0, 1, 1, 1, 1, 1], order=3)
    v(beta=[1, 0, 1, 1, 1, 1], order=3)
    v(beta=[1, 1, 1, 0, 0, 1], order=3)
    v(dim=2, L=[300, 400], src=[[100, 150]], mic=[[210, 330]], beta=[.9, .2, .7, .4], order=6)
    v(dim=2, L=[300, 400], src=[[100, 150]], mic=[[210, 330]], beta=[.9, .2, .7, .4], nb=[5, 3], order=0)
    v(dim=2, L=[333, 777], src=[[1, 1], [332, 776]], mic=[[332, 1], [1, 776], [5, 9]],
      beta=[.9, .2, .7, .4], order=5, fs=16000.0, c=343.0, nsample=2500)
    v(src=[[100, 100, 100], [10, 390, 20]], mic=[[200, 100, 100], [290, 10, 240], [150, 200, 125]])
    v(fs=96000, c=343.0, order=1, nsample=3000)
    v(dtype="float32", use_lut=True, fs=16000.0, c=343.0, order=4, nsample=2000)
    v(fdl=1, fs=16000.0, c=343.0, nsample=900)
    v(fdl=1, use_lut=True, fs=16000.0, c=343.0, nsample=900)
    v(fdl=3, use_lut=True, gran=1, fs=16000.0, c=343.0, nsample=900)
    v(nb=[30, 0, 0], order=0, beta=[.99, .98, .97, .96, .95, .94], nsample=2500)
    v(nb=[0, 1, 17], order=0, beta=[.99, .98, .97, .96, .99, .98], nsample=1500, fdl=9)
    v(dim=2, L=[30, 41], src=[[10, 15]], mic=[[21, 33]], beta=[.99, .97, .98, .96], order=24, nsample=250, fdl=9)
    for d in (2, 3):                                    # plain vectors of coordinates
        v(dim=d, L=[300, 400, 250][:d], src=[[100, 150, 60][:d]], mic=[[210, 330, 40][:d]], beta=[.9, .2, .7, .4, .5, .6][:2 * d],
          raw=True, flat=True, nsample=300)
    v(fdl=255, fs=16000.0, c=343.0, nsample=1500)
    return out


def build_room(case):
    from torchrir import Room

    size = [x * ism.unit(case) for x in case["L"]]
    return Room.shoebox(size=size, fs=case["fs"], c=case["c"],
                        beta=None if case["beta_none"] else case["beta"],
                        dtype=getattr(torch, case["dtype"]))


def build_inputs(case):
    from torchrir import MicrophoneArray, Source

    dt = getattr(torch, case["dtype"])
    room = build_room(case)
    sp = torch.tensor(case["src"], dtype=torch.float64) * ism.unit(case)
    mp = torch.tensor(case["mic"], dtype=torch.float64) * ism.unit(case)
    sp, mp = sp.to(dt), mp.to(dt)
    if case["raw"]:
        if case.get("flat"):
            return room, sp.reshape(-1), mp.reshape(-1)
        return room, sp, mp
    return room, Source.from_positions(sp), MicrophoneArray.from_positions(mp)


def config_of(case, **extra):
    from torchrir.config import SimulationConfig

    kw = dict(frac_delay_length=case["fdl"], use_lut=case["use_lut"],
              sinc_lut_granularity=case["gran"], image_chunk_size=case["chunk"],
              accumulate_chunk_size=case["achunk"], rir_hpf_enable=False)
    kw.update(extra)
    return SimulationConfig(**kw)


def expected(case, term, s, m, **kw):
    dist, amp = ism.amplitudes(term, s, case["mic"][m], case["beta"], unit=ism.unit(case), **kw)
    return ism.render(dist, amp, fs=case["fs"], c=case["c"], fdl=case["fdl"],
                      nsample=case["nsample"], single=case["dtype"] == "float32",
                      lut_gran=case["gran"] if case["use_lut"] else None)


def simulate(case):
    from torchrir.sim import simulate_rir

    room, src, mic = build_inputs(case)
    kw = dict(room=room, sources=src, mics=mic, max_order=case["order"],
              nsample=case["nsample"], config=config_of(case))
    if case["nb"]:
        nb = case["nb"]
        kw["nb_img"] = tuple(nb) if case["explicit"] else torch.tensor(nb)
    return simulate_rir(**kw)


def check_static(ctx, case, term, label="simulate_rir"):
    st, rir = call(simulate, case)
    if st == "err":
        ctx.fail(f"{label} raised {type(rir).__name__}: {rir}", case)
        return
    n_src, n_mic = len(case["src"]), len(case["mic"])
    if tuple(rir.shape) != (n_src, n_mic, case["nsample"]):
        ctx.fail(f"{label}: shape {tuple(rir.shape)} for {n_src} sources, {n_mic} mics, "
                 f"{case['nsample']} samples", case)
        return
    if rir.dtype != getattr(torch, case["dtype"]):
        ctx.fail(f"{label}: dtype {rir.dtype}, inputs are {case['dtype']}", case)
        return
    arr = rir.detach().numpy().astype(float)
    for s in range(n_src):
        for m in range(n_mic):
            want, tol = expected(case, term, s, m)
            ok, k, d, t = ism.worst(arr[s, m], want, tol)
            ctx.comparisons += case["nsample"]
            if not ok:
                ctx.fail(f"{label}: source {s} mic {m} sample {k}: got {arr[s, m, k]:.9g}, "
                         f"specification {want[k]:.9g} (|diff| {d:.3g} > tolerance {t:.3g})", case)
                return
    ctx.trace()


def run(ctx):
    rng = ctx.rng
    ctx.tlc("MCIsm", constants={"MaxL": ctx.pick(3, 4), "MaxK": ctx.pick(4, 6)},
            invariants=["InCell", "ClosedForm", "OrderIsHits", "PathIndependent", "Recip",
                        "DirectFirst", "IndexInSet"], workers=4)
    cases = corner_cases(rng) + [room_case(rng) for _ in range(ctx.pick(70, 700))]
    if ctx.thorough:
        cases += [room_case(rng, order_hi=10) for _ in range(60)]
    tm = ism.terms(ctx, cases)
    for case, term in zip(cases, tm):
        ctx.count("images", len(term["n"]) * len(case["src"]) * len(case["mic"]))
        check_static(ctx, case, term)
        if ctx.enough():
            break
    ctx.sample(cases[0])
    ctx.sample(cases[-1])
    ctx.assumptions += [
        "positions, room sizes on a 1 cm grid (sampling rate, sound speed, reflection coefficients arbitrary)",
        "float rounding and sinc-table interpolation within a stated envelope",
    ]

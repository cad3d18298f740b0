"""C02: frame t of a moving scene is the static response at step t."""

from __future__ import annotations

import copy

import numpy as np
import torch

from tv import ism
from tv.checks import c01
from tv.core import call


def traj_case(rng, T=None, patterns=False):
    c = c01.room_case(rng, max_src=3, max_mic=3, order_hi=3)
    c["order"] = min(c["order"], 3)
    c["nsample"] = min(c["nsample"], 1500)
    T = T or rng.choice([1, 2, 3, 3, 4, 5])
    n_src, n_mic, dim, L = len(c["src"]), len(c["mic"]), c["dim"], c["L"]
    mode = rng.choice(["both", "src", "mic", "still"])

    def walk(p0, moving, style):
        out = [p0]
        for t in range(1, T):
            p = list(out[-1])
            if style == "late" and t < T - 1 or style == "early" and t > 1 or not moving:
                pass
            elif style == "loop" and t == T - 1:
                p = list(p0)
            elif style == "back" and 2 * t >= T:
                p = list(out[T - 1 - t])
            elif style == "axis":
                a = rng.randrange(dim)
                p[a] = rng.randint(1, L[a] - 1)
            elif style == "small":
                p = [min(max(x + rng.randint(-1, 1), 1), L[a] - 1) for a, x in enumerate(p)]
            elif rng.random() < 0.85:
                p = [rng.randint(1, L[a] - 1) for a in range(dim)]
            out.append(p)
        return out

    # devices share a style (a loop of the whole array, say) or move on their own;
    # sometimes a single device moves
    styles = ["free", "free", "loop", "back", "late", "early", "axis", "small"]

    def walks(ps, moving):
        st = rng.choice(styles)
        own, one = rng.random() < .3, rng.choice([None, None, rng.randrange(len(ps))])
        return [walk(p, moving and one in (None, i), rng.choice(styles) if own else st) for i, p in enumerate(ps)]

    sw = walks(c["src"], mode in ("both", "src"))
    mw = walks(c["mic"], mode in ("both", "mic"))
    c["src_t"] = [[sw[s][t] for s in range(n_src)] for t in range(T)]
    c["mic_t"] = [[mw[m][t] for m in range(n_mic)] for t in range(T)]
    if rng.random() < .25:                      # passing right beside each other
        t = rng.randrange(T)
        c["mic_t"][t][rng.randrange(n_mic)] = [min(max(x + rng.choice([-1, 0, 0, 1, 2]), 1), L[a] - 1)
                                               for a, x in enumerate(rng.choice(c["src_t"][t]))]
    for t in range(T):
        for m in range(n_mic):
            while any(c["mic_t"][t][m] == p for p in c["src_t"][t]):
                c["mic_t"][t][m] = [x % (L[a] - 1) + 1 for a, x in enumerate(c["mic_t"][t][m])]
    c["T"] = T
    c["squeeze"] = rng.random() < 0.3
    c["via"] = rng.choice(["func", "func", "scene"])
    if patterns and rng.random() < .35:         # devices with patterns, each its own direction
        def ways(n):
            return [[rng.uniform(-1, 1) for _ in range(dim)] for _ in range(n)]
        c["pat"] = rng.sample(["omni", "cardioid", "subcardioid", "hypercardioid", "bidir", "homni"], 2)
        c["ways"] = [ways(n_src), ways(n_mic)]
    return c


def tensors(case):
    dt = getattr(torch, case["dtype"])
    st = (torch.tensor(case["src_t"], dtype=torch.float64) * ism.unit(case)).to(dt)
    mt = (torch.tensor(case["mic_t"], dtype=torch.float64) * ism.unit(case)).to(dt)
    return st, mt


def simulate(case, st=None, mt=None, src=slice(None), mic=slice(None)):
    from torchrir import DynamicScene, MicrophoneArray, Source
    from torchrir.sim import ISMSimulator, simulate_dynamic_rir

    room = c01.build_room(case)
    if st is None:
        st, mt = tensors(case)
    a, b = st, mt
    if case["squeeze"]:
        a = a[:, 0] if a.shape[1] == 1 else a
        b = b[:, 0] if b.shape[1] == 1 else b
    nb = tuple(case["nb"]) if case["nb"] else None
    kw, so, mo = {}, None, None
    if case.get("pat"):
        so, mo = (torch.tensor(w, dtype=st.dtype)[ix] for w, ix in zip(case["ways"], (src, mic)))
        kw = dict(directivity=tuple(case["pat"]))
    if case["via"] == "scene":
        sc = DynamicScene(room=room, sources=Source.from_positions(st[0], orientation=so),
                          mics=MicrophoneArray.from_positions(mt[0], orientation=mo), src_traj=a, mic_traj=b)
        return ISMSimulator(max_order=case["order"], nsample=case["nsample"], nb_img=nb, **kw).simulate(
            sc, c01.config_of(case)).rirs
    if kw:
        kw["orientation"] = (so, mo)
    return simulate_dynamic_rir(room=room, src_traj=a, mic_traj=b, max_order=case["order"],
                                nsample=case["nsample"], nb_img=nb, config=c01.config_of(case), **kw)


def static(case, sp, mp):
    from torchrir import MicrophoneArray, Source
    from torchrir.sim import simulate_rir

    kw, so, mo = {}, None, None
    if case.get("pat"):
        so, mo = (torch.tensor(w, dtype=sp.dtype) for w in case["ways"])
        kw = dict(directivity=tuple(case["pat"]))
    return simulate_rir(room=c01.build_room(case), sources=Source.from_positions(sp, orientation=so),
                        mics=MicrophoneArray.from_positions(mp, orientation=mo), max_order=case["order"],
                        nsample=case["nsample"], nb_img=tuple(case["nb"]) if case["nb"] else None,
                        config=c01.config_of(case), **kw)


def frame_cases(case):
    return dict(L=case["L"], order=case["order"], nb=case["nb"],
                src=[p for fr in case["src_t"] for p in fr])


def check(ctx, case, term):
    st, r = call(simulate, case)
    if st == "err":
        ctx.fail(f"moving-scene simulation raised {type(r).__name__}: {r}", case)
        return None
    T, ns, nm = case["T"], len(case["src_t"][0]), len(case["mic_t"][0])
    if tuple(r.shape) != (T, ns, nm, case["nsample"]):
        ctx.fail(f"moving-scene shape {tuple(r.shape)}, expected {(T, ns, nm, case['nsample'])}", case)
        return None
    if r.dtype != getattr(torch, case["dtype"]):
        ctx.fail(f"moving-scene dtype {r.dtype}, inputs are {case['dtype']}", case)
        return None
    arr = r.detach().numpy().astype(float)
    tols = np.zeros_like(arr)
    for t in range(T):
        for s in range(ns):
            for m in range(nm):
                kw = {}
                if case.get("pat"):
                    kw = dict(src_pat=case["pat"][0], mic_pat=case["pat"][1], src_dir=case["ways"][0][s], mic_dir=case["ways"][1][m])
                dist, amp, bound, unsure = ism.amplitudes(term, t * ns + s, case["mic_t"][t][m], case["beta"],
                                                          unit=ism.unit(case), full=True, **kw)
                kw = dict(bound=bound, unsure=unsure) if case.get("pat") else {}
                want, tol = ism.render(dist, amp, fs=case["fs"], c=case["c"], fdl=case["fdl"],
                                       nsample=case["nsample"], single=case["dtype"] == "float32",
                                       lut_gran=case["gran"] if case["use_lut"] else None, **kw)
                tols[t, s, m] = tol
                ok, k, d, tl = ism.worst(arr[t, s, m], want, tol)
                ctx.comparisons += case["nsample"]
                if not ok:
                    ctx.fail(f"step {t} source {s} mic {m} sample {k}: got {arr[t, s, m, k]:.9g}, static "
                             f"response at that step has {want[k]:.9g} (|diff| {d:.3g} > {tl:.3g})", case)
                    return None
    ctx.trace()
    return arr, tols


def metamorphic(ctx, case, full, tols):
    """Subsets, permutations and the exchange of devices."""
    rng = ctx.rng
    st, mt = tensors(case)
    T, ns, nm = case["T"], st.shape[1], mt.shape[1]

    def same(got, ix, axes, what):
        want, tol = full[ix], tols[ix]
        if axes:
            want, tol = want.transpose(axes), tol.transpose(axes)
        st_, got = got
        if st_ == "err":
            ctx.fail(f"{what} raised {type(got).__name__}: {got}", case)
        elif tuple(got.shape) != want.shape:
            ctx.fail(f"{what}: shape {tuple(got.shape)}, expected {want.shape}", case)
        else:
            bad = np.abs(got.numpy() - want) - 2 * tol
            if not (bad <= 0).all():
                ctx.fail(f"{what} changes the responses by up to {np.abs(got.numpy() - want).max():.3g}", case)
        ctx.trace()

    # the static simulation of a scene standing still at a step
    t = rng.randrange(T)
    same(call(static, case, st[t], mt[t]), t, None, f"the static simulation at step {t}")
    it = sorted(rng.sample(range(T), rng.randint(1, T)))
    if rng.random() < 0.5:
        rng.shuffle(it)
    is_ = rng.sample(range(ns), rng.randint(1, ns))
    im = rng.sample(range(nm), rng.randint(1, nm))
    same(call(simulate, case, st[it][:, is_], mt[it][:, im], is_, im), np.ix_(it, is_, im), None,
         f"simulating only steps {it}, sources {is_}, mics {im}")
    if not case["nb"] and not case.get("pat"):
        same(call(simulate, case, mt, st), np.ix_(range(T), range(ns), range(nm)), (0, 2, 1, 3),
             "exchanging sources and microphones")


def grid_case(beh, rng, order):
    """Behaviour emitted by MCMoving (unit = one grid cell of 1 m, c = fs)."""
    T = len(beh["src"])
    return dict(dim=2, T=T, L=[100 * beh["LX"], 100 * beh["LY"]], order=order, nb=[],
                src_t=[[[100 * x for x in p] for p in fr] for fr in beh["src"]],
                mic_t=[[[100 * x for x in p] for p in fr] for fr in beh["mic"]],
                src=None, mic=None, beta=[.5, .25, .75, .9], beta_none=False, fs=64.0, c=8.0,
                fdl=9, nsample=140, use_lut=False, gran=20, dtype="float64", chunk=rng.choice([1, 3, 2048]),
                achunk=rng.choice([1, 4, 4096]), squeeze=rng.random() < .5, via=rng.choice(["func", "scene"]))


def run(ctx):
    rng = ctx.rng
    LX, LY, T, order = 1, 2, ctx.pick(2, 3), 2
    r = ctx.tlc("MCMoving", constants=dict(LX=LX, LY=LY, T=T, Order=order, NSrc=2, NMic=1,
                                           EmitMod=ctx.pick(19, 37)),
                invariants=["FramesAreStatic", "OneFramePerStep", "PairLocal", "Reciprocal", "StillRepeats", "Emit"],
                properties=["AppendOnly"], workers=1)
    beh = r.records
    if ctx.thorough:
        r = ctx.tlc("MCMoving", constants=dict(LX=2, LY=1, T=2, Order=3, NSrc=1, NMic=2, EmitMod=17),
                    invariants=["FramesAreStatic", "PairLocal", "Reciprocal", "Emit"], workers=1)
        more = [dict(b, LX=2, LY=1) for b in r.records]
    else:
        more = []
    beh = [dict(b, LX=LX, LY=LY) for b in beh]
    rng.shuffle(beh)
    rng.shuffle(more)
    n = ctx.pick(60, 400)
    cases = [grid_case(b, rng, 2) for b in beh[:n]] + [grid_case(b, rng, 3) for b in more[:n]]
    ctx.count("walks_from_tlc", len(cases))
    cases += [traj_case(rng, patterns=True) for _ in range(ctx.pick(110, 700))]
    for _ in range(ctx.pick(4, 40)):          # many steps
        c = traj_case(rng, rng.choice([17, 33, 50, 65, rng.randint(6, 70)]))
        c["order"], c["nb"], c["nsample"] = min(c["order"], 1), [], min(c["nsample"], 300)
        cases.append(c)
    tm = ism.terms(ctx, [frame_cases(c) for c in cases])
    for c, t in zip(cases, tm):
        full = check(ctx, copy.deepcopy(c), t)
        if full is not None and rng.random() < 0.6:
            metamorphic(ctx, c, *full)
        if ctx.enough():
            break
    ctx.sample({k: cases[0][k] for k in ("L", "src_t", "mic_t", "order")})
    ctx.sample({k: cases[-1][k] for k in ("L", "src_t", "mic_t", "order", "dtype", "fs")})
    ctx.assumptions.append("positions on a 1 cm grid; float rounding within a stated envelope")

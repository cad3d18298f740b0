"""Drivers for C07-C09; expectations come from spec/ConvEval.tla."""

from __future__ import annotations

import numpy as np
import torch

from tv.core import call

VALS = [-3, -2, -1, 1, 2, 3, 5]
WIDE = [-50000, 40000, -900, 31, -2, 1, 1, 3]          # quiet samples next to loud ones


def sparse(rng, n, k, vals=VALS):
    k = min(n, k)
    if n <= 24:
        pos = range(n)
    else:
        pos = sorted(set(rng.sample(range(n), k)) | {0, n - 1} if rng.random() < .6 else rng.sample(range(n), k))
    return [[p, rng.choice(vals)] for p in pos]


def length(rng, big):
    return rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, rng.randint(1, big)])


def conv_case(rng, mode, big=3000):
    N, R = length(rng, big), length(rng, big // 3)
    S, M = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 4])
    T = 1 if mode == "static" else rng.choice([1, 2, 3, 5, 7, 11, 9, 17])
    hop = 1
    if mode == "hop":
        hop = rng.choice([1, 2, 3, max(1, N // 2), max(1, N - 1), N, N + 1, N + 5, max(1, N // max(1, T)), rng.randint(1, N + 3)])
    starts, ts = [0], None
    kind = "conv"
    num, den = [], 1
    if mode == "trajectory":
        if rng.random() < .5:
            kind = "autoconv"
            T = rng.choice([T, N, N + 2]) if N <= 12 else T
            # keep float rounding out of this comparison (covered by the traces)
            while any((t * N) % T == 0 for t in range(1, T)) and N % T and T & (T - 1):
                T -= 1
        else:
            den = rng.choice([1, 2, 4])
            nn = sorted(rng.choice([rng.randint(0, N * den), rng.randint(0, N) * den]) for _ in range(T))
            nn[0] = 0
            num = nn
            starts = [n // den for n in nn]
            ts = True
    k = 6 if S * M * T > 12 else 10
    dtype = rng.choice(["float32", "float64"])
    xv, hv = rng.choice([(VALS, VALS), (VALS, WIDE), (WIDE, VALS)]) if dtype == "float64" else (VALS, VALS)
    if N > 200 and rng.random() < .4:           # a total just at, below or above a power of two
        R = max(1, (1 << (N + R).bit_length()) + rng.choice([0, 1, 1, 2, 3]) - N)
    c = dict(kind=kind, mode=mode, N=N, R=R, hop=hop, starts=starts, num=num, den=den,
                x=[sparse(rng, N, 10, xv) for _ in range(S)],
                h=[[[sparse(rng, R, k, hv) for _ in range(M)] for _ in range(S)] for _ in range(T)],
                ts=bool(ts), fs=rng.choice([1.0, 8.0, 1024.0, 16384.0]) if ts else 0,
                dtype=dtype, call=rng.random() < .5,
                slim=rng.random() < .5, tslist=rng.random() < .3,
                give_fs=rng.random() < .2)
    r = rng.random()
    if r < .15:                                 # a silent step, source or microphone
        t = rng.randrange(T)
        c["h"][t] = [[[] for _ in range(M)] for _ in range(S)]
    elif r < .22:
        c["x"][rng.randrange(S)] = []
    elif r < .3:
        m = rng.randrange(M)
        for t in c["h"]:
            for s in t:
                s[m] = []
    return c


def stretch(rng, c, N):
    """The same case with its samples spread over N samples, the last ones included."""
    f = N // c["N"]
    c = dict(c, N=N, x=[[[p * f, v] for p, v in s] + [[N - 1, rng.choice(VALS)]] for s in c["x"]], dtype="float64")
    c["x"] = [[q for i, q in enumerate(s) if q[0] not in [r[0] for r in s[:i]]] for s in c["x"]]
    if c["mode"] == "hop":
        c["hop"] = rng.choice([c["hop"] * f, max(1, N // len(c["h"])), 4096, max(1, (1 << rng.randint(11, 15)) + rng.choice([1, 2]) - c["R"] + 1)])
    elif c["num"]:
        c["num"] = [n * f for n in c["num"]]
        c["starts"] = [n // c["den"] for n in c["num"]]
    elif c["mode"] == "trajectory":
        while any((t * N) % len(c["h"]) == 0 for t in range(1, len(c["h"]))) and N % len(c["h"]) and len(c["h"]) & (len(c["h"]) - 1):
            c["h"] = c["h"][:-1]
    return c


def tensors(c):
    dt = getattr(torch, c["dtype"])
    S, M, T = len(c["x"]), len(c["h"][0][0]), len(c["h"])
    x = torch.zeros(S, c["N"], dtype=dt)
    for s in range(S):
        for p, v in c["x"][s]:
            x[s, p] = v
    h = torch.zeros(T, S, M, c["R"], dtype=dt)
    for t in range(T):
        for s in range(S):
            for m in range(M):
                for p, v in c["h"][t][s][m]:
                    h[t, s, m, p] = v
    if c["slim"]:          # the shorthand shapes
        if S == 1:
            x = x[0]
            h = h[:, 0]
            if M == 1:
                h = h[:, 0]
    if c["mode"] == "static":
        h = h[0]
    return x, h


def convolver(c):
    from torchrir.signal import DynamicConvolver

    if c["mode"] == "hop":
        return DynamicConvolver(mode="hop", hop=c["hop"])
    if c["ts"]:
        ts = [n / c["den"] / c["fs"] for n in c["num"]]
        ts = ts if c["tslist"] else torch.tensor(ts, dtype=torch.float64)
        return DynamicConvolver(mode="trajectory", timestamps=ts, fs=c["fs"])
    if c["give_fs"]:
        return DynamicConvolver(mode="trajectory", fs=16000.0)
    return DynamicConvolver()


def run_real(c, x, h):
    from torchrir.signal import convolve_rir

    if c["mode"] == "static":
        return convolve_rir(x, h)
    d = convolver(c)
    return d(x, h) if c["call"] else d.convolve(x, h)


def expected(c, rec):
    M = len(rec["y"])
    y = np.zeros((M, rec["len"]))
    for m in range(M):
        for p, v in rec["y"][m]:
            y[m, p] += v
    return y


def tol_of(c, dtype=None):
    e = 1e-6 if (dtype or c["dtype"]) == "float32" else 1e-13
    xs = max(1.0, sum(float(np.sqrt(sum(v * v for _, v in s))) for s in c["x"]))
    hs = max(float(np.sqrt(sum(v * v for _, v in mm))) for t in c["h"] for s in t for mm in s)
    return e * xs * max(1.0, hs) * 8 * (len(c["h"]) + 3)


def compare(ctx, c, got, want, what):
    st, y = got
    M = want.shape[0]
    if st == "err":
        ctx.fail(f"{what} raised {type(y).__name__}: {y}", c)
        return False
    shape = (want.shape[1],) if M == 1 else want.shape
    if tuple(y.shape) != tuple(shape):
        ctx.fail(f"{what}: output shape {tuple(y.shape)}, specification {tuple(shape)}", c)
        return False
    if y.dtype != getattr(torch, c["dtype"]):
        ctx.fail(f"{what}: output precision {y.dtype}", c)
        return False
    d = np.abs(y.numpy().reshape(want.shape).astype(float) - want)
    ctx.comparisons += d.size
    tol = tol_of(c)
    if not (d <= tol).all():
        m, k = np.unravel_index(int(np.nanargmax(np.where(np.isfinite(d), d, np.inf))), d.shape)
        ctx.fail(f"{what}: mic {m} sample {k}: got {y.numpy().reshape(want.shape)[m, k]:.7g}, "
                 f"specification {want[m, k]:.7g}", c)
        return False
    ctx.trace()
    return True


def oracle(ctx, cases, label=None):
    out = []
    for a in range(0, len(cases), 200):
        part = [dict(c, id=i) for i, c in enumerate(cases[a:a + 200])]
        r = ctx.tlc("ConvEval", cases=part, label=label)
        recs = sorted(r.records, key=lambda q: q["id"])
        assert len(recs) == len(part)
        out += recs
    return out


def model(ctx):
    inv = ["SameAsSamplewise", "InRange", "LenAgrees", "CoverOnce", "CoverHop", "EqualIsStatic", "DefaultInRange", "BatchedIsSame"]
    ctx.tlc("MCConv", constants=dict(MaxN=3, MaxT=2, MaxR=2, Vals="{0, 1, 2}"), invariants=inv, workers=4)
    if ctx.thorough:
        ctx.tlc("MCConv", constants=dict(MaxN=5, MaxT=3, MaxR=2, Vals="{1, 2}"), invariants=inv, workers=8,
                timeout=800)


def replay(ctx, mode, n):
    rng = ctx.rng
    cases = [conv_case(rng, mode) for _ in range(n)]
    for i in range(ctx.pick(24, 80)):          # long signals, far beyond any block or transform size
        c = conv_case(rng, mode, 6000)
        while c["N"] < 1000:
            c = conv_case(rng, mode, 6000)
        cases.append(stretch(rng, c, rng.choice([65536, 65537, 131072, 2 ** 18 + 1, rng.randint(20000, 300000)]) if i % 2 else
                             max(4000, (1 << rng.randint(13, 17)) + rng.choice([0, 1, 1, 1, 2]) - c["R"] + 1)))
    if ctx.thorough:
        cases += [conv_case(rng, mode, 60000) for _ in range(n // 4)]
    for c, rec in zip(cases, oracle(ctx, cases)):
        x, h = tensors(c)
        want = expected(c, rec)
        x0, h0 = x.clone(), h.clone()
        got = call(run_real, c, x, h)
        compare(ctx, c, got, want, f"{mode} convolution")
        if not (torch.equal(x, x0) and torch.equal(h, h0)):
            ctx.fail(f"{mode} convolution modified its inputs", c)
        if ctx.enough():
            return cases
        elsewhere(ctx, c, want)
    ctx.sample({k: v for k, v in cases[0].items() if k not in ("x", "h")})
    return cases


def elsewhere(ctx, c, want):
    """The same case with tensors that live on an accelerator (tv/pretend.py)."""
    from tv import pretend

    if c["mode"] == "static" and ctx.rng.random() < .7:
        return
    dev = "cuda" if c["dtype"] == "float64" else ctx.rng.choice(["cuda", "mps"])
    if dev == "mps" and c["ts"] and not (c["den"] & (c["den"] - 1) == 0 and c["N"] < 2 ** 20):
        return                                  # segment starts are taken in single precision there
    if dev == "mps" and not c["ts"] and c["mode"] == "trajectory":
        T = len(c["h"])
        if T & (T - 1):
            return
    x, h = tensors(c)
    with pretend.on(dev):
        st, y = call(lambda: run_real(c, pretend.there(x), pretend.there(h)))
        where = str(y.device) if st == "ok" else dev
        if st == "ok":
            y = pretend.back(y)
    if st == "err" and pretend.not_ours(y):
        ctx.count("not_judged_elsewhere")
        return
    ctx.count("runs_elsewhere")
    if where != dev:
        ctx.fail(f"{c['mode']} convolution on {dev} gave a result on {where}", c)
    compare(ctx, c, (st, y), want, f"{c['mode']} convolution on {dev}")


def shapes(ctx, mode):
    """Every small shape combination: accepted as specified or rejected."""
    import itertools

    sds = [[], [4]] + [[a, 4] for a in (1, 2, 3)] + [[1, 1, 4], [2, 2, 4]]
    rds = [[], [3]] + [[a, 3] for a in (1, 2, 3)] + [[a, b, 3] for a in (1, 2, 3) for b in (1, 2)]
    rds += [[a, b, d, 3] for a in (1, 2) for b in (1, 2, 3) for d in (1, 2)] + [[1, 1, 1, 1, 3]]
    cases = [dict(kind="shape", mode=mode, sd=s, rd=r) for s, r in itertools.product(sds, rds)]
    rng = ctx.rng
    todo = []
    for c, rec in zip(cases, oracle(ctx, cases, "shapes")):
        o = rec["o"]
        x = torch.tensor(rng.choices(VALS, k=int(np.prod(c["sd"] or [1])))).double().reshape(c["sd"])
        h = torch.tensor(rng.choices(VALS, k=int(np.prod(c["rd"] or [1])))).double().reshape(c["rd"])
        d = dict(mode=mode, hop=2, ts=False, give_fs=False, call=False, dtype="float64")
        got = call(run_real, d, x, h)
        ctx.comparisons += 1
        if o["ok"] == "reject":
            if got[0] == "ok":
                ctx.fail(f"{mode} convolution accepted signal shape {c['sd']} with response shape {c['rd']}", c)
        elif got[0] == "err":
            if o["ok"] == "ok":
                ctx.fail(f"{mode} convolution refused signal shape {c['sd']} with response shape {c['rd']}: "
                         f"{got[1]!r}", c)
        else:
            # value check through the same oracle
            xs = x.reshape(-1, 4).expand(o["nsrc"], 4)
            hs = h.reshape(o["T"], o["nsrc"], o["nmic"], 3)
            todo.append((dict(kind="autoconv" if mode == "trajectory" else "conv", mode=mode, N=4, R=3, hop=2,
                              starts=[0], dtype="float64",
                              x=[[[p, int(v)] for p, v in enumerate(r)] for r in xs.tolist()],
                              h=[[[[[p, int(v)] for p, v in enumerate(q)] for q in m] for m in s]
                                 for s in hs.tolist()]), got, c))
    if mode == "trajectory":   # T=3, N=4: no start is on an exact sample
        todo = [t for t in todo]
    for (c, got, sh), rec in zip(todo, oracle(ctx, [t[0] for t in todo], "shape values")):
        compare(ctx, dict(c, sd=sh["sd"], rd=sh["rd"]), got, expected(c, rec),
                f"{mode} convolution of signal shape {sh['sd']} with response shape {sh['rd']}")


def must_reject(ctx, what, fn, case):
    st, v = call(fn)
    ctx.comparisons += 1
    if st == "ok":
        ctx.fail(f"{what} was accepted", case)

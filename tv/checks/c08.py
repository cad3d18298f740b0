"""C08: trajectory convolution filters each sample with its own step's response."""

from __future__ import annotations

import torch

from tv import conv
from tv.core import call


def observe_steps(c):
    """Which step filtered each sample: response of step t is the unit impulse times t+1."""
    from torchrir.signal import DynamicConvolver

    T, N = c["T"], c["N"]
    h = torch.arange(1, T + 1, dtype=torch.float64)[:, None]
    kw = {}
    if c["num"]:
        kw = dict(timestamps=torch.tensor([n / c["den"] / c["fs"] for n in c["num"]], dtype=torch.float64), fs=c["fs"])
    dt = getattr(torch, c["dtype"])
    return DynamicConvolver(mode="trajectory", **kw).convolve(torch.ones(N, dtype=dt), h.to(dt))


def traces(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(150, 1200)):
        N = rng.choice([1, 2, 3, 5, 10, 16, 48, 97, 100, 1000, 4410, 16000, rng.randint(1, 30000)])
        T = rng.choice([1, 2, 3, 4, 6, 7, 10, 49, 100, rng.randint(1, 300)])
        T = min(T, N)            # so that every step is observable
        num, den, fs, exact = [], 1, 0, (N % T == 0 or T & (T - 1) == 0)
        if rng.random() < .5:
            fs = rng.choice([8000.0, 16000.0, 44100.0, 22050.0, 1024.0, 7999.5, 11025.75, .5])
            den = rng.choice([1, 2, 10, 1000, 65536, 65536])
            pos = [0] + sorted(rng.sample(range(1, N), T - 1))
            if den == 65536:         # just after or just before a sample
                num = [p * den + (rng.choice([1, den - 1]) if k else 0) for k, p in enumerate(pos)]
            else:
                num = [p * den + (rng.randint(0, den - 1) if k else 0) for k, p in enumerate(pos)]
            exact = fs == 1024.0 and den <= 2
        cases.append(dict(kind="trace", N=N, T=T, num=num, den=den, fs=fs, exact=exact or den == 65536, dtype=rng.choice(["float32", "float64"])))
    todo = []
    for c in cases:
        st, y = call(observe_steps, c)
        if st == "err":
            ctx.fail(f"trajectory convolution raised {y!r}", c)
            continue
        if tuple(y.shape) != (c["N"],):
            ctx.fail(f"trajectory convolution of {c['N']} samples gave shape {tuple(y.shape)}", c)
            continue
        step = torch.round(y).long()
        if (y - step).abs().max() > (1e-6 if c["dtype"] == "float64" else 1e-3) * c["T"] or step.min() < 1 or step.max() > c["T"]:
            ctx.fail("a sample was filtered by no step or by more than one", c)
            continue
        if (step[1:] < step[:-1]).any():
            ctx.fail("segments are not consecutive", c)
            continue
        # start of step t: first sample filtered by a step >= t
        idx = torch.searchsorted(step, torch.arange(1, c["T"] + 1)).tolist()
        todo.append(dict(c, obs=idx))
    for c, rec in zip(todo, conv.oracle(ctx, todo, "segmentation traces")):
        ctx.trace()
        ctx.comparisons += c["T"]
        if not rec["ok"]:
            bad = [t for t in range(c["T"]) if c["obs"][t] != rec["want"][t]][:5]
            ctx.fail(f"{c['N']} samples, {c['T']} steps: steps {bad} start at {[c['obs'][t] for t in bad]}, "
                     f"specification {[rec['want'][t] for t in bad]}", c)
    ctx.sample(cases[0])


def rejections(ctx):
    from torchrir.signal import DynamicConvolver

    rng = ctx.rng
    for _ in range(ctx.pick(20, 100)):
        N, T, R = rng.randint(6, 40), rng.randint(2, 5), rng.randint(1, 6)
        x, h = torch.ones(N), torch.ones(T, R)
        ok = sorted(rng.sample(range(N), T))
        ok[0] = 0

        def go(ts, fs=1.0, **k):
            return lambda: DynamicConvolver(mode="trajectory", timestamps=ts, fs=fs).convolve(x, h)

        cs = dict(N=N, T=T, R=R, ts=ok)
        conv.must_reject(ctx, "timestamps not starting at zero", go([t + .5 for t in ok]), cs)
        conv.must_reject(ctx, "timestamps with a negative start", go([-1.0] + ok[1:]), cs)
        late = rng.choice([1e-3, 1e-6, .1, -1e-3, -1e-9]) * rng.choice([1, .5])
        conv.must_reject(ctx, "timestamps not starting at zero", go([late] + ok[1:]), cs)
        conv.must_reject(ctx, "timestamps not starting at zero", go(torch.tensor([late] + ok[1:], dtype=torch.float64), fs=rng.choice([1.0, 1.0, .5])), cs)
        conv.must_reject(ctx, "too many timestamps", go(ok + [N - 1]), cs)
        conv.must_reject(ctx, "too few timestamps", go(ok[:-1]), cs)
        conv.must_reject(ctx, "two-dimensional timestamps", go(torch.tensor([ok])), cs)
        conv.must_reject(ctx, "timestamps without a sampling rate", go(ok, fs=None), cs)
        conv.must_reject(ctx, "decreasing timestamps", go([0, N - 1] + [0] * (T - 2) if T > 2 else [0, -1]), cs)
    conv.must_reject(ctx, "an unknown mode", lambda: DynamicConvolver(mode="frames").convolve(torch.ones(4), torch.ones(2, 3)), {})


def equal_is_static(ctx):
    from torchrir.signal import DynamicConvolver, convolve_rir

    rng = ctx.rng
    for _ in range(ctx.pick(30, 300)):
        S, M, N, R, T = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 500), rng.randint(1, 200), rng.randint(1, 9)
        g = torch.Generator().manual_seed(rng.randrange(10 ** 9))
        x = torch.randn(S, N, generator=g, dtype=torch.float64)
        h = torch.randn(S, M, R, generator=g, dtype=torch.float64)
        a = call(lambda: DynamicConvolver().convolve(x, h.expand(T, S, M, R)))
        b = call(lambda: convolve_rir(x, h))
        ctx.comparisons += 1
        ctx.trace()
        if a[0] == "err" or b[0] == "err" or a[1].shape != b[1].shape or not torch.allclose(a[1], b[1], rtol=1e-9, atol=1e-9):
            ctx.fail("equal responses at all steps do not give the static convolution", dict(S=S, M=M, N=N, R=R, T=T))


def run(ctx):
    conv.model(ctx)
    conv.shapes(ctx, "trajectory")
    conv.replay(ctx, "trajectory", ctx.pick(150, 1500))
    traces(ctx)
    rejections(ctx)
    equal_is_static(ctx)
    ctx.assumptions.append("a segment start whose exact value is a whole sample may be one sample early when "
                           "timestamp*fs (or t*N/T) is not exactly representable")

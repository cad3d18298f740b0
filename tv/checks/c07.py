"""C07: static convolution is the full linear sum over sources."""

from __future__ import annotations

import torch

from tv import conv
from tv.core import call


def run(ctx):
    from torchrir.signal import convolve_rir, fft_convolve

    conv.model(ctx)
    conv.shapes(ctx, "static")
    cases = conv.replay(ctx, "static", ctx.pick(150, 1500))
    rng = ctx.rng
    # the single-pair entry point, and linearity on float data
    one = [conv.conv_case(rng, "static") for _ in range(ctx.pick(40, 300))]
    one = [dict(c, x=c["x"][:1], h=[[[c["h"][0][0][0]]]], slim=True) for c in one]
    for c, rec in zip(one, conv.oracle(ctx, one)):
        x, h = conv.tensors(c)
        conv.compare(ctx, c, call(fft_convolve, x, h), conv.expected(c, rec), "fft_convolve")
    for _ in range(ctx.pick(30, 200)):
        S, M, N, R = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 400), rng.randint(1, 300)
        g = torch.Generator().manual_seed(rng.randrange(10 ** 9))
        a, b = (torch.randn(S, N, generator=g, dtype=torch.float64) for _ in range(2))
        h = torch.randn(S, M, R, generator=g, dtype=torch.float64)
        p, q = rng.uniform(-9, 9), rng.uniform(-1e-3, 1e3)
        l, r = call(lambda: convolve_rir(p * a + q * b, h)), call(lambda: p * convolve_rir(a, h) + q * convolve_rir(b, h))
        ctx.comparisons += 1
        if l[0] == "err" or r[0] == "err" or not torch.allclose(l[1], r[1], rtol=1e-9, atol=1e-7):
            ctx.fail("convolution is not linear in the signals", dict(S=S, M=M, N=N, R=R, p=p, q=q))
        ctx.trace()
    for sd, rd in (((2, 4), (3,)), ((1, 4), (3,)), ((4,), (1, 3)), ((), (3,))):
        conv.must_reject(ctx, f"fft_convolve of shapes {sd}, {rd}",
                         lambda: fft_convolve(torch.ones(sd), torch.ones(rd)), dict(sd=sd, rd=rd))
    del cases
    ctx.assumptions.append("integer-valued signals and responses (exact oracle); float error bound relative to energy")

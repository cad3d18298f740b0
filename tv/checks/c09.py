"""C09: hop convolution processes fixed frames and only the frames it has."""

from __future__ import annotations

import torch

from tv import conv


def run(ctx):
    from torchrir.signal import DynamicConvolver

    conv.model(ctx)
    conv.shapes(ctx, "hop")
    conv.replay(ctx, "hop", ctx.pick(220, 2000))
    for hop in (None, 0, -1, -7):
        for N, T, R in ((5, 2, 3), (1, 1, 1), (64, 4, 9)):
            conv.must_reject(ctx, f"hop {hop}",
                             lambda: DynamicConvolver(mode="hop", hop=hop).convolve(torch.ones(N), torch.ones(T, R)),
                             dict(hop=hop, N=N, T=T, R=R))
    ctx.assumptions.append("integer-valued signals and responses (exact oracle)")

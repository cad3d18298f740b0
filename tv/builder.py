"""Tiny corpora for, and children running, the dynamic dataset builder."""

from __future__ import annotations

import json
import random
from pathlib import Path

import numpy as np
import soundfile as sf

from tv import sandbox

SPEAKERS = ["bdl", "slt", "clb", "rms", "jmk", "awb"]


def corpus(root: Path, seed, fs=1000, loud=False, speakers=SPEAKERS, odd=None, empty=None):
    """A corpus of short utterances; `odd` gets one utterance of another rate."""
    rng = random.Random(seed)
    for s in speakers:
        d = root / "ARCTIC" / f"cmu_us_{s}_arctic"
        (d / "wav").mkdir(parents=True)
        (d / "etc").mkdir()
        lines = []
        for k in range(rng.randrange(2, 5)):
            u = f"arctic_a{k + 1:04d}"
            n = rng.randrange(150, 700)
            t = np.arange(n)
            if loud:
                x = .97 * np.sign(np.sin(2 * np.pi * 5 * t / fs + .1))
            else:
                g = np.random.default_rng(rng.randrange(10 ** 6))
                x = .3 * g.standard_normal(n).clip(-3, 3)
            if s != empty:
                sf.write(d / "wav" / f"{u}.wav", x, fs * 2 if s == odd and k else fs)
            lines.append(f'( {u} "sentence {k} of {s}" )')
        (d / "etc" / "txt.done.data").write_text("\n".join(lines) + "\n")
    sandbox.give(root)
    for p in [root, *root.rglob("*")]:
        p.chmod(0o555 if p.is_dir() else 0o444)
    return root


def prepare():
    """Everything the children need, imported in the parent with one thread."""
    import matplotlib.font_manager  # noqa: F401
    import torch

    torch.set_num_threads(1)
    import scipy.signal  # noqa: F401
    import torchrir.viz  # noqa: F401


def start(root: Path, kw, **fault):
    """build_dynamic_cmu_arctic_dataset(**kw) in a child."""

    def fn():
        from torchrir.datasets import build_dynamic_cmu_arctic_dataset

        import logging

        logging.disable(logging.CRITICAL)
        r = build_dynamic_cmu_arctic_dataset(**kw)
        return [int(x) for x in r]

    return sandbox.run(fn, root=root, **fault, script=[dict(kind="refuse")])


def content(root: Path):
    """What identifies a dataset: its names, and the bytes of audio and descriptions."""
    return {k: ("image" if isinstance(v, bytes) and k.endswith((".png", ".mp4")) else v) for k, v in sandbox.tree(root).items()}


def scene(d: Path, req, fs):
    """The scene in d as the record the specification judges."""
    n = req["n_sources"]
    names = sorted(p.name for p in d.iterdir())
    images = []
    if req["save_layout_images"]:
        images = ["room_layout_2d.png"] + (["room_layout_3d.png"] if req["save_layout_images_3d"] else [])
    audio, data = [], []
    for f in ["mixture.wav"] + [f"source_{i:02d}.wav" for i in range(n)]:
        try:
            x, r = sf.read(d / f, dtype="int16", always_2d=True)
        except Exception:  # noqa: BLE001
            continue
        audio.append(dict(rate=int(r), frames=int(x.shape[0]), chans=int(x.shape[1])))
        data.append(x.astype(np.int64))
    same = len(data) == n + 1 and len({x.shape for x in data}) == 1
    frames = int(req["duration_sec"] * fs) + req["rir_samples"] - 1
    return dict(n=n, names=names, images=images, audio=audio, rate=fs, frames=frames,
                sumerr=int(np.abs(sum(data[1:]) - data[0]).max()) if same else 10 ** 6,
                peak=int(max(np.abs(x).max() for x in data)) if data else 0,
                silent=any(not x.any() for x in data))


def descriptions(d: Path):
    def strict(x):
        raise ValueError(f"not JSON: {x}")

    return tuple(json.loads((d / f).read_text(), parse_constant=strict) for f in ("metadata.json", "source_info.json"))

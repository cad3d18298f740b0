"""Small synthetic corpora in the layouts of CMU ARCTIC and LibriSpeech, and their archives."""

from __future__ import annotations

import io
import random
import tarfile

import numpy as np
import soundfile as sf


def audio(rng, n, fs, fmt="WAV", peak=0.5):
    b = io.BytesIO()
    x = np.array([rng.uniform(-peak, peak) for _ in range(n)])
    sf.write(b, x, fs, format=fmt, subtype="PCM_16")
    return b.getvalue()


def cmu_tree(seed, speaker="bdl", n=3, samples=3000, fs=16000):
    rng = random.Random(seed)
    top = f"cmu_us_{speaker}_arctic"
    t = {f"{top}/README": b"readme %d" % seed, f"{top}/COPYING": rng.randbytes(300)}
    lines = []
    for i in range(n):
        u = f"arctic_a{i + 1:04d}"
        lines.append(f'( {u} "Sentence {i} of {seed}." )')
        t[f"{top}/wav/{u}.wav"] = audio(rng, samples, fs)
    t[f"{top}/etc/txt.done.data"] = ("\n".join(lines) + "\n").encode()
    return t


def libri_tree(seed, subset="dev-clean", n=3, samples=3000, fs=16000):
    rng = random.Random(seed)
    t = {"LibriSpeech/README.TXT": b"readme %d" % seed, "LibriSpeech/SPEAKERS.TXT": rng.randbytes(200)}
    for sp, ch in (("84", "121123"), ("174", "50561")):
        lines = []
        for i in range(n):
            u = f"{sp}-{ch}-{i:04d}"
            lines.append(f"{u} TEXT {i} OF {seed}")
            t[f"LibriSpeech/{subset}/{sp}/{ch}/{u}.flac"] = audio(rng, samples, fs, "FLAC")
        t[f"LibriSpeech/{subset}/{sp}/{ch}/{sp}-{ch}.trans.txt"] = ("\n".join(lines) + "\n").encode()
    return t


def pack(tree, mode, order=None, **kw):
    """A compressed tar of a {name: bytes} tree with its directories."""
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:" + mode, **kw) as t:
        done = set()
        for name in order or list(tree):
            parts = name.split("/")
            for i in range(1, len(parts)):
                d = "/".join(parts[:i])
                if d not in done:
                    done.add(d)
                    ti = tarfile.TarInfo(d)
                    ti.type = tarfile.DIRTYPE
                    ti.mode = 0o755
                    t.addfile(ti)
            ti = tarfile.TarInfo(name)
            ti.size = len(tree[name])
            ti.mode = 0o644
            t.addfile(ti, io.BytesIO(tree[name]))
    return b.getvalue()


def lay(root, tree):
    for name, data in tree.items():
        p = root / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(data)

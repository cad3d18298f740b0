"""C29: calls in concurrent threads (Threads.tla): schedules replayed line by line."""

from __future__ import annotations

import json
import os
import random

import numpy as np
import torch

from tv import builder, corpora, threads
from tv.checks import c03
from tv.core import REPO, TlcError


def catalogue(ctx, shift):
    """Named operations on data of their own: (name, build, run, kind)."""
    ops = [(n, b, r, "sim") for n, b, r in c03.catalogue(shift)]
    top = ctx.scratch / f"files{shift}"
    if not top.exists():
        top.mkdir()
        for name, data in corpora.cmu_tree(5 + shift, "bdl", samples=900).items():
            p = top / "cmu" / "ARCTIC" / name
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(data)
        for name, data in corpora.libri_tree(6 + shift, samples=700).items():
            p = top / "libri" / name
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(data)

    def other(name, run):
        ops.append((name, lambda: {}, lambda d: run(), "other"))

    def gen():
        return torch.Generator().manual_seed(11 + shift)

    def wav(sub):
        from torchrir import io

        x = torch.rand(3, 500, generator=gen()) - .5
        p = top / f"a-{sub}-{os.getpid()}.wav"
        io.save_audio(p, x, 8000 + shift, normalize=True, peak=.5, subtype=sub)
        y, sr = io.load_audio(p)
        i = io.info_audio(p)
        d = io.load_audio_data(p)
        p.unlink()
        return [y.numpy(), sr, repr(i).replace(str(p), "p"), d.audio.numpy(), d.subtype]
    other("audio files", lambda: wav("PCM_16"))
    other("audio files float", lambda: wav("FLOAT"))

    def arrays():
        from torchrir import geometry as g

        c = [1.0 + shift, 2.0, 1.5]
        r = random.Random(shift)
        size = torch.tensor([6.0 + shift, 5.0, 3.0])
        return [g.linear_array(center=c, num=5, spacing=.1).numpy(), g.circular_array(center=c, num=4, radius=.2 + shift).numpy(),
                g.polyhedron_array(center=c, kind="octahedron", radius=.3 + shift).numpy(), g.eigenmike_em32(c).numpy(), g.eigenmike_em64(c).numpy(), g.binaural_array(c).numpy(),
                g.sample_positions(num=4, room_size=size, rng=r).numpy(),
                g.sample_positions_min_distance(num=3, room_size=size, rng=r, center=torch.tensor([3.0, 2.5, 1.5]), min_distance=.8).numpy(),
                g.linear_trajectory(torch.tensor([1.0, 1, 1]), torch.tensor([2.0 + shift, 3, 1]), 7).numpy(), r.random()]
    other("arrays and positions", arrays)

    def room():
        from torchrir import util as u

        size = torch.tensor([6.0, 4.0 + shift, 3.0])
        b = u.estimate_beta_from_t60(size, .4 + .1 * shift)
        return [b.numpy(), u.estimate_t60_from_beta(size, b), u.estimate_image_counts_from_tmax(.05 + .01 * shift, size, 343.0).numpy(),
                u.orientation_to_unit(torch.tensor([.3 + shift, .2]), 3).numpy(), repr(u.infer_device_dtype(size, b))]
    other("room acoustics", room)

    def meta():
        from torchrir import MicrophoneArray, Room, Source
        from torchrir.io import build_metadata, save_metadata_json

        room = Room.shoebox(size=[6.0 + shift, 5.0, 3.0], fs=16000.0, beta=[.5] * 6)
        s = Source.from_positions([[1.0, 2.0, 1.5], [2.0, 3.0 + shift, 1.0]])
        m = MicrophoneArray.from_positions([[3.0, 3.0, 1.2], [3.1, 3.0, 1.2]])
        md = build_metadata(room=room, sources=s, mics=m, rirs=torch.zeros(2, 2, 40 + shift),
                            src_traj=torch.rand(3, 2, 3, generator=gen()) + 1, signal_len=300)
        p = top / f"m-{os.getpid()}.json"
        save_metadata_json(p, md)
        text = p.read_text()
        p.unlink()
        return text
    other("metadata", meta)

    def data(kind):
        from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset, collate_dataset_items, load_dataset_sources

        if kind == "cmu":
            ds = CmuArcticDataset(top / "cmu", speaker="bdl", download=False)
            def fac(_):
                return CmuArcticDataset(top / "cmu", speaker="bdl", download=False)
        else:
            ds = LibriSpeechDataset(top / "libri", subset="dev-clean", download=False)
            def fac(spk):
                return LibriSpeechDataset(top / "libri", subset="dev-clean", speaker=spk, download=False)
        b = collate_dataset_items([ds[i] for i in range(len(ds))])
        r = random.Random(shift)
        sig, fs, info = load_dataset_sources(dataset_factory=fac, num_sources=1, duration_s=.1, rng=r)
        return [b.audio.numpy(), repr(b.lengths), repr(b.utterance_ids), sig.numpy(), fs, repr(info), r.random(),
                [s.text for s in ds.available_sentences()]]
    other("CMU ARCTIC", lambda: data("cmu"))
    other("LibriSpeech", lambda: data("libri"))

    def build():
        import logging
        import shutil
        from pathlib import Path

        from torchrir.datasets import build_dynamic_cmu_arctic_dataset

        logging.disable(logging.CRITICAL)
        out = top / f"ds-{os.getpid()}"
        r = build_dynamic_cmu_arctic_dataset(
            cmu_root=ctx.scratch / "corpus", dataset_root=out, speakers=["bdl", "slt", "clb"], n_scenes=1, n_sources=2,
            n_moving_sources=1, duration_sec=.2, trajectory_steps=3, rir_samples=16, max_order=0, seed=4 + shift, save_layout_mp4=False,
            save_layout_images=False)
        c = {k: v if isinstance(v, str) else v for k, v in builder.content(out).items()}
        shutil.rmtree(Path(out))
        return [list(r), sorted(c), [c[k] for k in sorted(c)]]
    other("dataset build", build)

    def scene():
        from torchrir import MicrophoneArray, Room, Source, StaticScene
        from torchrir.sim import ISMSimulator

        room = Room.shoebox(size=[6.0 + shift, 5.0, 3.0], fs=8000.0, beta=[.6] * 6)
        s = Source.from_positions([[1.0, 2.0, 1.5], [2.0, 3.0 + shift, 1.0]])
        m = MicrophoneArray.from_positions([[3.0, 3.0, 1.2]])
        x = StaticScene(room=room, sources=s, mics=m)
        x.validate()
        return ISMSimulator(max_order=2, tmax=.05).simulate(x).rirs.numpy()
    other("scene and simulator", scene)
    return ops


def plain(v):
    return v.numpy() if torch.is_tensor(v) else v


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        tol = 1e-6 if a.dtype == np.float32 else 1e-13
        return np.allclose(a, b, rtol=tol, atol=tol * max(1e-3, np.abs(b).max(initial=0)), equal_nan=True)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def firsts(where):
    """Ticks at which a line is met for the first, second and last time."""
    n, out = {}, {}
    for k, w in enumerate(where):
        n[w] = n.get(w, 0) + 1
        if n[w] == 1:
            out[k] = 0
        elif n[w] == 2:
            out[k] = 1
    return [k for k, v in out.items() if v == 0], [k for k, v in out.items() if v == 1]


def run(ctx):
    inv = ["AsAlone", "GeneratorKept", "TablesWhole"]
    base = dict(NThreads=2, Tables=2, Flaw='"none"', MaxSwitches=0, EmitOn="FALSE")
    ctx.tlc("Threads", constants=dict(base, NThreads=ctx.pick(3, 4)), invariants=inv, workers=4, label="any schedule of several threads")
    for f in ("early", "scratch", "seed", "current"):
        q = ctx.tlc("Threads", constants=dict(base, Flaw=f'"{f}"'), invariants=inv, expect_ok=False, label=f"flaw: {f}")
        if not q.violated:
            raise TlcError(f"the model of threads does not notice {f}")
    recs = ctx.tlc("Threads", constants=dict(base, MaxSwitches=ctx.pick(3, 4), EmitOn="TRUE"), invariants=inv + ["Emit"],
                   label="schedules with few switches").records
    scheds = sorted({json.dumps(r["runs"]) for r in recs})
    scheds = [json.loads(s) for s in scheds]

    torch.set_num_threads(1)
    builder.prepare()
    w = ctx.scratch / "corpus"
    w.mkdir()
    builder.corpus(w, ctx.seed)
    import torchrir.datasets, torchrir.geometry, torchrir.io, torchrir.signal, torchrir.sim, torchrir.util  # noqa: E401,F401

    root = str(REPO / "src")
    cats = [catalogue(ctx, s) for s in (0, 1)]
    n = len(cats[0])
    rng = ctx.rng

    def alone(job):
        which, i, opcodes = job
        _, build, run_, _ = cats[which][i]
        d = build()
        out, gate = threads.together(root, [lambda: plain(run_(d))], [], opcodes=opcodes, keep=True)
        return out[0], gate.where[0], gate.ticks[0]
    jobs = [(w, i, o) for w in (0, 1) for i in range(n) for o in ((False, True) if w == 0 else (False,))]
    res = dict(zip(jobs, threads.pool(jobs, alone)))
    for (w, i, o), r in res.items():
        if r is None or r[0][0] != "ok":
            ctx.fail(f"'{cats[w][i][0]}' failed on its own: {r and r[0]}", dict(operation=cats[w][i][0]))
            return
    want = [[res[w, i, False][0][1] for i in range(n)] for w in (0, 1)]
    ticks = [[max(1, res[w, i, False][2]) for i in range(n)] for w in (0, 1)]

    cases = []
    sims = [i for i in range(n) if cats[0][i][3] == "sim"]
    for i in range(n):
        one, two = firsts(res[0, i, False][1])
        others = [j for j in (sims if i in sims else range(n)) if j != i]
        # stop at every line, where it is met first; the other call runs from start to end
        pts = one + rng.sample(two, min(len(two), ctx.pick(15, 400)))
        if len(pts) > ctx.pick(90, 10 ** 6):
            pts = rng.sample(pts, 90)
        for k in pts:
            j = i if rng.random() < .5 else rng.choice(others)
            cases.append((i, j, [[0, k]], False))
            if ctx.thorough:
                cases.append((i, rng.choice(others), [[0, k]], False))
        # both stopped at about the same line; and turn by turn
        for k in rng.sample(one, min(len(one), ctx.pick(30, 10 ** 6))):
            j = i if rng.random() < .75 else rng.choice(others)
            cases.append((i, j, [[0, k], [1, max(1, k + rng.choice([-1, 0, 0, 1, 2]))], [0, rng.choice([1, 2, 5, 10 ** 9])]], False))
        for a, b in ((1, 1), (2, 1), (1, 3)) + ctx.pick((), ((2, 2), (5, 7), (1, 10))):
            for j in {i, rng.choice(others)}:
                cases.append((i, j, [[0, rng.randrange(1, 4)]] + [[1, b], [0, a]] * max(ticks[0][i], ticks[1][j]), False))
        # schedules from the model: shares of the calls' lines
        for s in (rng.sample(scheds, min(len(scheds), ctx.pick(8, 60)))):
            j = i if rng.random() < .5 else rng.choice(others)
            tot = [sum(m for t, m in s if t == q + 1) for q in (0, 1)]
            segs = [[t - 1, max(1, round(m / tot[t - 1] * ticks[t - 1][(i, j)[t - 1]] * rng.uniform(.7, 1.3)))] for t, m in s[:-1]]
            cases.append((i, j, segs, False))
        # between the steps of a line
        total = res[0, i, True][2]
        for _ in range(ctx.pick(6, 150)):
            cases.append((i, i if rng.random() < .6 else rng.choice(others), [[0, rng.randrange(total)]], True))
    rng.shuffle(cases)

    def replay(case):
        i, j, segs, opcodes = case
        pair = [cats[0][i], cats[1][j]]
        data = [p[1]() for p in pair]
        keep = [[v.clone() for v in c03.leaves(d)] for d in data]
        before = c03.states()
        out, gate = threads.together(root, [lambda p=p, d=d: plain(p[2](d)) for p, d in zip(pair, data)], segs, opcodes=opcodes)
        bad = []
        for t, (o, w) in enumerate(zip(out, (want[0][i], want[1][j]))):
            if o[0] != "ok":
                bad.append(f"'{pair[t][0]}' raised {o[1]}")
            elif not same(o[1], w):
                bad.append(f"'{pair[t][0]}' gave another result than alone")
            if not all(torch.equal(a, b) for a, b in zip(keep[t], c03.leaves(data[t]))):
                bad.append(f"the inputs of '{pair[t][0]}' were modified")
        if not c03.same_states(before, c03.states()):
            bad.append("the global random state was changed")
        return bad, gate.switches, gate.forced

    outs = threads.pool(cases, replay, until=lambda out: sum(1 for o in out if o and o[0]) >= 12)
    for c, o in zip(cases, outs):
        if o is None:
            if ctx.violations:
                continue
            ctx.fail("the process died", dict(first=cats[0][c[0]][0], second=cats[1][c[1]][0], schedule=c[2]))
            continue
        ctx.trace()
        ctx.comparisons += 2
        ctx.count("switches", o[1])
        ctx.count("schedules_changed_by_waiting", 1 if o[2] else 0)
        if o[0]:
            ctx.fail(f"{cats[0][c[0]][0]} | {cats[1][c[1]][0]}: " + "; ".join(o[0]),
                     dict(first=cats[0][c[0]][0], second=cats[1][c[1]][0], schedule=c[2], opcodes=c[3]))
            if ctx.enough():
                return
    ctx.cover["operations"] = [o[0] for o in cats[0]]
    ctx.sample(dict(first=cats[0][cases[0][0]][0], second=cats[1][cases[0][1]][0], schedule=cases[0][2]))

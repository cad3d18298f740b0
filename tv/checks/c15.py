"""C15: batching (Collate.tla): TLC computes every batch, the real one must be the same."""

from __future__ import annotations

import io
from dataclasses import dataclass
from functools import partial
from typing import Any

import numpy as np
import soundfile as sf
import torch

from tv import sandbox
from tv.core import call

DTYPES = [torch.float32, torch.float32, torch.float64, torch.int16, torch.float16]


def run(ctx):
    from torchrir.datasets import CollateBatch, DatasetItem, collate_dataset_items

    @dataclass(frozen=True)
    class WithMeta(DatasetItem):
        metadata: Any = None

    rng = ctx.rng
    mc = dict(MaxItems=ctx.pick(3, 4), MaxLen=ctx.pick(3, 3), Rates="{8, 16}")
    recs = ctx.tlc("MCCollate", constants=mc, invariants=["Prefix", "Emit"]).records
    for r in recs:
        r["pad"] = -7
    cases = []
    for _ in range(ctx.pick(800, 8000)):
        n = rng.choice([1, 2, 3, 5, 8, 20])
        rate = rng.choice([8000, 16000, 22050])
        odd = rng.randrange(n) if rng.random() < .15 else -1
        cases.append(dict(pad=rng.choice([0, 0, -1, 1, 3]), items=[
            dict(len=rng.choice([0, 1, 2, rng.randrange(0, 60)]), rate=rate + (1 if i == odd else 0), id=rng.randrange(0, 50),
                 text=rng.randrange(0, 4), spk=rng.randrange(0, 3), base=100 * i, meta=rng.randrange(5)) for i in range(n)]))
    recs += ctx.tlc("CollateEval", cases=cases, label="CollateEval").records
    text = {0: None, 1: "", 2: "two words", 3: "x"}
    spk = {0: None, 1: "bdl", 2: "slt"}
    sorts = [lambda m: {"m": m}, lambda m: {}, lambda m: 0, lambda m: "", lambda m: [], lambda m: False, lambda m: ("t", m),
             lambda m: torch.zeros(m), lambda m: None]
    for r in recs:
        dtype = rng.choice(DTYPES)
        items, metas = [], []
        for m in r["items"]:
            x = torch.arange(m["base"] + 1, m["base"] + m["len"] + 1).to(dtype)
            how = rng.random()
            if how < .15 and m["len"] > 1:          # a view of something larger
                y = torch.full((2 * m["len"],), -99).to(dtype)
                y[::2] = x
                x = y[::2]
            kw = dict(audio=x, sample_rate=m["rate"], utterance_id=f"u{m['id']}", text=text[m["text"]], speaker=spk[m["spk"]])
            metas.append(rng.choice(sorts)(m["meta"]) if m["meta"] else None)
            items.append(WithMeta(**kw, metadata=metas[-1]) if m["meta"] else DatasetItem(**kw))
        before = [x.audio.clone() for x in items]
        keep = rng.random() < .5
        arg = rng.choice([items, tuple(items), iter(items), (x for x in items)])
        kw = {}
        if r["pad"] or rng.random() < .5:
            kw["pad_value"] = float(r["pad"]) if dtype.is_floating_point or rng.random() < .5 else r["pad"]
        if keep or rng.random() < .5:
            kw["keep_metadata"] = keep
        grad = rng.random() < .1 and dtype.is_floating_point
        with torch.no_grad() if grad else torch.enable_grad():
            st, b = call(collate_dataset_items, arg, **kw)
        ctx.trace()
        ctx.comparisons += 1
        want = r["batch"]
        case = dict(items=r["items"], pad=r["pad"], keep=keep, dtype=str(dtype), got=repr(b)[:600])
        if (st == "ok") != want["ok"]:
            ctx.fail(f"batch of {len(items)} items: {'accepted' if st == 'ok' else repr(b)}", case)
        elif st == "ok":
            bad = None
            w = torch.tensor(want["audio"], dtype=torch.float64).reshape(len(items), -1)
            if not isinstance(b, CollateBatch) or b.audio.dtype != dtype or tuple(b.audio.shape) != tuple(w.shape) \
                    or not torch.equal(b.audio.double(), w.to(dtype).double()):
                bad = "the rows are not the items followed by padding"
            elif list(b.lengths.tolist()) != want["lengths"] or b.lengths.is_floating_point():
                bad = "lengths are not the items' lengths"
            elif b.sample_rate != want["rate"]:
                bad = "another sampling rate"
            elif list(b.utterance_ids) != [f"u{x}" for x in want["ids"]]:
                bad = "identifiers are not aligned"
            elif list(b.texts) != [text[x] for x in want["texts"]]:
                bad = "texts are not aligned"
            elif list(b.speakers) != [spk[x] for x in want["spks"]]:
                bad = "speakers are not aligned"
            elif [i for i, x in enumerate(want["metas"]) if x] != [i for i, m in enumerate(r["items"]) if m["meta"]]:
                raise AssertionError("the specification's metadata are not the items'")
            elif keep and (b.metadata is None or len(b.metadata) != len(metas) or any(x is not y for x, y in zip(b.metadata, metas))):
                bad = "metadata are not aligned"
            elif not keep and b.metadata is not None:
                bad = "metadata were not asked for"
            if bad is None:
                b.audio.fill_(42)
            if any(not torch.equal(x.audio, y) for x, y in zip(items, before)):
                bad = bad or "the items were changed or share memory with the batch"
            if bad:
                ctx.fail(f"batch of {len(items)} items: {bad}", case)
        if ctx.enough():
            return
    ctx.sample(dict(items=recs[-1]["items"][:2], pad=recs[-1]["pad"]))
    if not ctx.enough():
        loaders(ctx)
    ctx.assumptions += ["items of one batch share their sample format"]


def loaders(ctx):
    """Batches of a corpus on disk made by PyTorch's loader (Loader.tla)."""
    from torch.utils.data import DataLoader
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset, collate_dataset_items

    rng = ctx.rng
    mc = dict(MaxItems=3, MaxSize=2, Workers=ctx.pick(2, 3))
    hist = ctx.tlc("MCLoader", constants=dict(mc, Policy='"turn"'), invariants=["InTurn", "Partition", "Emit"], workers=4).records
    if not ctx.tlc("MCLoader", constants=dict(mc, Policy='"ready"'), invariants=["InTurn"], expect_ok=False,
                   label="MCLoader with flaw ready").violated:
        raise AssertionError("the specification misses batches out of turn")
    hist = [dict(x) for x in {(tuple(h["order"]), h["size"], h["drop"]): h for h in hist}.values()]
    rng.shuffle(hist)
    runs, cases = [], []
    for k in range(ctx.pick(8, 40)):
        root = ctx.scratch / f"dl{k}"
        n = 3 if k % 2 else rng.randrange(4, 14)
        kind = rng.choice(["cmu", "libri"])
        spk = "slt" if kind == "cmu" else "84"
        top = root / ("ARCTIC/cmu_us_slt_arctic" if kind == "cmu" else "LibriSpeech/dev-clean/84/9")
        (top / ("wav" if kind == "cmu" else "")).mkdir(parents=True)
        (top / "etc").mkdir(exist_ok=True)
        by, lines = {}, []
        for i in range(1, n + 1):
            u = f"arctic_a{i:04d}" if kind == "cmu" else f"84-9-{i:04d}"
            m = by[u] = dict(len=rng.randrange(1, 30), rate=16000, id=i, text=i, spk=1, base=1000 * i, meta=0)
            x = np.arange(m["base"] + 1, m["base"] + m["len"] + 1).astype(np.int16)
            p = top / f"wav/{u}.wav" if kind == "cmu" else top / f"{u}.flac"
            sf.write(p, x, 16000, subtype="PCM_16")
            lines.append(f'( {u} "words {i}" )' if kind == "cmu" else f"{u} words {i}")
        (top / ("etc/txt.done.data" if kind == "cmu" else "84-9.trans.txt")).write_text("\n".join(lines) + "\n")
        h = CmuArcticDataset(root, speaker="slt") if kind == "cmu" else LibriSpeechDataset(
            root, subset="dev-clean", speaker=rng.choice(["84", None]))
        ids = [s.utterance_id for s in h.available_sentences()]
        items = [by[u] for u in ids]
        for _ in range(ctx.pick(6, 12)):
            if n == 3 and hist:
                q = hist.pop()
                order, size, drop = list(q["order"]), q["size"], q["drop"]
            else:
                order = rng.choice([list(range(1, n + 1)), rng.sample(range(1, n + 1), n), rng.sample(range(1, n + 1), n // 2),
                                    [rng.randrange(1, n + 1) for _ in range(n)]])
                size, drop = rng.randrange(1, n + 2), rng.random() < .3
            workers = rng.choice([0, 0, 0, 2, 3]) if len(runs) % 4 == 0 else 0
            kw = dict(collate_fn=rng.choice([collate_dataset_items, partial(collate_dataset_items, pad_value=0.0)]), num_workers=workers)
            if order == list(range(1, n + 1)) and rng.random() < .5:
                kw.update(batch_size=size, drop_last=drop)
            elif not drop and rng.random() < .4:
                kw.update(batch_sampler=[[i - 1 for i in order[a:a + size]] for a in range(0, len(order), size)])
            else:
                kw.update(batch_size=size, drop_last=drop, sampler=[i - 1 for i in order])
            dl = DataLoader(h, **kw)
            got = [call(lambda: list(dl)) for _ in range(rng.choice([1, 2]))]         # epochs
            runs.append((items, workers, got))
            cases.append(dict(n=len(runs), items=items, order=order, size=size, drop=drop))
        sandbox.wipe(root)
    recs = ctx.tlc("LoaderEval", cases=cases, label="LoaderEval").records
    for r in recs:
        items, workers, got = runs[r["n"] - 1]
        for st, bs in got:
            ctx.trace()
            ctx.comparisons += 1
            bad = None
            if st == "err":
                bad = repr(bs)
            elif len(bs) != len(r["yields"]):
                bad = f"{len(bs)} batches instead of {len(r['yields'])}"
            else:
                for b, w in zip(bs, r["yields"]):
                    a = torch.tensor(w["audio"], dtype=torch.float64)
                    if tuple(b.audio.shape) != tuple(a.shape) or not torch.equal((b.audio.double() * 32768).round(), a):
                        bad = "rows are not the items' audio"
                    elif b.lengths.tolist() != w["lengths"] or b.sample_rate != w["rate"]:
                        bad = "lengths or rate"
                    elif [int(u[-4:]) for u in b.utterance_ids] != w["ids"] or list(b.texts) != [f"words {x}" for x in w["texts"]]:
                        bad = "identifiers or texts"
                    elif len(set(b.speakers)) != 1 or len(b.speakers) != len(w["ids"]):
                        bad = "speakers"
            if bad:
                c = cases[r["n"] - 1]
                ctx.fail(f"a loader with {workers} workers: {bad}", dict(case=c, got=repr(bs)[:500]))
    ctx.count("loader_runs", len(runs))

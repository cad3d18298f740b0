"""C14: loading sources (Sources.tla): recorded calls are judged by TLC."""

from __future__ import annotations

import json
import os
import random
import subprocess
import sys
from types import SimpleNamespace

import torch

from tv import corpora, sandbox
from tv.core import REPO, VERIF, call


def fake(base_cls):
    """A dataset in memory that writes down what is read from it."""

    class Fake(base_cls):
        def __init__(self, names, utts, speaker, loads):
            self.names, self.utts, self.speaker, self.loads = names, utts, speaker, loads

        def list_speakers(self):
            return self.names

        def available_sentences(self):
            return self.utts[self.speaker]["sentences"]

        def load_audio(self, utterance_id):
            self.loads.append([self.speaker, utterance_id])
            if len(self.loads) > 5000:      # far more than any case needs
                raise RuntimeError("reading without end")
            u = self.utts[self.speaker]["audio"][utterance_id]
            return u["x"], u["rate"]

    return Fake


def world(rng, uneven):
    """Speakers with utterances; sample j of an utterance is base + j."""
    n = rng.randrange(1, 6)
    many = rng.random() < .15       # many short utterances, gone through several times
    names = [f"s{i}" for i in range(n)]
    rng.shuffle(names)
    fs = rng.choice([8, 10, 16, 100, 1000])
    utts, base = {}, 0
    for s in names:
        us = []
        k = rng.choice([1, 1, 2, 3, 5, 8]) if not (uneven == "none" and rng.random() < .4) else 0
        if many and k:
            k = rng.randrange(9, 24)
        for j in range(k):
            ln = rng.randrange(0, 5) if many else rng.choice([1, 2, 3, 5, 8, 13, rng.randrange(0, 25)])
            us.append(dict(id=f"u{j}", len=ln, base=base,
                           rate=fs if not (uneven == "rate" and rng.random() < .15) else fs * 2))
            base += 100
        if us and not any(u["len"] for u in us):
            us[0]["len"] = 4
        utts[s] = us
    return names, utts, fs, many


def lay_out(utts, dtype):
    return {s: dict(sentences=[SimpleNamespace(utterance_id=u["id"], text="t") for u in us],
                    audio={u["id"]: dict(x=torch.arange(u["base"] + 1, u["base"] + u["len"] + 1).to(dtype), rate=u["rate"]) for u in us})
            for s, us in utts.items()}


def outcome(res):
    st, v = res
    if st == "err":
        return dict(ok=False, why=repr(v))
    sig, fs, info = v
    return dict(ok=True, fs=int(fs), rows=[dict(spk=i[0], ids=list(i[1]), sig=[int(x) for x in s.tolist()])
                                           for s, i in zip(sig, info)] if len(sig) == len(info) else [])


def child_main():
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset, load_dataset_sources
    from pathlib import Path

    spec = json.load(sys.stdin)
    root = Path(spec["root"])
    out = []
    for kind, seed, n in spec["calls"]:
        f = (lambda s: LibriSpeechDataset(root, subset="dev-clean", speaker=s)) if kind == "libri" else \
            (lambda s: CmuArcticDataset(root, speaker=s or "bdl"))
        st, v = call(load_dataset_sources, dataset_factory=f, num_sources=n, duration_s=.4, rng=random.Random(seed))
        out.append([st, repr(v) if st == "err" else [v[1], v[2], v[0].double().tolist()]])
    json.dump(out, sys.stdout)


def run(ctx):
    from torchrir.datasets import BaseDataset, choose_speakers, load_dataset_sources

    rng = ctx.rng
    mc = dict(MaxLen=ctx.pick(2, 3), MaxTarget=ctx.pick(5, 7))
    ctx.tlc("MCSources", constants=dict(Flaw='""', **mc), invariants=["Right", "RightLoop", "Bounded"], workers=4)
    for f in ("again", "late", "early"):
        r = ctx.tlc("MCSources", constants=dict(Flaw=f'"{f}"', **mc), invariants=["Right"], constraints=["Bounded"],
                    expect_ok=False, label=f"MCSources with flaw {f}")
        if not r.violated:
            raise AssertionError(f"the specification misses the flaw {f}")
    Fake = fake(BaseDataset)
    cases, again = [], []
    for k in range(ctx.pick(1500, 20000)):
        uneven = rng.choice(["", "", "", "", "none", "rate"])
        names, utts, fs, many = world(rng, uneven)
        num = rng.randrange(1, len(names) + (2 if rng.random() < .2 else 1))
        ms = rng.choice([1000 * rng.randrange(1, 40) // fs + 1, rng.randrange(1, 2500), 125 * rng.randrange(1, 20)])
        if many and rng.random() < .7:      # as the speakers' utterances run at 2 fs
            ms = 500 * rng.randrange(40, 150) // fs
        if ms * fs < 1000:
            ms = -(-1000 // fs) + 1
        if ms * fs // 1000 > 150:
            ms = 150 * 1000 // fs
        data = lay_out(utts, rng.choice([torch.float32, torch.float64]))
        seed = rng.randrange(10 ** 6)
        loads = []
        snapshot = repr(data)

        def go(loads):
            return call(load_dataset_sources, dataset_factory=lambda s: Fake(names, data, s, loads), num_sources=num,
                        duration_s=ms / 1000, rng=random.Random(seed))
        out = outcome(go(loads))
        cases.append(dict(id=k, names=names, utts=utts, num=num, ms=ms, out=out, loads=loads))
        if rng.random() < .5:
            random.seed(rng.random())
            torch.manual_seed(rng.randrange(10 ** 6))
            if rng.random() < .5:       # another call in between
                call(load_dataset_sources, dataset_factory=lambda s: Fake(names, data, s, []), num_sources=num,
                     duration_s=ms / 1000, rng=random.Random(seed + 1))
            o2 = outcome(go([]))
            ctx.comparisons += 1
            if {**o2, "why": ""} != {**out, "why": ""}:
                ctx.fail("the same seed and data gave other sources", dict(first=out, second=o2, utts=utts))
        if repr(data) != snapshot:
            ctx.fail("the dataset's own lists or samples were changed", dict(utts=utts))
        r1, r2 = (call(choose_speakers, Fake(names, data, None, []), num, random.Random(seed)) for _ in range(2))
        ctx.comparisons += 1
        if num > len(names):
            if r1[0] == "ok":
                ctx.fail(f"{num} of {len(names)} speakers chosen: {r1[1]}", {})
        elif r1[0] == "err" or r1[1] != r2[1] or len(set(r1[1])) != num or len(r1[1]) != num or not set(r1[1]) <= set(names):
            ctx.fail(f"choosing {num} of {names} gives {r1[1]} and {r2[1]}", {})
        if ctx.enough():
            return
    for st in (call(choose_speakers, Fake([], {}, None, []), 1, random.Random(0)),
               call(load_dataset_sources, dataset_factory=lambda s: Fake([], {}, s, []), num_sources=1, duration_s=1., rng=random.Random(0))):
        ctx.comparisons += 1
        if st[0] == "ok":
            ctx.fail(f"a dataset without speakers gives {st[1]}", {})
    verdicts = ctx.tlc("SourcesTrace", cases=cases, label="SourcesTrace", timeout=800).records
    if len(verdicts) != len(cases):
        raise AssertionError("verdicts missing")
    for c, v in zip(cases, verdicts):
        ctx.trace()
        ctx.comparisons += 1
        ctx.count("loaded" if c["out"]["ok"] else "refused")
        if v["wrong"]:
            ctx.fail(f"loading {c['num']} sources of {c['ms']} ms: {v['wrong']} ({str(c['out'])[:160]})", c)
            if ctx.enough():
                return
    # every choice of speakers occurs: nobody is left out
    names = [f"s{i}" for i in range(5)]
    seen = set()
    for s in range(200):
        st, x = call(choose_speakers, Fake(names, {}, None, []), 2, random.Random(s))
        seen |= set(x) if st == "ok" else set()
    ctx.comparisons += 1
    if seen != set(names):
        ctx.fail(f"over 200 seeds only {sorted(seen)} were chosen", {})
    processes(ctx)
    ctx.sample(dict(case=cases[0], verdict=verdicts[0]))
    ctx.assumptions += ["durations of less than one sample and speakers all of whose utterances are empty are not judged",
                        "a duration of a whole number of samples may lose one to floating-point rounding"]


def processes(ctx):
    """Real corpora in processes with other string hashes and enumeration orders."""
    roots = []
    for n in (0, 1):
        root = ctx.scratch / f"corpus{n}"
        tree = {}
        for i, s in enumerate(("bdl", "slt")):
            tree.update({f"ARCTIC/{k}": v for k, v in corpora.cmu_tree(i, s, 5, 2500).items()})
        tree.update(corpora.libri_tree(3, n=5, samples=2500))
        items = list(tree.items())
        if n:
            items.reverse()
        corpora.lay(root, dict(items))
        roots.append(root)
    calls = [("libri", s, n) for s in range(ctx.pick(3, 10)) for n in (1, 2, 3)] + [("cmu", s, 2) for s in range(2)]
    outs = []
    for root, hs in ((roots[0], "1"), (roots[0], "2"), (roots[1], "3")):
        p = subprocess.run([sys.executable, "-c", "from tv.checks.c14 import child_main; child_main()"],
                           input=json.dumps(dict(root=str(root), calls=calls)), text=True, capture_output=True, cwd=VERIF,
                           env=dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=f"{REPO}/src:{VERIF}"))
        if p.returncode:
            ctx.fail(f"loading sources failed in a process of its own: {p.stderr[-400:]}", {})
            return
        outs.append(json.loads(p.stdout))
    for c, a, b, d in zip(calls, *outs):
        ctx.comparisons += 1
        if c[0] == "libri" and (a[0] == "ok") != (c[2] <= 2):
            ctx.fail(f"{c}: {str(a)[:200]}", {})
        if a[0] == "ok" and not a == b == d:
            ctx.fail(f"{c}: another process loads other sources: {a[1][1]}, {b[1][1]}, {d[1][1]}", {})
    for r in roots:
        sandbox.wipe(r)

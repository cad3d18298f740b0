"""C13: datasets show exactly the utterances with text and audio (Corpus.tla).

Corpora are laid out on disk in random ways; several handles observe them while
directory enumeration is permuted, copies of the same data are made in another
order, and separate processes hash strings differently.  TLC judges the
recorded observations of all handles on one corpus together.
"""

from __future__ import annotations

import contextlib
import io
import json
import os
import random
import subprocess
import sys

import numpy as np
import soundfile as sf

from tv import sandbox
from tv.core import REPO, VERIF, call


class Shuffled:
    """os.scandir whose entries come in another order."""

    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


@contextlib.contextmanager
def enumeration(rng, how):
    real_s, real_l = os.scandir, os.listdir

    def arrange(x, key):
        x = sorted(x, key=key)
        if how == "reverse":
            x.reverse()
        elif how == "random":
            rng.shuffle(x)
        return x

    def scandir(*a):
        with real_s(*a) as d:
            return Shuffled(arrange(list(d), lambda e: e.name))

    os.scandir = scandir
    os.listdir = lambda *a: arrange(real_l(*a), lambda n: n)
    try:
        yield
    finally:
        os.scandir, os.listdir = real_s, real_l


def pcm(seed, n, fs, fmt, channels=1):
    r = random.Random(seed)
    x = np.array([[r.randrange(-20000, 20000) for _ in range(channels)] for _ in range(n)], dtype=np.int16)
    b = io.BytesIO()
    sf.write(b, x, fs, format=fmt, subtype="PCM_16")
    return b.getvalue(), (x[:, 0] / 32768.0).astype(np.float32)


TEXTS = ["Hello there.", "A b  c", 'He said "no" twice.', "ünïcode", "IT'S", "x", "(brackets) here", "0 1 2", "a-b-c d",
         'ends in "quotes"', "tab\tinside"]


SPEAKERS = "aew ahw aup awb axb bdl clb eey fem gka jmk ksp ljm lnh rms rxr slp slt".split()
SUBSETS = "dev-clean dev-other test-clean test-other train-clean-100 train-clean-360 train-other-500".split()


class Built:
    """A corpus: files, the groups for the specification, and the audio by content."""

    def __init__(self, rng, kind, n):
        self.kind = kind
        self.files, self.world, self.sound = {}, [], {}
        k = 0
        if kind == "cmu":
            for spk in rng.sample(["bdl", "slt", "awb", "rms"], rng.randrange(1, 4)):
                top = f"ARCTIC/cmu_us_{spk}_arctic"
                ids = [f"arctic_{rng.choice('ab')}{i:04d}" for i in rng.sample(range(1, 2000), rng.randrange(0, n))]
                ids = [i + rng.choice(["", "", "", ".x", "-2"]) for i in ids]
                if rng.random() < .5:
                    ids.sort()
                self.group(rng, "", spk, ids, lambda u, top=top: f"{top}/wav/{u}.wav", "WAV")
                g = self.world[-1]
                lines = [rng.choice(['( {} "{}" )', '({} "{}")', ' ( {}   "{}" ) ']).format(e["id"], e["text"]) for e in g["entries"]]
                self.files[f"{top}/etc/txt.done.data"] = self.lines(rng, lines)
                self.files[f"{top}/wav/notes.txt"] = b"x"
                self.beside(rng, f"{top}/wav", ["{}.txt", "{}.flac", "{}.wav.part", "more/{}.wav", "{}.wav~", "{} .wav", "{}.wave"])
                self.files[f"{top}/COPYING"] = b"x"
        else:
            for sub in rng.sample(["dev-clean", "test-other"], rng.choice([1, 2, 2])):
                for spk in rng.sample(["84", "174", "1272", "2"], rng.randrange(1, 4)):
                    for ch in rng.sample(["9", "121123", "10"], rng.randrange(1, 3)):
                        k += 1
                        nums = rng.sample(range(8, 8 + 2 * n), rng.randrange(0, n))
                        if rng.random() < .7:
                            nums.sort()
                        ids = [f"{spk}-{ch}-{i:04d}" for i in nums]
                        top = f"LibriSpeech/{sub}/{spk}/{ch}"
                        self.group(rng, sub, spk, ids, lambda u, top=top: f"{top}/{u}.flac", "FLAC")
                        g = self.world[-1]
                        self.files[f"{top}/{spk}-{ch}.trans.txt"] = self.lines(
                            rng, [f"{e['id']} {e['text']}" for e in g["entries"]])
                        self.beside(rng, top, ["{}.wav", "{}.txt", "{}.flac.part", "more/{}.flac", "../{}.flac", "{}.flac~", "{}.fla"])
                self.files[f"LibriSpeech/{sub}/README"] = b"a file among the speakers"
            self.files["LibriSpeech/SPEAKERS.TXT"] = b"x"

    def beside(self, rng, where, names):
        """Files that are not the audio of an utterance listed without audio."""
        g = self.world[-1]
        for e in g["entries"]:
            if e["id"] not in g["audio"] and rng.random() < .7:
                data, _ = pcm(e["id"], 30, 16000, "WAV")
                self.files[os.path.normpath(f"{where}/{rng.choice(names).format(e['id'])}")] = data

    def lines(self, rng, lines):
        out = []
        for x in lines:
            out.append(x)
            if rng.random() < .1:
                out.append(rng.choice(["", "   "]))
        return ("\n".join(out) + rng.choice(["", "\n"])).encode()

    def group(self, rng, sub, spk, ids, path, fmt):
        entries, audio, rate = [], [], []
        extra = [i[:-1] + c for i in ids[:2] for c in "xy" if i[:-1] + c not in ids] if rng.random() < .4 else []
        for u in ids + extra:
            fs = rng.choice([8000, 16000, 16000, 22050])
            if u in ids:
                entries.append(dict(id=u, text=rng.choice(TEXTS + ["  spaced out ", ""] * (fmt == "WAV"))))
                rate.append(fs)
            if u in extra or rng.random() < .8:
                data, x = pcm(f"{sub}{spk}{u}{rng.random()}", rng.randrange(1, 60), fs, fmt, rng.choice([1, 1, 1, 2]))
                self.files[path(u)] = data
                self.sound[(x.tobytes(), fs)] = [sub, u]
                audio.append(u)
        self.world.append(dict(sub=sub, spk=spk, entries=entries, audio=audio, rate=rate))

    def lay(self, root, rng):
        names = list(self.files)
        rng.shuffle(names)
        for n in names:
            p = root / n
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(self.files[n])
        return root

    def views(self):
        out = []
        for g in self.world:
            for v in ((g["sub"], g["spk"]),) + (((g["sub"], ""),) if self.kind == "libri" else ()):
                if v not in out:
                    out.append(v)
        return out

    def handle(self, root, v):
        from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

        if self.kind == "cmu":
            return CmuArcticDataset(root, speaker=v[1])
        return LibriSpeechDataset(root, subset=v[0], speaker=v[1] or None)


def audio_of(b, a, fs):
    import torch

    if not isinstance(a, torch.Tensor) or a.dim() != 1:
        return ["?", "?"]
    return b.sound.get((a.numpy().astype(np.float32).tobytes(), int(fs)), ["?", "?"])


def row_of(b, item):
    return dict(id=item.utterance_id, text=item.text, spk=item.speaker or "", audio=audio_of(b, item.audio, item.sample_rate),
                rate=int(item.sample_rate))


def observe(b, h, v, rng, op):
    """One observation of handle h; what it saw, as an event."""
    e = dict(op=op, view=dict(sub=v[0], spk=v[1]))
    if op == "len":
        st, n = call(len, h)
        e["n"] = n if st == "ok" else -1
    elif op == "list":
        st, ss = call(h.available_sentences)
        e["rows"] = [dict(id=s.utterance_id, text=s.text, spk=getattr(s, "speaker_id", None) or v[1])
                     for s in ss] if st == "ok" else [dict(id="?", text=repr(ss), spk="")] * 50
    elif op == "iter":
        st, rows = call(lambda: [row_of(b, x) for x in h])
        e["rows"] = rows if st == "ok" else [dict(id="?", text=repr(rows), spk="", audio=["?", "?"], rate=0)] * 50
    elif op == "get":
        st, n = call(len, h)
        e["n"] = n = n if st == "ok" else 0
        e["i"] = rng.choice([0, -1, n - 1, -n, n, -n - 1, n + 3, rng.randrange(-n - 1, n + 1)])
        st, x = call(lambda: row_of(b, h[e["i"]]))
        e["ok"] = st == "ok"
        e["row"] = x if st == "ok" else dict(id="", text=repr(x), spk="", audio=["", ""], rate=0)
    elif op == "load":
        ids = [i for g in b.world if g["sub"] == v[0] and v[1] in ("", g["spk"]) for i in g["audio"]] or ["nothing-1-1"]
        e["id"] = rng.choice(ids)
        st, x = call(h.load_audio, e["id"])
        e["ok"] = st == "ok"
        e["audio"], e["rate"] = (audio_of(b, *x), int(x[1])) if st == "ok" else ([repr(x), ""], 0)
    elif op == "badindex":
        st, x = call(lambda: h[rng.choice([1.0, 0.0, "0", None, slice(0, 1), [0], (0,)])])
        e["ok"] = st == "ok"
    elif op == "speakers":
        st, x = call(h.list_speakers)
        x = list(x) if st == "ok" else ["?"]
        e["names"], e["sorted"] = x, x == sorted(x)
    return e


def child_main():
    """Listing and speakers of each view, in a process of its own."""
    spec = json.load(sys.stdin)
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

    out = []
    for v in spec["views"]:
        h = CmuArcticDataset(spec["root"], speaker=v[1]) if spec["kind"] == "cmu" else LibriSpeechDataset(
            spec["root"], subset=v[0], speaker=v[1] or None)
        out.append(dict(view=v, rows=[[s.utterance_id, s.text, getattr(s, "speaker_id", None) or v[1]]
                                      for s in h.available_sentences()], names=list(h.list_speakers())))
    json.dump(out, sys.stdout)


def run(ctx):
    rng = ctx.rng
    inv = ["Seen", "OneOrder"]
    ctx.tlc("MCCorpus", constants=dict(Policy='"data"'), invariants=inv, workers=4)
    for flaw, what in (("disk", "OneOrder"), ("shared", "Seen")):
        r = ctx.tlc("MCCorpus", constants=dict(Policy=f'"{flaw}"'), invariants=[what], expect_ok=False,
                    label=f"MCCorpus with flaw {flaw}")
        if not r.violated:
            raise AssertionError(f"the specification misses the flaw {flaw}")

    traces, corpora_ = [], []
    n = ctx.pick(60, 500)
    for k in range(n):
        kind = rng.choice(["cmu", "libri"])
        b = Built(rng, kind, rng.choice([2, 5, 9]))
        root = b.lay(ctx.scratch / f"c{k}" / "x", rng)
        copy = b.lay(ctx.scratch / f"c{k}" / "other place", rng)
        events = []
        handles = []
        for v in b.views():
            for r in (root, copy):
                st, h = call(b.handle, r if rng.random() < .5 else str(r), v)
                events.append(dict(op="open", view=dict(sub=v[0], spk=v[1]), ok=st == "ok"))
                if st == "ok":
                    handles.append((v, h))
        for v in ([("", "zzz"), ("", "jmk")] if kind == "cmu" else
                  [("dev-other", ""), ("dev-clean", "99999"), ("nosuch", ""), ("", "84"), (b.world[0]["sub"], "nobody")]):
            if any(g["sub"] == v[0] and v[1] in ("", g["spk"]) for g in b.world):
                continue
            st, h = call(b.handle, root, v)
            events.append(dict(op="open", view=dict(sub=v[0], spk=v[1]), ok=st == "ok"))
        ops = ["len", "list", "iter", "get", "get", "get", "load", "badindex"] + ([] if kind == "cmu" else ["speakers"])
        for _ in range(ctx.pick(25, 40)):
            if not handles:
                break
            v, h = rng.choice(handles)
            if rng.random() < .15:
                h = b.handle(rng.choice([root, copy]), v)
                handles.append((v, h))
            with enumeration(rng, rng.choice(["random", "reverse", "sorted"])):
                events.append(observe(b, h, v, rng, rng.choice(ops)))
        for v, h in handles[:12]:
            with enumeration(rng, "random"):
                for op in ("list", "iter"):
                    events.append(observe(b, h, v, rng, op))
        # other processes, other string hashes
        if k % ctx.pick(10, 12) == 0:
            for hs, plain in (("1", {}), ("2", dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"))):
                p = subprocess.run([sys.executable, "-c", "from tv.checks.c13 import child_main; child_main()"],
                                   input=json.dumps(dict(kind=kind, root=str(root), views=b.views())), text=True,
                                   capture_output=True, cwd=VERIF,
                                   env=dict(os.environ, **plain, PYTHONHASHSEED=hs, PYTHONPATH=f"{REPO}/src:{VERIF}"))
                if p.returncode:
                    ctx.fail(f"listing a corpus failed in a process of its own: {p.stderr[-400:]}", dict(world=b.world))
                    continue
                for o in json.loads(p.stdout):
                    v = dict(sub=o["view"][0], spk=o["view"][1])
                    events.append(dict(op="list", view=v, rows=[dict(id=x[0], text=x[1], spk=x[2]) for x in o["rows"]]))
                    if kind == "libri":
                        events.append(dict(op="speakers", view=v, names=o["names"], sorted=o["names"] == sorted(o["names"])))
                ctx.count("hash_seeds")
        traces.append(dict(id=k, world=b.world, events=events))
        ctx.count("handles", len(handles))
        sandbox.wipe(ctx.scratch / f"c{k}")
    out = ctx.tlc("CorpusTrace", cases=traces, label="CorpusTrace").records
    if len(out) != len(traces):
        raise AssertionError("verdicts missing")
    for t, v in zip(traces, out):
        ctx.trace()
        ctx.comparisons += len(t["events"])
        for x in v["bad"][:2]:
            e = t["events"][x["k"] - 1]
            ctx.fail(f"{e['op']} of {e['view']}: " + ("another order than before" if x["why"] == "order" else "not what is on disk"),
                     dict(event=e, world=t["world"]))
        if ctx.enough():
            return
    cmu_lists(ctx)
    loader(ctx)
    ctx.sample(dict(world=traces[0]["world"][:1], events=traces[0]["events"][-3:]))
    ctx.assumptions += ["the order itself is not prescribed, only that the data fixes it",
                        "malformed transcript lines and utterances listed twice are not judged"]


def cmu_lists(ctx):
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset, cmu_arctic_speakers

    b = Built(random.Random(5), "cmu", 5)
    root = b.lay(ctx.scratch / "lists", ctx.rng)
    spk = b.world[0]["spk"]
    names = [call(cmu_arctic_speakers), call(lambda: CmuArcticDataset(root, speaker=spk).list_speakers())]
    for st, x in names:
        ctx.comparisons += 1
        if st == "err" or list(x) != sorted(set(x)) or spk not in x:
            ctx.fail(f"speakers {x}", {})
    if names[0][0] == "ok" and isinstance(names[0][1], list):
        names[0][1].append("intruder")       # the caller's list is the caller's
        ctx.comparisons += 1
        if "intruder" in cmu_arctic_speakers() or call(CmuArcticDataset, root, speaker="intruder")[0] == "ok":
            ctx.fail("changing a returned speaker list changes the dataset", {})
    # every speaker and subset the documentation names
    for who in SPEAKERS:
        t = ctx.scratch / "named" / who
        (t / f"ARCTIC/cmu_us_{who}_arctic/etc").mkdir(parents=True)
        (t / f"ARCTIC/cmu_us_{who}_arctic/wav").mkdir()
        (t / f"ARCTIC/cmu_us_{who}_arctic/etc/txt.done.data").write_text('( arctic_a0001 "One." )\n')
        (t / f"ARCTIC/cmu_us_{who}_arctic/wav/arctic_a0001.wav").write_bytes(pcm(who, 20, 16000, "WAV", 1)[0])
        st, n = call(lambda: [x.speaker for x in CmuArcticDataset(t, speaker=who)])
        ctx.comparisons += 1
        if (st, n) != ("ok", [who]) or (names[0][0] == "ok" and who not in names[0][1]):
            ctx.fail(f"documented CMU speaker {who}: {n!r}, listed {who in names[0][1]}", {})
    for sub in SUBSETS:
        t = ctx.scratch / "named" / sub
        d = t / f"LibriSpeech/{sub}/84/9"
        d.mkdir(parents=True)
        (d / "84-9.trans.txt").write_text("84-9-0000 ONE\n")
        (d / "84-9-0000.flac").write_bytes(pcm(sub, 20, 16000, "FLAC", 1)[0])
        st, n = call(lambda: [x.utterance_id for x in LibriSpeechDataset(t, subset=sub)])
        ctx.comparisons += 1
        if (st, n) != ("ok", ["84-9-0000"]):
            ctx.fail(f"documented LibriSpeech subset {sub}: {n!r}", {})
    sandbox.wipe(ctx.scratch / "named")
    # a transcript that is not there
    (root / f"ARCTIC/cmu_us_{spk}_arctic/etc/txt.done.data").unlink()
    ctx.comparisons += 1
    if call(lambda: len(CmuArcticDataset(root, speaker=spk)))[0] == "ok":
        ctx.fail("a corpus without its transcript is an empty dataset", {})
    sandbox.wipe(root)
    for bad in ("", "BDL", "bdl ", "../bdl", None, 3):
        ctx.comparisons += 1
        (ctx.scratch / "none").mkdir(exist_ok=True)
        if call(CmuArcticDataset, ctx.scratch / "none", speaker=bad)[0] == "ok":
            ctx.fail(f"CMU speaker {bad!r} is accepted", {})


def loader(ctx):
    """A DataLoader sees the same items in the same order."""
    from torch.utils.data import DataLoader

    for k in range(ctx.pick(4, 30)):
        b = Built(random.Random(f"{ctx.seed}{k}"), ctx.rng.choice(["cmu", "libri"]), 9)
        root = b.lay(ctx.scratch / "dl", ctx.rng)
        for v in b.views()[:3]:
            h = b.handle(root, v)
            ids = [s.utterance_id for s in h.available_sentences()]
            st, got = call(lambda: [x[0].utterance_id for x in DataLoader(h, batch_size=1, collate_fn=list)] if len(h) else [])
            ctx.comparisons += 1
            if st == "err" or got != ids:
                ctx.fail(f"a DataLoader sees {got} instead of {ids}", {})
        sandbox.wipe(root)

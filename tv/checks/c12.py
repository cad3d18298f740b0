"""C12: dataset download is all-or-nothing under faults, crashes and concurrency.

Download.tla is the protocol; its finished single-run behaviours are replayed
against the real constructors with a scripted network, kills are placed before
every file-system effect and network read, two processes are interleaved at the
same places, and every recorded trace is judged by DownloadEval.tla.
"""

from __future__ import annotations

import itertools
import random

from tv import corpora, sandbox, threads
from tv.core import REPO

FLAWS = {"sharedTmp": "NeverPartial", "noStage": "SuccessIsComplete", "unlinkBad": "Survives", "noRetryT": "Survives",
         "noRetryC": "Survives", "keepShort": "NeverPartial", "direct": "NeverPartial", "eager": "PresentNotFetched",
         "swallow": "SuccessIsComplete"}
INVS = ["NeverPartial", "SuccessIsComplete", "Survives", "PresentNotFetched", "Agrees"]


class Kind:
    """One dataset class with its on-disk layout."""

    def __init__(self, name, samples=3000, **packing):
        self.name = name
        if name == "cmu":
            self.tree = corpora.cmu_tree(1, samples=samples)
            self.sub, self.mode, self.arch, self.data = "ARCTIC/", "bz2", "ARCTIC/cmu_us_bdl_arctic.tar.bz2", \
                "ARCTIC/cmu_us_bdl_arctic"
        else:
            self.tree = corpora.libri_tree(2, samples=samples)
            self.sub, self.mode, self.arch, self.data = "", "gz", "dev-clean.tar.gz", "LibriSpeech/dev-clean"
        self.good = corpora.pack(self.tree, self.mode, **packing)
        r = random.Random(5)
        k = len(self.good)
        # the damage leaves the complete length or announces the one it has
        flip = bytearray(self.good)
        for i in range(k // 2, k // 2 + 40):
            flip[i] ^= r.randrange(1, 256)
        self.bad = {"garbage": r.randbytes(9000), "html": b"<html>please log in</html>" * 300, "empty": b"",
                    "cut": self.good[: k * 3 // 5], "flip": bytes(flip),
                    "head": r.randbytes(40) + self.good[40:]}
        self.want = {self.sub + n: d for n, d in self.tree.items()}
        self.indata = {n: d for n, d in self.want.items() if n.startswith(self.data + "/")}

    def make(self, root, download=True):
        def fn():
            import torchrir.datasets as d

            if self.name == "cmu":
                ds = d.CmuArcticDataset(root, speaker="bdl", download=download)
            else:
                ds = d.LibriSpeechDataset(root, subset="dev-clean", download=download)
            return [s.utterance_id for s in ds.available_sentences()]
        return fn

    def setup(self, root, arch, data):
        if arch != "none":
            p = root / self.arch
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(self.good if arch == "good" else self.bad[arch if arch in self.bad else "garbage"])
        if data == "full":
            corpora.lay(root, self.want)
        sandbox.give(root)

    def data_state(self, root, full=True):
        t = sandbox.tree(root)
        have = {n: d for n, d in t.items() if isinstance(d, bytes)}
        if not any(n == self.data or n.startswith(self.data + "/") for n in t):
            return "none"
        want = self.want if full else self.indata
        return "full" if all(have.get(n) == d for n, d in want.items()) and \
            {n for n in have if n.startswith(self.data + "/")} == set(self.indata) else "part"


def deliveries(rng, kind, letter, how=None):
    """One delivery for a letter of a script: transfer failure, corrupt or good."""
    g = kind.good
    if letter == "G":
        return rng.choice([dict(kind="ok", label="G", body=g, length=len(g))] * 3 +
                          [dict(kind="ok", label="G", body=g, length=None)])
    if letter == "C":
        how = rng.choice(list(kind.bad))
        b = kind.bad[how]
        return dict(kind="ok", label="C", body=b, length=len(b), how=how)
    how = how or rng.choice(["refuse", "timeout", "http", "reset", "stall", "short", "short", "short0", "notHttp", "chunked"])
    if how in ("refuse", "timeout", "notHttp"):
        return dict(kind=how, label="T", how=how)
    if how == "http":
        return dict(kind="http", label="T", body=b"oops", length=4, how=how)
    n = 0 if how == "short0" else rng.choice([1, len(g) // 3, len(g) - 1, sandbox.CHUNK, 3 * sandbox.CHUNK])
    return dict(kind=how if how in ("reset", "stall", "chunked") else "ok", label="T", body=g[:n],
                length=None if how == "chunked" else len(g), how=f"{how}@{n}")


class Trace:
    def __init__(self, kind, root, arch, data, script):
        self.kind, self.root = kind, root
        self.rec = dict(arch="bad" if arch in kind.bad else arch, data=data, ev=[])
        self.whole = {kind.good, *kind.bad.values()}
        self.meta = dict(dataset=kind.name, start=(arch, data), script=[d.get("how", d["label"]) for d in script])
        self.nf = {}

    def look(self):
        p = self.root / self.kind.arch
        try:
            s = "whole" if p.read_bytes() in self.whole else "partial"
        except FileNotFoundError:
            s = "none"
        ev = self.rec["ev"]
        if not ev or ev[-1] != dict(k="look", arch=s):
            ev.append(dict(k="look", arch=s))

    def fetches(self, run, child):
        n = self.nf.get(id(child), 0)
        for f in child.fetches[n:]:
            self.rec["ev"].append(dict(k="fetch", run=run, got=f[1] if f[1] in "TCG" else "T"))
        self.nf[id(child)] = len(child.fetches)

    def end(self, run, child, dl=True):
        self.fetches(run, child)
        self.look()
        r = child.result
        out = r[0]
        st = self.kind.data_state(self.root, full=self.rec["data"] == "none")
        if out == "ok" and st == "full":
            ids = {n.rsplit("/", 1)[1].split(".")[0] for n in self.kind.indata if n.endswith((".wav", ".flac"))}
            if set(r[1]) != ids:
                st = "part"
        self.rec["ev"].append(dict(k="end", run=run, out=out, data=st, dl=dl))
        self.meta.setdefault("ends", []).append((run, r[:3] if out == "err" else out))


def expand(rng, kind, letters):
    return [deliveries(rng, kind, x) for x in letters if x != "K"]


def run(ctx):
    rng = ctx.rng
    # --- the protocol ---------------------------------------------------------
    base = dict(MaxT=2, MaxC=2, MaxK=0, MaxD=0, InitArch='{"none","good","bad"}', InitData='{"none","full"}', Flaws="{}",
                Emit1="FALSE", Runs="{1}")
    recs = ctx.tlc("Download", constants=dict(base, MaxT=3, MaxC=3, Emit1="TRUE"), invariants=INVS + ["Emit"],
                   label="Download one run").records
    ctx.tlc("Download", constants=dict(base, Runs="{1, 2}", MaxK=1), invariants=INVS, workers=4,
            constraints=[], label="Download two runs, one kill")
    ctx.tlc("Download", constants=dict(base, Runs="{1, 2}", MaxT=1, MaxC=1, MaxK=1, MaxD=ctx.pick(1, 2)), invariants=INVS,
            workers=4, label="Download two runs on a failing disk")
    if ctx.thorough:
        ctx.tlc("Download", constants=dict(base, Runs="{1, 2, 3}", MaxT=1, MaxC=1, MaxK=1), invariants=INVS, workers=8,
                timeout=700, label="Download three runs")
    for flaw, inv in FLAWS.items():
        r = ctx.tlc("Download", constants=dict(base, Runs="{1, 2}", MaxK=1, MaxT=1, MaxC=1, MaxD=1, Flaws='{"%s"}' % flaw),
                    invariants=[inv], expect_ok=False, label=f"Download with flaw {flaw}")
        if not r.violated:
            raise AssertionError(f"the flawed protocol {flaw} keeps {inv}")

    kinds = [Kind("cmu"), Kind("libri")]
    traces = []
    n = itertools.count()

    def fresh(kind, arch, data):
        root = sandbox.scratch_dir(ctx, f"d{next(n)}")
        kind.setup(root, arch, data)
        return root

    def one(kind, arch, data, script, dl=True):
        root = fresh(kind, arch, data)
        t = Trace(kind, root, arch, data, script)
        c = sandbox.Child(kind.make(root, dl), script=script, root=root, gated=True).start()
        while c.alive:
            t.fetches(1, c)
            t.look()
            c.step()
        t.end(1, c, dl)
        traces.append(t)
        tidy(kind, root, t)
        sandbox.wipe(root)
        return c

    def tidy(kind, root, t):
        """A run that was neither killed nor refused by the disk leaves no file of its own."""
        ctx.comparisons += 1
        left = {x for x, d in sandbox.tree(root).items() if isinstance(d, bytes)} - {kind.arch, *kind.want}
        if left:
            ctx.fail(f"{kind.name}: a run that ended {t.meta['ends'][-1]} left {sorted(left)[:3]} behind", t.meta)

    # --- single runs: every finished behaviour of the model -------------------
    for kind in kinds:
        for rec in recs:
            reps = ctx.pick(1, 3)
            for _ in range(reps):
                arch = rec["arch"] if rec["arch"] != "bad" else rng.choice(list(kind.bad))
                s = expand(rng, kind, rec["script"])
                c = one(kind, arch, rec["data"], s or [dict(kind="refuse", label="T")])
                ctx.comparisons += 1
                if rec["must"] != "any" and c.result[0] != rec["must"]:
                    ctx.fail(f"{kind.name}: a run from archive {arch}, data {rec['data']}, deliveries "
                             f"{[d.get('how', 'good') for d in s]} ended {c.result[:3]}, must be {rec['must']}",
                             dict(rec=rec, result=c.result))
            if ctx.enough():
                return
        # every kind of damage and of transfer failure, once each, alone
        for how in kind.bad:
            for arch, s in ((how, []), ("none", [dict(kind="ok", label="C", body=kind.bad[how],
                                                      length=len(kind.bad[how]), how=how)])):
                c = one(kind, arch, "none", s + expand(rng, kind, "G"))
                ctx.comparisons += 1
                if c.result[0] != "ok":
                    ctx.fail(f"{kind.name}: a single corrupt archive ({how}) was not survived: {c.result[:3]}",
                             dict(start=arch, how=how))
        # damage at any place of an archive of many compressed blocks
        large = Kind(kind.name, 120000, **(dict(compresslevel=1) if kind.mode == "bz2" else {}))
        for _ in range(ctx.pick(14, 120)):
            at = rng.choice([rng.randrange(len(large.good)), len(large.good) - rng.randrange(1, 40)])
            how = rng.choice(["cut", "cut", "flip", "zero"])
            body = large.good[:at]
            if how != "cut":
                w = min(40, len(large.good) - at)
                body += bytes(x ^ 0x5a for x in large.good[at:at + w]) if how == "flip" else bytes(w)
                body += large.good[at + w:]
            if body == large.good:
                continue
            large.bad["far"] = body
            arch = rng.choice(["far", "none"])
            s = [dict(kind="ok", label="C", body=body, length=len(body), how=how)] if arch == "none" else []
            G = dict(kind="ok", label="G", body=large.good, length=len(large.good))
            root = fresh(large, arch, "none")
            t = Trace(large, root, arch, "none", s + [G])
            t.meta["damage"] = (how, at, len(large.good))
            t.whole.add(body)
            c = sandbox.run(large.make(root), script=s + [G], root=root)
            t.end(1, c)
            traces.append(t)
            tidy(large, root, t)
            sandbox.wipe(root)
            ctx.comparisons += 1
            ctx.count("damaged_archives")
            if c.result[0] != "ok":
                ctx.fail(f"{kind.name}: an archive damaged at {at} of {len(large.good)} ({how}) was not survived: {c.result[:3]}",
                         t.meta)
                break
        for how in ("refuse", "timeout", "http", "reset", "stall", "short", "short0", "notHttp", "chunked"):
            d = deliveries(rng, kind, "T", how)
            c = one(kind, "none", "none", [d] + expand(rng, kind, "G"))
            ctx.comparisons += 1
            if c.result[0] != "ok":
                ctx.fail(f"{kind.name}: a single failed transfer ({d['how']}) was not survived: {c.result[:3]}", dict(how=d["how"]))
        # without downloading nothing is fetched or written
        for arch in ("none", "good", "cut"):
            for data in ("none", "full"):
                root = fresh(kind, arch, data)
                before = sandbox.tree(root)
                t = Trace(kind, root, arch, data, [])
                c = sandbox.run(kind.make(root, False), script=[dict(kind="ok", label="G", body=kind.good,
                                                                     length=len(kind.good))], root=root)
                t.end(1, c, False)
                traces.append(t)
                ctx.comparisons += 1
                if sandbox.tree(root) != before:
                    ctx.fail(f"{kind.name}: a run without downloading changed the disk", t.meta)
                if (c.result[0] == "ok") != (data == "full"):
                    ctx.fail(f"{kind.name}: without downloading, data {data}: {c.result[:3]}", t.meta)
                if c.result[0] == "err" and c.result[1] != "FileNotFoundError":
                    ctx.fail(f"{kind.name}: absent data raised {c.result[1]}", t.meta)
                sandbox.wipe(root)
    for kind in kinds:
        root = sandbox.scratch_dir(ctx, f"d{next(n)}")
        missing = root / "not" / "there"
        c = sandbox.run(kind.make(missing, False), root=root)
        if c.result[0] != "err" or sandbox.tree(root):
            ctx.fail(f"{kind.name}: absent root: {c.result[:3]}, left {list(sandbox.tree(root))}")

    # --- kills before every effect ---------------------------------------------
    for kind in kinds:
        G = dict(kind="ok", label="G", body=kind.good, length=len(kind.good))
        C = dict(kind="ok", label="C", body=kind.bad["cut"], length=len(kind.bad["cut"]), how="cut")
        S = dict(kind="ok", label="T", body=kind.good[: 5000], length=len(kind.good), how="short@5000")
        plans = [("none", [G]), ("good", []), ("cut", [G]), ("none", [S, G]), ("none", [C, G])]
        if not ctx.thorough:
            plans = plans[:3] + [plans[3 + (kind.name == "cmu")]]
        for arch, script in plans:
            root = fresh(kind, arch, "none")
            total = sandbox.run(kind.make(root), script=script, root=root).count
            sandbox.wipe(root)
            points = list(range(1, total + 1))
            lim = ctx.pick(30, 400)
            if len(points) > lim:
                points = sorted(rng.sample(points, lim))
            ctx.count("kill_points", len(points))
            for k in points:
                root = fresh(kind, arch, "none")
                t = Trace(kind, root, arch, "none", script)
                t.meta["killed_before_effect"] = k
                c = sandbox.run(kind.make(root), script=script, root=root, kill_at=k)
                t.end(1, c)
                if rng.random() < .3:
                    # used as it is, without downloading: complete or refused
                    c = sandbox.run(kind.make(root, False), root=root)
                    t.end(1, c, False)
                if rng.random() < .3 and arch == "none":
                    k2 = rng.randrange(1, total + 1)
                    c = sandbox.run(kind.make(root), script=[G], root=root, kill_at=k2)
                    t.end(1, c)
                c = sandbox.run(kind.make(root), script=[G], root=root)
                t.end(1, c)
                traces.append(t)
                sandbox.wipe(root)

    # --- a disk that refuses ------------------------------------------------------
    def hurt(kind, arch, script, again, **fault):
        root = fresh(kind, arch, "none")
        t = Trace(kind, root, arch, "none", script)
        t.meta["disk"] = fault
        c = sandbox.Child(kind.make(root), script=script, root=root, gated=True, **fault).start()
        while c.alive:
            t.fetches(1, c)
            t.look()
            c.step()
        if c.refused or fault.get("fsize") is not None:
            t.rec["ev"].append(dict(k="disk", run=1))
            ctx.count("refused_effects", max(1, c.refused))
        t.end(1, c)
        if again:
            c = sandbox.run(kind.make(root, False), root=root)
            t.end(1, c, False)
        t.end(1, sandbox.run(kind.make(root), script=[dict(kind="ok", label="G", body=kind.good, length=len(kind.good))],
                             root=root))
        traces.append(t)
        sandbox.wipe(root)

    for kind in kinds:
        G = dict(kind="ok", label="G", body=kind.good, length=len(kind.good))
        for arch, script in (("none", [G, G, G]), ("good", [G, G])) + ((("cut", [G, G, G]),) if ctx.thorough else ()):
            root = fresh(kind, arch, "none")
            total = sandbox.run(kind.make(root), script=script, root=root).count
            sandbox.wipe(root)
            pts = list(range(1, total + 1))
            lim = ctx.pick(22, 300)
            for k in pts if len(pts) <= lim else sorted(rng.sample(pts, lim)):
                hurt(kind, arch, script, rng.random() < .3, fail_at=k, fail_for=rng.choice([1, 1, 2, 3, 10 ** 6]))
        big = max(map(len, kind.want.values()))
        for _ in range(ctx.pick(8, 60)):
            hurt(kind, rng.choice(["none", "good"]), [G, G, G], rng.random() < .5,
                 fsize=rng.choice([0, 1, 4096, len(kind.good) - 1, rng.randrange(1, big), big - 1]))

    # --- two runs interleaved ------------------------------------------------------
    def duel(kind, arch, script_a, script_b, plan):
        root = fresh(kind, arch, "none")
        t = Trace(kind, root, arch, "none", script_a + script_b)
        ch = [sandbox.Child(kind.make(root), script=s, root=root, gated=True).start() for s in (script_a, script_b)]
        done = [False, False]
        cur = 0
        for turn in itertools.count():
            if all(done):
                break
            cur, steps = plan(turn)
            if done[cur]:
                cur = 1 - cur
            for _ in range(steps):
                c = ch[cur]
                if not c.alive:
                    break
                c.step()
                t.fetches(cur + 1, c)
                t.look()
            if not ch[cur].alive and not done[cur]:
                done[cur] = True
                t.end(cur + 1, ch[cur])
        t.meta["interleaving"] = getattr(plan, "desc", "")
        traces.append(t)
        sandbox.wipe(root)

    def switch(points):
        def plan(turn):
            return turn % 2, points[turn] if turn < len(points) else 10 ** 6
        plan.desc = points
        return plan

    for kind in kinds:
        G = dict(kind="ok", label="G", body=kind.good, length=len(kind.good))
        root = fresh(kind, "none", "none")
        total = sandbox.run(kind.make(root), script=[G], root=root).count
        sandbox.wipe(root)
        root = fresh(kind, "good", "none")
        ext = sandbox.run(kind.make(root), script=[G], root=root).count
        sandbox.wipe(root)
        for _ in range(ctx.pick(60, 700)):
            arch = rng.choice(["none", "none", "none", "good", "cut"])
            tot = ext if arch == "good" else total
            fa = expand(rng, kind, rng.choice(["G", "G", "G", "TG", "CG"])) if arch != "cut" else [G]
            fb = [G]
            if rng.random() < .5:
                fa, fb = fb, fa
            pts = [rng.randrange(1, tot + 2) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            duel(kind, arch, fa, fb, switch(pts))
            ctx.count("interleavings")

    # --- two threads of one process ----------------------------------------------
    def pair(kind, arch, script, schedule):
        root = fresh(kind, arch, "none")
        t = Trace(kind, root, arch, "none", script)
        makers = [kind.make(root), kind.make(root)]

        def fn():
            out, gate = threads.together(f"{REPO}/src/torchrir", makers, schedule)
            return out, gate.ticks, gate.switches
        c = sandbox.run(fn, script=script, root=root)
        if c.result[0] != "ok":
            ctx.fail(f"{kind.name}: a process with two downloading threads: {c.result[:3]}", t.meta)
            sandbox.wipe(root)
            return 1
        outs, ticks, switches = c.result[1]
        for k, f in enumerate(c.fetches):
            t.rec["ev"].append(dict(k="fetch", run=1 + k % 2, got=f[1] if f[1] in "TCG" else "T"))
        t.look()
        st = kind.data_state(root)
        ids = {x.rsplit("/", 1)[1].split(".")[0] for x in kind.indata if x.endswith((".wav", ".flac"))}
        for r, o in enumerate(outs):
            seen = "part" if o[0] == "ok" and st == "full" and set(o[1]) != ids else st
            t.rec["ev"].append(dict(k="end", run=r + 1, out="ok" if o[0] == "ok" else "err", data=seen, dl=True))
        t.meta.update(threads=schedule, ends=[o[:2] if o[0] != "ok" else "ok" for o in outs])
        traces.append(t)
        ctx.count("thread_switches", switches)
        sandbox.wipe(root)
        return ticks[0]

    for kind in kinds:
        G = dict(kind="ok", label="G", body=kind.good, length=len(kind.good))
        total = {a: pair(kind, a, [G, G], []) for a in ("none", "good")}
        for _ in range(ctx.pick(40, 400)):
            arch = rng.choice(["none", "none", "good"])
            at = [rng.randrange(1, total[arch] + 2) for _ in range(rng.choice([1, 1, 2, 3]))]
            first = rng.randrange(2)
            pair(kind, arch, [G, G], [[(first + k) % 2, x] for k, x in enumerate(at)])
            ctx.count("thread_interleavings")

    # --- the specification judges the traces ----------------------------------------
    cases = [dict(t.rec, id=i) for i, t in enumerate(traces)]
    out = ctx.tlc("DownloadEval", cases=cases, label="DownloadEval").records
    if len(out) != len(cases):
        raise AssertionError("verdicts missing")
    for v in out:
        t = traces[v["id"]]
        ctx.trace()
        if v["bad"]:
            ctx.fail(f"{t.kind.name}: {v['bad']}; {t.meta}", dict(meta=t.meta, trace=t.rec))
            if ctx.enough():
                break
    # a second subset beside the first one keeps both
    two = kinds[1]
    other = corpora.libri_tree(9, subset="test-other")
    root = fresh(two, "good", "none")

    def both():
        import torchrir.datasets as d

        d.LibriSpeechDataset(root, subset="dev-clean", download=True)
        d.LibriSpeechDataset(root, subset="test-other", download=True)
        return len(d.LibriSpeechDataset(root, subset="dev-clean")), len(d.LibriSpeechDataset(root, subset="test-other"))
    og = corpora.pack(other, "gz")
    c = sandbox.run(both, root=root, script=[dict(kind="ok", label="G", body=og, length=len(og))])
    have = sandbox.tree(root)
    ctx.comparisons += 1
    if c.result != ("ok", (6, 6)) or any(have.get(k) != v for k, v in {**two.indata, **other}.items()):
        ctx.fail(f"a second subset beside the first: {c.result[:3]}")
    ctx.sample(dict(model_behaviour=recs[0]))
    ctx.sample(dict(trace=traces[-1].rec["ev"][:12], meta=traces[-1].meta))
    ctx.assumptions += [
        "effects between two observed stops (opens, renames, removals, directory changes, network reads) are atomic",
        "a transfer whose length was not announced cannot be known to be partial",
        "a dataset directory that was already partial before the first run is not judged"]

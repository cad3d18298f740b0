"""C11: archive extraction never writes outside its destination.

Archive.tla decides for sequences of members and links already on disk whether
the archive is refused as a whole or what is on disk afterwards.  The archives
are built and given to the dataset constructors in an unprivileged child whose
only writable place is a scratch directory.
"""

from __future__ import annotations

import io
import os
import tarfile

from tv import corpora, sandbox

LONG = "n" * 130


def build(members, mode, fmt):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:" + mode, format=fmt) as t:
        for m in members:
            ti = tarfile.TarInfo(m["name"])
            ti.mtime = 1_000_000
            if m["kind"] == "file":
                ti.size = len(m["data"])
                ti.mode = 0o644
                t.addfile(ti, io.BytesIO(m["data"]))
                continue
            ti.type = {"dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "hard": tarfile.LNKTYPE}[m["kind"]]
            ti.mode = 0o755
            ti.linkname = m.get("to", "")
            t.addfile(ti)
    return b.getvalue()


class World:
    """W/p/<dest> is the destination; W/out, W/p/<dest>x and W/p/side are outside."""

    def __init__(self, ctx, n, kind):
        self.kind = kind
        self.w = sandbox.scratch_dir(ctx, f"w{n}")
        self.destname = "ARCTIC" if kind == "cmu" else "lib"
        self.how = None         # plain: how the destination is written
        self.dest = self.w / "p" / self.destname
        self.dest.mkdir(parents=True)
        for d in ("out", "out/sub", f"p/{self.destname}x", "p/side"):
            (self.w / d).mkdir()
        (self.w / "out" / "keep").write_bytes(b"keep")
        (self.w / "p" / "side" / "keep").write_bytes(b"keep")
        self.top = "cmu_us_bdl_arctic" if kind == "cmu" else "LibriSpeech/dev-clean"
        self.archive = self.dest / ("cmu_us_bdl_arctic.tar.bz2" if kind == "cmu" else "dev-clean.tar.gz")
        self.mode = "bz2" if kind == "cmu" else "gz"

    def fn(self):
        import torchrir.datasets as d

        if self.kind == "plain":
            from pathlib import Path
            from torchrir.datasets._archive import safe_extractall

            dest = {"absolute": self.dest, "relative": Path("p") / self.destname,
                    "round": self.w / "p" / "side" / ".." / self.destname}[self.how]
            with tarfile.open(self.archive) as t:
                safe_extractall(t, dest)
        elif self.kind == "cmu":
            d.CmuArcticDataset(self.w / "p", speaker="bdl", download=True)
        else:
            d.LibriSpeechDataset(self.dest, subset="dev-clean", download=True)


def plain_entry():
    try:
        from torchrir.datasets._archive import safe_extractall
    except ImportError:
        return False
    return callable(safe_extractall)


def member_name(world, comps, absolute):
    n = "/".join(LONG if c == "LONG" else c for c in comps)
    return f"{world.w}/{n}" if absolute else n


def run(ctx):
    rng = ctx.rng
    mc = dict(MaxMembers=1, MaxComps=3, Names='{"a", "b", "..", ".", "O", "I", "out", "p", "dest", "destx"}',
              Kinds='{"file", "dir", "sym", "hard"}', EmitLen=1)
    invs = ["PlainIsSafe", "LinksRefused", "Contained", "OrderFree", "Sticky", "NoLinksTextual"]
    single = ctx.tlc("MCArchive", constants=mc, invariants=invs + ["Emit"], label="MCArchive single members").records
    ctx.tlc("MCArchive", constants=dict(mc, MaxMembers=2, MaxComps=2, Names='{"a", "..", "O", "I", "p", "dest"}',
                                        EmitLen=99), invariants=invs, workers=8, label="MCArchive pairs", timeout=700)

    # cases: members (model names), links on disk
    cases = []
    links_all = [("O", ["out"]), ("I", ["p", "dest", "a"]), ("cmu_us_bdl_arctic/wav", ["out", "sub"]),
                 ("f", ["out", "new"]), ("g", ["p", "dest", "a", "real"]), ("dang", ["out", "nowhere"])]
    names = ["a", "b", "..", ".", "", "O", "I", "out", "p", "dest", "destx", "f", "g", "dang", "LONG", "side",
             "cmu_us_bdl_arctic", "wav", "a b", "ünï", "-x", "..a", "~", "LibriSpeech", "dev-clean"]
    rng.shuffle(single)
    for r in single[: ctx.pick(350, 2600)]:
        cases.append(dict(ms=r["ms"], links=["O", "I"]))
    # refusals and acceptances of plain members in equal parts, over several members
    for _ in range(ctx.pick(500, 5000)):
        k = rng.randrange(1, 6)
        ms = []
        evil = rng.random() < .5
        ni = rng.randrange(k)
        for i in range(k):
            bad = evil and i == ni
            pool = names if bad or rng.random() < .06 else ["a", "b", "I", "g", "LONG", "a b", "ünï", "..a", "c", "d", "e"]
            comps = [rng.choice(pool) for _ in range(rng.randrange(1, 4))]
            kind = rng.choice(["file", "file", "file", "dir"])
            if bad and rng.random() < .35:
                kind = rng.choice(["sym", "hard"])
            elif bad and rng.random() < .5:
                comps = rng.choice([["..", "destx", "f"], ["O", "x"], ["a", "..", "..", "side", "x"], ["f"], ["dang"],
                                    ["I", "..", "..", "side", "y"], ["..", "..", "out", "z"], ["O"],
                                    ["dang", "x"], ["a", "..", "O", "q"]])
            ms.append(dict(abs=bad and rng.random() < .2, comps=comps, kind=kind, body=i + 1))
        links = [n for n, _ in links_all if rng.random() < .35]
        cases.append(dict(ms=ms, links=links))

    kinds = ["cmu", "libri"]
    if plain_entry():
        kinds.append("plain")
    built = []
    for i, c in enumerate(cases):
        kind = rng.choice(kinds)
        dest = ["p", "dest"]
        L = []
        for n, to in links_all:
            if n in c["links"] and "/" not in n:
                L.append(dict(at=dest + [n], to=to))
        # the dataset itself, before, between or after the members
        top = ["cmu_us_bdl_arctic"] if kind == "cmu" else ["LibriSpeech", "dev-clean"]
        extra = [dict(abs=False, comps=top, kind="dir", body=90),
                 dict(abs=False, comps=top + (["etc", "txt.done.data"] if kind == "cmu" else ["READ"]), kind="file", body=91)]
        ms = [dict(m) for m in c["ms"]]
        if i % 12 == 0:         # far from the beginning of the archive
            fill = [dict(abs=False, comps=["zz", f"m{k}"], kind="file", body=100 + k) for k in range(rng.randrange(20, 120))]
            cut = rng.choice([0, 0, rng.randrange(len(ms) + 1)])
            ms = ms[:cut] + fill + ms[cut:]
        if ms and rng.random() < .2:            # a name that comes twice, the second time as another kind
            j = rng.randrange(len(ms))
            ms.insert(rng.randrange(j + 1, len(ms) + 1), dict(ms[j], kind=rng.choice(["sym", "hard", "file"]), body=95))
        pos = rng.randrange(len(ms) + 1)
        ms = ms[:pos] + extra + ms[pos:]
        for m in ms:
            if not m["comps"][0]:
                m["comps"] = ["a"] + m["comps"]     # a leading separator would name the real root
        disk = []
        if any(l["at"][-1] in ("I", "g") for l in L):
            disk = [dict(abs=False, comps=["a"], kind="dir", body=0), dict(abs=False, comps=["a", "real"], kind="file", body=0)]
        built.append(dict(id=i, dest=dest, links=L, disk=disk, ms=ms, kind=kind))
    out = ctx.tlc("ArchiveEval", cases=[{k: b[k] for k in ("id", "dest", "links", "disk", "ms")} for b in built],
                  label="ArchiveEval").records
    if len(out) != len(built):
        raise AssertionError("verdicts missing")

    for b, v in zip(built, out):
        w = World(ctx, b["id"], b["kind"])
        w.how = rng.choice(["absolute", "absolute", "relative", "round"])

        def real(comps):
            return [w.destname if x == "dest" else w.destname + "x" if x == "destx" else LONG if x == "LONG" else x
                    for x in comps]
        for l in b["links"]:
            os.symlink(w.w.joinpath(*real(l["to"])), w.w.joinpath(*real(l["at"])))
        if b["disk"]:
            (w.dest / "a").mkdir()
            (w.dest / "a" / "real").write_bytes(b"old")
        members, bodies = [], {}
        for m in b["ms"]:
            n = member_name(w, real(m["comps"]), m["abs"])
            data = f"body {m['body']} ".encode() * rng.choice([0, 1, 40, 3000])
            if m["body"] == 91 and b["kind"] == "cmu":
                data = b'( x "y" )\n'
            bodies[m["body"]] = data
            to = rng.choice(["/etc/passwd", "../../out/keep", "a", b["ms"][0]["comps"][-1], "", "keep",
                             str(w.w / "out")]) or "a"
            members.append(dict(name=n, kind=m["kind"], data=data, to=to))
        fmt = rng.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT])
        w.archive.write_bytes(build(members, w.mode, fmt))
        sandbox.give(w.w)
        before = sandbox.tree(w.w)
        ch = sandbox.run(w.fn, root=w.w, script=[dict(kind="refuse")])
        after = sandbox.tree(w.w)
        case = dict(kind=b["kind"], members=[(m["name"], m["kind"], m["to"] if m["kind"] in ("sym", "hard") else "")
                                             for m in members], links=b["links"], verdict=v["verdict"],
                    result=ch.result[:3])
        ctx.trace()
        ctx.count("verdict_" + v["verdict"])
        pre = f"p/{w.destname}/"
        outside = {k: x for k, x in after.items() if not k.startswith(pre)}
        outside0 = {k: x for k, x in before.items() if not k.startswith(pre)}
        ctx.comparisons += 1
        if outside != outside0:
            diff = [k for k in set(outside) | set(outside0) if outside.get(k) != outside0.get(k)]
            ctx.fail(f"{b['kind']}: extraction wrote outside the destination: {diff[:4]}", case)
        elif v["verdict"] == "refuse":
            if ch.result[0] != "err":
                ctx.fail(f"{b['kind']}: an archive with a link or an outside member was accepted", case)
            elif after != before:
                ctx.fail(f"{b['kind']}: a refused archive changed the destination: "
                         f"{sorted(set(after) ^ set(before))[:4]}", case)
        elif v["verdict"] == "extract":
            bad = None
            if ch.result[0] != "ok":
                bad = f"a safe archive was not extracted: {ch.result[1:3]}"
            want = {}
            for f in v["files"]:
                want[tuple(real(f["at"]))] = bodies[f["body"]]
            for at, data in want.items():
                p = w.dest.joinpath(*at)
                if bad is None and (not p.is_file() or p.read_bytes() != data):
                    bad = f"{'/'.join(at)[-60:]} is missing or altered"
            for at in v["dirs"]:
                if bad is None and not w.dest.joinpath(*real(at)).is_dir():
                    bad = f"directory {'/'.join(at)} is missing"
            # nothing else appeared, nothing that was there went
            real_at = {os.path.realpath(w.dest.joinpath(*at)) for at in want} | {str(w.dest.joinpath(*at)) for at in want}
            for k, x in after.items():
                p = str(w.w / k)
                if bad is None and isinstance(x, bytes) and k not in before and p not in real_at \
                        and os.path.realpath(p) not in real_at:
                    bad = f"{k} appeared"
            for k, x in before.items():
                if bad is None and isinstance(x, bytes) and after.get(k) != x and str(w.w / k) not in real_at:
                    bad = f"{k} changed or went"
            if bad:
                ctx.fail(f"{b['kind']}: {bad}", case)
        sandbox.wipe(w.w)
        if ctx.enough():
            break
    # real corpora come out unchanged
    for kind, tree, mode in (("cmu", corpora.cmu_tree(4), "bz2"), ("libri", corpora.libri_tree(4), "gz")):
        w = World(ctx, 10 ** 6, kind)
        w.archive.write_bytes(corpora.pack(tree, mode))
        sandbox.give(w.w)
        ch = sandbox.run(w.fn, root=w.w, script=[dict(kind="refuse")])
        got = {k: x for k, x in sandbox.tree(w.dest).items() if isinstance(x, bytes) and k != w.archive.name}
        ctx.comparisons += 1
        if ch.result[0] != "ok" or got != tree:
            ctx.fail(f"{kind}: a corpus archive was not extracted unchanged: {ch.result[:3]}")
        sandbox.wipe(w.w)
    ctx.sample(dict(case=built[-1]["ms"], links=built[-1]["links"], verdict=out[-1]["verdict"]))
    ctx.assumptions += [
        "names that leave the destination and come back, absolute names inside it, dotted names and conflicting members "
        "must stay contained but may be refused or extracted",
        "devices and FIFOs in archives are not judged"]

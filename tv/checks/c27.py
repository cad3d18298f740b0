"""C27: what pictures and animations show (Picture.tla): figures recorded when they are saved, judged by TLC."""

from __future__ import annotations

import logging
from pathlib import Path

import numpy as np

from tv.core import call

GRID = 8                      # grid points per metre: exact in single precision


def grid(p):
    """Integer grid point of drawn coordinates, or one that matches nothing."""
    v = np.asarray(p, dtype=np.float64) * GRID
    r = np.round(v)
    return [int(x) for x in r] if np.all(np.isfinite(v)) and np.abs(v - r).max(initial=0) < 1e-3 else [-999] * len(v)


def arr(x):
    return np.asarray(x, dtype=np.float64)


def points(coll):
    off = getattr(coll, "_offsets3d", None)
    if off is not None:
        return [list(q) for q in zip(*(np.ma.getdata(arr(o)) for o in off))]
    return [list(q) for q in np.ma.getdata(coll.get_offsets())]


def poly(line):
    d = line.get_data_3d() if hasattr(line, "get_data_3d") else line.get_data()
    return [list(q) for q in zip(*(arr(x) for x in d))]


def spot(t):
    return [t.get_position_3d() if hasattr(t, "get_position_3d") else t.get_position()][0]


def looks(fig):
    """What a figure shows, in grid points."""
    ax = fig.axes[0]
    dim = 3 if hasattr(ax, "get_zlim") else 2
    lim = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if dim == 3 else [])
    legend = ax.get_legend()
    kinds = {}
    if legend is not None:
        for t, h in zip(legend.get_texts(), getattr(legend, "legend_handles", None) or getattr(legend, "legendHandles", [])):
            kinds.setdefault(t.get_text(), []).append(shape(h))
    out = dict(dim=dim, axes=len(fig.axes), limits=[grid([b - a])[0] if a == 0 else -999 for a, b in lim], kinds=kinds, marks=[], walks=[], labels=[],
               notes=[], title=ax.get_title(), boxes=[])
    for c in ax.collections:
        p = points(c)
        if p:
            out["marks"].append((c.get_label(), shape(c), [grid(q) for q in p]))
    for ln in ax.lines:
        p = poly(ln)
        if p:
            out["walks"].append([grid(q) for q in p])
    for t in ax.texts:
        if t.get_transform() == ax.transAxes:
            out["notes"].append(t.get_text())
        else:
            out["labels"].append([t.get_text(), grid(spot(t)[:dim])])
    for p in ax.patches:
        if hasattr(p, "get_bbox"):
            b = p.get_bbox()
            out["boxes"].append([grid([b.x0, b.y0]), grid([b.x1, b.y1])])
    return out


def shape(h):
    """A key for the look of a marker: the number of corners of its outline."""
    if hasattr(h, "get_paths") and h.get_paths():
        return len(h.get_paths()[0].vertices)
    if hasattr(h, "get_marker"):
        from matplotlib.markers import MarkerStyle

        m = MarkerStyle(h.get_marker())
        return len(m.get_path().vertices)
    return 0


class Tape:
    """Replaces saving by recording, in the plotting library's own entry points."""

    def __enter__(self):
        import matplotlib.animation as ma
        import matplotlib.figure as mf

        tape = self
        self.pics, self.reels, self.canvas = {}, {}, {}

        class Recorder(ma.AbstractMovieWriter):
            supported_formats = ["rgba"]

            def __init__(self, fps=5, *a, **k):
                super().__init__(fps=fps)

            @classmethod
            def isAvailable(cls):
                return True

            def setup(self, fig, outfile, dpi=None):
                super().setup(fig, outfile, dpi=dpi)
                self.seen = []
                self.canvas = [int(round(x * (dpi or fig.dpi))) for x in fig.get_size_inches()]

            def grab_frame(self, **k):
                self.seen.append(looks(self.fig))

            def finish(self):
                Path(self.outfile).write_bytes(b"recorded")
                tape.reels[Path(self.outfile).name] = (self.fps, self.seen)
                tape.canvas[Path(self.outfile).name] = self.canvas

        def savefig(self, fname, *a, **k):
            Path(fname).write_bytes(b"recorded")
            tape.pics[Path(fname).name] = looks(self)
        self.old = (mf.Figure.savefig, ma.FFMpegWriter, ma.PillowWriter, dict(ma.writers._registered))
        mf.Figure.savefig = savefig
        ma.FFMpegWriter = ma.PillowWriter = Recorder
        for k in list(ma.writers._registered):
            ma.writers._registered[k] = Recorder
        return self

    def __exit__(self, *_):
        import matplotlib.animation as ma
        import matplotlib.figure as mf
        import matplotlib.pyplot as plt

        mf.Figure.savefig, ma.FFMpegWriter, ma.PillowWriter = self.old[:3]
        ma.writers._registered.update(self.old[3])
        plt.close("all")


def scene(rng, i):
    dim = rng.choice([2, 3, 3])
    room = rng.sample(range(24, 60), dim)
    ns, nm = rng.choice([1, 1, 2, 3, 5, 11]), rng.choice([1, 2, 4, 7])

    def spots(n, taken=()):
        out = []
        while len(out) < n:
            p = [rng.randint(1, room[a] - 1) for a in range(dim)]
            if all(p[:2] != q[:2] for q in out + list(taken)):
                out.append(p)
        return out
    src = spots(ns)
    mic = spots(nm, src)
    T = rng.choice([1, 2, 3, 5, 8, 13])
    who = rng.choice(["none", "src", "mic", "both", "both"])

    def walk(pos, begin):
        how = rng.choice(["all", "all", "one", "still", "height"])
        k = rng.randrange(len(pos))
        loop = rng.random() < .3
        out = []
        for t in range(T):
            row = []
            for j, p in enumerate(pos):
                q = list(p)
                if t > 0 or not begin:
                    if how == "all" or (how == "one" and j == k):
                        q = [rng.randint(1, room[a] - 1) for a in range(dim)]
                    elif how == "height" and j == k:
                        q[-1] = rng.randint(1, room[-1] - 1)
                    if loop and t == T - 1:
                        q = list(p)
                row.append(q)
            out.append(row)
        return out
    begin = rng.random() < .7
    sc = dict(room=room, src=src, mic=mic, st=walk(src, begin) if who in ("src", "both") else [], mt=walk(mic, begin) if who in ("mic", "both") else [],
              step=rng.choice([1, 1, 2, 3, 4, 20]), start=True, label=rng.random() < .75, len=rng.choice([-1, 0, 400, 5001, 7777, 13001, 48000]), fs=rng.choice([8000, 16000]),
              fps=rng.choice([0, 0, 0, -10, 10, 50, 57, 3, 249]))
    return dict(id=i, sc=sc, dim=dim, form=rng.randrange(4), notes=rng.choice([None, [], ["RT60 = 0.3 s"], [" a ", "", "b"]]), title=rng.choice([None, "A title"]),
                who=who, late=rng.random() < .15)


def values(c):
    """The scene in the types a user may pass."""
    import torch

    sc = c["sc"]
    f = {0: lambda x: torch.tensor(x, dtype=torch.float32) / GRID, 1: lambda x: (torch.tensor(x, dtype=torch.float64) / GRID).tolist(),
         2: lambda x: torch.tensor(x, dtype=torch.float64) / GRID, 3: lambda x: torch.tensor(x, dtype=torch.float32) / GRID}[c["form"]]
    kw = dict(room=f(sc["room"]), sources=f(sc["src"]), mics=f(sc["mic"]))
    if c["form"] == 3:
        from torchrir import MicrophoneArray, Source

        kw["sources"], kw["mics"] = Source.from_positions(kw["sources"]), MicrophoneArray.from_positions(kw["mics"])
    return kw, (f(sc["st"]) if sc["st"] else None), (f(sc["mt"]) if sc["mt"] else None)


def seen_picture(ctx, what, look, sc, brief, title=None, notes=None, moving=False):
    """The drawn things by kind; problems that need no specification are reported here."""
    if look["axes"] != 1 or set(look["kinds"]) != {"sources", "mics"} or any(len(v) != 1 for v in look["kinds"].values()):
        ctx.fail(f"{what}: the legend has {look['kinds']}", brief)
        return None
    ks, km = look["kinds"]["sources"][0], look["kinds"]["mics"][0]
    edges = []
    if look["dim"] == 2:
        if look["boxes"] != [[[0, 0], sc["room"][:2]]]:
            ctx.fail(f"{what}: the room is drawn as {look['boxes']}", brief)
            return None
        walks = look["walks"]
    else:
        L = sc["room"]
        want = sorted(sorted([[L[a] * (m >> a & 1) for a in range(3)], [L[a] * ((m | 1 << b) >> a & 1) for a in range(3)]])
                      for b in range(3) for m in range(8) if not m >> b & 1)
        edges = sorted(sorted(w) for w in look["walks"] if len(w) == 2 and sorted(w) in want)
        if edges != want:
            ctx.fail(f"{what}: {len(edges)} of the room's 12 edges are drawn", brief)
            return None
        walks = [w for w in look["walks"] if not (len(w) == 2 and sorted(w) in want)]
    if title is not None and look["title"] != title:
        ctx.fail(f"{what}: the title is {look['title']!r}", brief)
    lines = [x.strip() for x in notes or [] if x.strip()]
    if "\n".join(look["notes"]) != "\n".join(lines):
        ctx.fail(f"{what}: the annotation is {look['notes']}, asked for were {lines}", brief)
    marks = {ks: [], km: []}
    for _, s, ps in look["marks"]:
        marks.setdefault(s, []).extend(ps)
    if ks == km or set(marks) != {ks, km}:
        ctx.fail(f"{what}: sources and microphones cannot be told apart by the legend", brief)
        return None
    return dict(limits=look["limits"], src=marks[ks], mic=marks[km], walks=walks, labels=look["labels"])


def seen_frame(look):
    by = {}
    for lab, _, ps in look["marks"]:
        by.setdefault(lab, []).extend(ps)
    labels = look["labels"]
    ok = [t for t, _ in labels] == [f"S{k}" for k in range(len(labels))]
    t = look["title"]
    cs = -1
    if t:
        try:
            cs = int(round(float(t.split("=")[1].strip().split()[0]) * 100))
        except (IndexError, ValueError):
            cs = -2
    return dict(limits=look["limits"], src=by.get("sources", []), mic=by.get("mics", []), trails=look["walks"],
                labels=[p for _, p in labels] if ok else [[-1]], time=cs)


def model(ctx):
    inv = ["Begins", "Reaches", "Within", "TrailEnds", "Still"]
    c = dict(MaxT=ctx.pick(5, 7), MaxStep=ctx.pick(3, 5))
    ctx.tlc("MCPicture", constants=dict(c, Flaw='""'), invariants=inv, properties=["Forward"], workers=4)
    for f in ("floor", "index", "late"):
        if not ctx.tlc("MCPicture", constants=dict(c, Flaw=f'"{f}"'), invariants=inv, properties=["Forward"], expect_ok=False, workers=4,
                       label=f"MCPicture with flaw {f}").violated:
            raise AssertionError(f"the specification misses the flaw {f}")


def run(ctx):
    import matplotlib.pyplot as plt
    import torchrir.viz  # noqa: F401

    model(ctx)
    rng = ctx.rng
    out = ctx.scratch / "out"
    out.mkdir()
    lg = logging.getLogger("tv.c27")
    lg.addHandler(logging.NullHandler())
    lg.propagate = False
    items = []
    with Tape() as tape:
        for i in range(ctx.pick(170, 2500)):
            c = scene(rng, i)
            one(ctx, c, tape, out, lg, items)
            plt.close("all")
            tape.pics.clear()
            tape.reels.clear()
            if ctx.enough():
                return
    refuse(ctx, plt)
    for k, it in enumerate(items):
        it["id"] = k
    send = [{a: b for a, b in it.items() if a not in ("what", "brief")} for it in items]
    for a in range(0, len(send), 400):
        part = [dict(x, id=x["id"] - a) for x in send[a:a + 400]]
        r = ctx.tlc("PictureTrace", cases=part, workers=4)
        for rec in r.records:
            it = items[rec["id"] + a]
            at = f" in frame {rec['at']}" if rec["at"] else ""
            shown = it["frames"][rec["at"] - 1] if rec["at"] else it.get("seen", {}) or dict(frames=len(it["frames"]), rate=it["rate"])
            ctx.fail(f"{it['what']}: the specification disagrees about {rec['why']}{at}: {str(shown)[:400]}", dict(it["brief"], item=shown))
            if ctx.enough():
                return
    ctx.trace(len(items))
    ctx.comparisons += sum(len(it.get("frames", [0])) for it in items)
    ctx.sample(dict(scene=items[0]["sc"], shown=items[0].get("seen")))
    ctx.assumptions += ["what is drawn is read from the figure when it is saved, not from pixels", "labels at equal projected positions are not told apart"]


def one(ctx, c, tape, out, lg, items):
    from torchrir import viz

    sc, dim = c["sc"], c["dim"]
    kw, st, mt = values(c)
    brief = dict(case={k: v for k, v in c.items()})
    ann = dict(annotate_sources=sc["label"], annotation_lines=c["notes"])
    flat = c["form"] != 1

    def put(what, look, view, moving, sc2=None, **k):
        if look is None:
            ctx.fail(f"{what}: nothing was drawn", brief)
            return
        s = sc2 or sc
        if look["dim"] != view:
            ctx.fail(f"{what}: the view has {look['dim']} dimensions", brief)
            return
        g = seen_picture(ctx, what, look, s, brief, **k)
        if g is not None:
            items.append(dict(kind="picture", sc=s, view=view, moving=moving, seen=g, what=what, brief=brief))
            ctx.count("pictures")

    def act(what, f, **k):
        stat, v = call(f, **k)
        if stat == "err":
            ctx.fail(f"{what} raised {v!r}", brief)
        return v if stat == "ok" else None
    which = c["id"] % 5
    if which == 0:
        r = act("plot_scene_static", viz.plot_scene_static, **kw, title=c["title"], **ann)
        if r is not None:
            put("plot_scene_static", looks(r.figure), dim, False, title=c["title"] or "", notes=c["notes"])
    elif which == 1 and (st is not None or mt is not None):
        import torch

        T = len(sc["st"] or sc["mt"])
        a = st if st is not None else (torch.tensor(sc["src"]) / GRID).unsqueeze(0).repeat(T, 1, 1)
        b = mt if mt is not None else (torch.tensor(sc["mic"]) / GRID).unsqueeze(0).repeat(T, 1, 1)
        s2 = dict(sc, start=bool(c["id"] % 2))
        pos = dict(src_pos=kw["sources"], mic_pos=kw["mics"]) if s2["start"] else {}
        r = act("plot_scene_dynamic", viz.plot_scene_dynamic, room=kw["room"], src_traj=a, mic_traj=b, step=sc["step"], **pos, title=c["title"], **ann)
        if r is not None:
            put("plot_scene_dynamic", looks(r.figure), dim, True, sc2=s2, title=c["title"] or "", notes=c["notes"])
    elif which in (1, 2):
        two, three = c["id"] % 4 != 0, c["id"] % 3 != 0
        tr = dict(src_traj=st, mic_traj=mt)
        if c["id"] % 2:
            r = act("render_scene_plots", viz.render_scene_plots, out_dir=out, **kw, **tr, prefix="p", step=sc["step"], plot_2d=two, plot_3d=three, **ann)
            s2 = sc
        else:
            act("save_scene_plots", viz.save_scene_plots, out_dir=out, **kw, **tr, prefix="p", show=False, logger=lg, plot_2d=two, plot_3d=three, **ann)
            r, s2 = None, dict(sc, step=1)
        for v in [2] * two + [3] * (three and dim == 3):
            put(f"static picture in {v}D", tape.pics.pop(f"p_static_{v}d.png", None), v, False, notes=c["notes"])
            if st is not None or mt is not None:
                put(f"moving picture in {v}D", tape.pics.pop(f"p_dynamic_{v}d.png", None), v, True, sc2=s2, notes=c["notes"])
        if tape.pics:
            ctx.fail(f"more pictures than asked for: {list(tape.pics)}", brief)
        del r
    elif which == 3:
        act("save_scene_layout_images", viz.save_scene_layout_images, out_dir=out, **kw, src_traj=st, mic_traj=mt, logger=lg, **ann)
        mv = st is not None or mt is not None
        for v in [2, 3][:dim - 1]:
            put(f"layout image in {v}D", tape.pics.pop(f"room_layout_{v}d.png", None), v, mv, sc2=dict(sc, step=1), notes=c["notes"])
    if c["who"] == "none" or not flat and c["id"] % 3:
        return
    timing = dict(fps=sc["fps"] / 10 if sc["fps"] else None)
    s2 = dict(sc)
    if sc["len"] >= 0:
        if c["id"] % 2:
            timing.update(signal_len=sc["len"], fs=sc["fs"])
        else:
            timing.update(duration_s=sc["len"] / sc["fs"])
    want3 = bool(c["id"] % 3)
    view = 3 if want3 and dim == 3 else 2
    f = [viz.animate_scene_gif, viz.animate_scene_mp4][c["id"] // 2 % 2]
    name = "a.gif" if f is viz.animate_scene_gif else "a.mp4"
    r = act(f.__name__, f, out_path=out / name, **kw, src_traj=st, mic_traj=mt, step=sc["step"], plot_3d=want3,
            **({} if c["id"] % 2 else dict(plot_2d=not want3)), **timing, **ann)
    if r is None:
        return
    if name not in tape.reels:
        ctx.fail(f"{f.__name__} drew no frames", brief)
        return
    fps, frames = tape.reels[name]
    if name.endswith(".mp4") and tape.canvas[name] != [1280, 720]:
        ctx.fail(f"{what}: the video is drawn on {tape.canvas[name]} pixels, not 1280 x 720", brief)
    if any(x["dim"] != view for x in frames):
        ctx.fail(f"{f.__name__}: the view is not {view}D", brief)
        return
    lines = "\n".join(x.strip() for x in c["notes"] or [] if x.strip())
    if any("\n".join(x["notes"]) != lines for x in frames):
        ctx.fail(f"{f.__name__}: the annotation is {frames[0]['notes']}", brief)
    if int(fps) != fps:
        fps = -1
    items.append(dict(kind="anim", sc=s2, view=view, moving=True, rate=int(fps), frames=[seen_frame(x) for x in frames], what=f.__name__, brief=brief))
    ctx.count("frames", len(frames))


def refuse(ctx, plt):
    """Trajectories that are not (T, N, dim), no trajectory, no view."""
    import torch
    from torchrir import viz

    d = ctx.scratch / "no"
    d.mkdir()
    base = dict(room=[4., 3.], sources=[[1., 1.]], mics=[[2., 2.]])
    t = torch.ones(3, 1, 2)
    for f, k in ((viz.animate_scene_gif, dict(base, out_path=d / "a.gif")), (viz.animate_scene_mp4, dict(base, out_path=d / "a.mp4")),
                 (viz.animate_scene_gif, dict(base, out_path=d / "a.gif", src_traj=t[0])), (viz.animate_scene_gif, dict(base, out_path=d / "a.gif", mic_traj=t[:, 0])),
                 (viz.animate_scene_gif, dict(base, out_path=d / "a.gif", src_traj=t, plot_2d=False)),
                 (viz.plot_scene_dynamic, dict(room=[4., 3.], src_traj=t[0], mic_traj=t)), (viz.plot_scene_dynamic, dict(room=[4., 3.], src_traj=t, mic_traj=t[0]))):
        stat, v = call(f, **k)
        ctx.comparisons += 1
        if stat == "ok" or not isinstance(v, ValueError):
            ctx.fail(f"{f.__name__} did not refuse {sorted(k)}: {v!r}", dict(arguments=repr(k)))
        elif any(d.iterdir()):
            ctx.fail(f"{f.__name__} refused {sorted(k)} but wrote {[x.name for x in d.iterdir()]}")
        plt.close("all")

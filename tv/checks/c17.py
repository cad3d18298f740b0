"""C17: the motion in built scenes (Motion.tla).

Scenes are built for many requests; each is abstracted from its description
files to integers and judged by TLC.  The audio is compared with the reported
utterances heard along the reported trajectories.
"""

from __future__ import annotations

import math
import re

import numpy as np
import soundfile as sf

from tv import builder, sandbox
from tv.core import call

FS = 250


def requests(rng, k):
    out = []
    for i in range(k):
        n = (1, 2, 3, 4, 5, 6)[i % 6]
        spk = rng.sample(builder.SPEAKERS, rng.randrange(n, 7))
        room = rng.choice([[8.0, 6.0, 3.0], [7.0, 9.0, 3.5], [9.0, 9.0, 2.6], [12.0, 6.5, 4.0], [20.0, 25.0, 6.0]])
        margin = rng.choice([[.5, .5, .3], [.5, .5, .3], [.3, .8, .3], [.2, .2, .9]])
        edge = rng.choice([.2, .6, 1.0, 1.3])
        if rng.random() < .12:                  # an array wider than the sources' distance
            room, margin, edge = [5.4, 5.8, 6.0], [.2, .2, .3], 3.2
        req = dict(speakers=spk, n_scenes=rng.choice([1, 2]), n_sources=n,
                   n_moving_sources=rng.choice([0, 1, n, n, rng.randrange(0, n + 1)]), duration_sec=rng.choice([1.0, 2.5, 4.0, 10.0, 20.0]),
                   trajectory_steps=rng.choice([1, 2, 3, 5, 12, 24, 40, 64, 101]), rir_samples=rng.choice([24, 48]),
                   max_order=rng.choice([0, 1]), room_size=room, source_margin=margin, octa_edge_m=edge,
                   sound_speed=rng.choice([343.0, 330.0]), rt60=rng.choice([.2, .4]),
                   seed=rng.randrange(10 ** 6), save_layout_mp4=False, save_layout_images=False,
                   randomize_mic_center=rng.random() < .6)
        if rng.random() < .7 or not req["randomize_mic_center"]:
            r = edge / math.sqrt(2)
            lo = [max(r, m + 1.81) for m in margin[:2]]
            hi = [room[j] - lo[j] for j in range(2)]
            req["mic_center"] = [round(rng.uniform(lo[0], hi[0]), 3), round(rng.uniform(lo[1], hi[1]), 3),
                                 round(rng.uniform(r + .01, room[2] - r - .01), 3)]
        if rng.random() < .25:
            req.update(rng.choice([dict(move_start_ratio=.2, move_end_ratio=.5), dict(move_start_ratio=0.0, move_end_ratio=.25),
                                   dict(moving_speed_min=.5, moving_speed_max=.5), dict(moving_speed_min=.1, moving_speed_max=.2)]))
        if rng.random() < .15:                  # far around the array, even past the starting point
            req.update(moving_speed_min=1.2, moving_speed_max=2.5, duration_sec=20.0, trajectory_steps=rng.choice([64, 101]),
                       n_moving_sources=rng.randrange(1, n + 1))
        req["n_moving_sources"] = min(n, req["n_moving_sources"])
        out.append(req)
    return out


def ticks(x, unit):
    return int(round(float(x) * unit))


def mdeg(rad):
    return ticks(math.degrees(rad), 1000)


def turn(a, b):
    d = (b - a) % (2 * math.pi)
    return d - 2 * math.pi if d > math.pi else d


def close(a, b, tol=1e-9):
    return np.asarray(a, float).shape == np.asarray(b, float).shape and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=0, atol=tol)


def abstract(req, meta, info):
    """The record Motion.tla judges, and the reasons why descriptions disagree."""
    n, steps = req["n_sources"], req["trajectory_steps"]
    ex = meta["extra"]
    bad = []
    if meta.get("source_info") != info:
        bad.append("source_info.json is not the source information of metadata.json")
    if len(info) != n or len(meta["sources"]["positions"]) != n:
        return None, [f"{len(info)} sources are described"]
    traj, mtraj = meta["trajectories"]["sources"], meta["trajectories"]["mics"]
    if (traj is None) != (steps == 1) or (mtraj is None) != (steps == 1) or meta["dynamic"] != (steps > 1):
        return None, ["trajectories are described wrongly"]
    pos, mics = np.array(meta["sources"]["positions"]), np.array(meta["mics"]["positions"])
    T = np.array(traj) if traj is not None else pos[None]
    M = np.array(mtraj) if mtraj is not None else mics[None]
    if T.shape != (steps, n, 3) or M.shape != (steps, 6, 3) or mics.shape != (6, 3):
        return None, [f"trajectories of shape {T.shape}, {M.shape}"]
    if not close(T[0], pos) or not close(M[0], mics):
        bad.append("positions are not where the trajectories begin")
    c = np.array(ex["mic_center_xyz_m"], float)
    if not close(meta["array"]["center"], c, 1e-6) or not close(meta["array"]["positions"], mics):
        bad.append("the described array is not at the recorded centre")
    lists = dict(source_velocity_mps="velocity_mps", angular_velocity_rad_s="angular_velocity_rad_s", turn_direction="turn_direction")
    for a, b in lists.items():
        if ex[a] != [s[b] for s in info]:
            bad.append(f"{a} disagrees with the source information")
    movers = [int(i) for i in ex["moving_source_indices"]]
    if len(set(movers)) != len(movers):
        bad.append("a source is listed twice as moving")
    if ex["motion_type"] != "arc" or ex["randomize_mic_center"] != req["randomize_mic_center"]:
        bad.append("the kind of motion or array placement is described wrongly")
    mt = ex["motion_time_sec"]
    for s in info:
        if s["move_start_sec"] != mt["move_start"] or s["move_end_sec"] != mt["move_end"]:
            bad.append("the times of motion disagree")
    if not close(meta["room"]["size"], req["room_size"], 1e-6) or meta["room"]["fs"] != FS or meta["room"]["c"] != req["sound_speed"] \
            or meta["room"]["t60"] is None or abs(meta["room"]["t60"] - req["rt60"]) > 1e-6:
        bad.append("the room is not the requested one")
    spk = [s["speaker"] for s in info]
    if len(set(spk)) != n or not set(spk) <= set(req["speakers"]):
        bad.append(f"the speakers {spk} are not distinct ones of the request")
    if any(not s["utterance_ids"] for s in info):
        bad.append("a source has no utterances")
    path, arc, total, radius = [], [], [], []
    for i in range(n):
        rel = T[:, i, :2] - c[:2]
        r, az = np.hypot(rel[:, 0], rel[:, 1]), np.arctan2(rel[:, 1], rel[:, 0])
        path.append([dict(r=ticks(r[k], 1e4), az=mdeg(az[k]), z=ticks(T[k, i, 2], 1e4), x=ticks(T[k, i, 0], 1e4),
                          y=ticks(T[k, i, 1], 1e4)) for k in range(steps)])
        a = [r[0] * turn(az[k], az[k + 1]) for k in range(steps - 1)]
        arc.append([ticks(v, 1e6) for v in a])
        radius.append(float(r[0]))
        total.append(ticks(sum(a), 1e3))
    per = [dict(moving=bool(s["is_moving"]), index=int(s["source_index"]), motion=str(s["motion_type"]),
                speed=ticks(s["velocity_mps"], 1e3), dir=int(s["turn_direction"]), angular=ticks(s["angular_velocity_rad_s"], 1e6),
                angspeed=ticks(s["velocity_mps"] / radius[i], 1e6), **{"from": ticks(s["move_start_sec"], 1e3)},
                to=ticks(s["move_end_sec"], 1e3), startaz=mdeg(math.radians(ex["start_azimuth_deg"][i])),
                endaz=mdeg(math.radians(ex["end_azimuth_deg"][i]))) for i, s in enumerate(info)]
    for p in per:
        p["from_"] = p.pop("from")
    prof = ex["motion_profile"]
    asked = req.get("mic_center", [0, 0, 0])
    if set(ex) >= {"scene_id"} and not re.fullmatch(r"scene_\d{4}", ex["scene_id"]):
        bad.append("the scene has no name")
    rec = dict(n=n, nmoving=req["n_moving_sources"], steps=steps, room=[ticks(v, 1e4) for v in req["room_size"]],
               margin=[ticks(v, 1e4) for v in req["source_margin"]], mindist=18000, edge=ticks(req["octa_edge_m"], 1e4),
               centre=[ticks(v, 1e4) for v in c], mics=[[ticks(v, 1e4) for v in m - c] for m in mics],
               path=path, arc=arc, total=total, dur=ticks(req["duration_sec"], 1e3),
               t0=ticks(req.get("move_start_ratio", .35), 1e3), t1=ticks(req.get("move_end_ratio", .65), 1e3),
               vmin=ticks(req.get("moving_speed_min", .3), 1e3), vmax=ticks(req.get("moving_speed_max", .8), 1e3), vtol=2,
               movers=[m + 1 for m in movers], info=per,
               told=dict(n=ex["n_sources"], nmoving=ex["n_moving_sources"], edge=ticks(ex["octa_edge_m"], 1e4),
                         step=mdeg(math.radians(ex["azimuth_step_deg"])), mindist=ticks(ex["min_source_distance_from_array_center_m"], 1e4),
                         total=ticks(mt["total"], 1e3), pre=ticks(prof["pre_static_ratio"], 1e3), move=ticks(prof["move_ratio"], 1e3),
                         post=ticks(prof["post_static_ratio"], 1e3)),
               agree=not bad, centre_fixed=not req["randomize_mic_center"], centre_asked=[ticks(v, 1e4) for v in asked],
               micsrest=bool(np.abs(M - M[0]).max() < 1e-9))
    return rec, bad


def audio(req, d, info, meta, corpus):
    """[error in quantisation steps, scale in 1/10000, peak in 1/10000]."""
    import torch
    from torchrir import MicrophoneArray, Room, Source  # noqa: F401
    from torchrir.signal import DynamicConvolver
    from torchrir.sim import simulate_dynamic_rir

    want = int(req["duration_sec"] * FS)
    dry = []
    for s in info:
        parts = [sf.read(corpus / "ARCTIC" / f"cmu_us_{s['speaker']}_arctic" / "wav" / f"{u}.wav")[0] for u in s["utterance_ids"]]
        x = np.concatenate(parts)
        if len(x) < want or len(x) - len(parts[-1]) >= want:
            return None, f"the {len(parts)} reported utterances of {s['speaker']} do not fill the scene exactly"
        dry.append(x[:want])
    dry = torch.tensor(np.stack(dry), dtype=torch.float64)
    room = Room.shoebox(size=meta["room"]["size"], fs=float(FS), c=meta["room"]["c"], t60=meta["room"]["t60"], dtype=torch.float64)
    tr = meta["trajectories"]
    T = torch.tensor(tr["sources"] or [meta["sources"]["positions"]], dtype=torch.float64)
    M = torch.tensor(tr["mics"] or [meta["mics"]["positions"]], dtype=torch.float64)
    h = simulate_dynamic_rir(room=room, src_traj=T, mic_traj=M, max_order=req["max_order"], nsample=req["rir_samples"])
    if list(h.shape) != meta["rirs_shape"]:
        return None, f"the response shape is described as {meta['rirs_shape']}"
    stems = np.stack([DynamicConvolver(mode="trajectory").convolve(dry[i:i + 1], h[:, i:i + 1]).numpy().T for i in range(len(info))])
    got = np.stack([sf.read(d / f"source_{i:02d}.wav", always_2d=True)[0] for i in range(len(info))])
    if got.shape != stems.shape:
        return None, f"source files of shape {got.shape[1:]}, the scene has {stems.shape[1:]}"
    peak = max(np.abs(stems).max(), np.abs(stems.sum(0)).max())
    a = float((got * stems).sum() / (stems * stems).sum()) if peak > .985 else 1.0
    err = np.abs(got - a * stems).max() * 32768
    return [int(min(1e6, math.ceil(err))), ticks(a, 1e4), ticks(peak, 1e4)], ""


def model(ctx):
    big = dict(Last=6, From=2, To=5, Sizes="{6, 8, 10}", Norms="{1, 5, 10, 25}")
    inv = ["Inside", "Gone", "Resting", "Distance"]
    ctx.tlc("MCMotion", constants=dict(big, Plan='"uniform"'), invariants=inv, workers=4)
    r = ctx.tlc("MCMotion", constants=dict(big, Plan='"ends"'), invariants=inv, expect_ok=False, label="MCMotion looking at the ends only")
    if not r.violated:
        raise AssertionError("the specification misses a circle that leaves the room between its ends")


def run(ctx):
    rng = ctx.rng
    model(ctx)
    builder.prepare()
    base = ctx.scratch / "corpora"
    base.mkdir()
    corpora = [builder.corpus(base / "quiet", 11, FS), builder.corpus(base / "loud", 12, FS, loud=True)]
    out = sandbox.scratch_dir(ctx, "scenes")
    sandbox.give(out)
    cases, who = [], []
    infeasible = 0
    for i, req in enumerate(requests(rng, ctx.pick(60, 700))):
        corpus = corpora[i % 2]
        root = out / f"r{i}"
        ch = builder.start(out, dict(req, cmu_root=corpus, dataset_root=root))
        if ch.result[0] != "ok":
            if "o feasible" in str(ch.result) or "place" in str(ch.result):
                infeasible += 1
                continue
            ctx.fail(f"a valid request failed: {ch.result[1:3]}", repr(req))
            return
        for d in sorted(root.iterdir()):
            try:
                meta, info = builder.descriptions(d)
                rec, bad = abstract(req, meta, info)
            except (KeyError, TypeError, ValueError, IndexError, OSError) as exc:
                ctx.fail(f"the descriptions of {d.name} are incomplete: {exc!r}", repr(req))
                continue
            if rec is None:
                ctx.fail(f"the description of {d.name}: {bad[0]}", repr(req))
                continue
            st, a = call(audio, req, d, info, meta, corpus)
            if st == "err":
                ctx.fail(f"the audio of {d.name} cannot be derived from its description: {a!r}", repr(req))
                continue
            if a[0] is None:
                ctx.fail(f"the audio of {d.name}: {a[1]}", repr(req))
                continue
            rec["audioerr"], rec["scale"], rec["peak"] = a[0]
            if bad:
                ctx.fail(f"{d.name}: {bad[0]}", repr(req))
            rec["id"] = len(cases)
            cases.append(rec)
            who.append((d.name, repr(req)))
        sandbox.wipe(root)
        if ctx.enough():
            return
    verdict = []
    for a in range(0, len(cases), 150):
        verdict += ctx.tlc("MotionTrace", cases=cases[a:a + 150]).records
    if len(verdict) != len(cases):
        raise AssertionError("verdicts missing")
    for v in verdict:
        c, (name, req) = cases[v["id"]], who[v["id"]]
        ctx.comparisons += c["n"] * c["steps"]
        ctx.count("moving_sources", v["moving"])
        ctx.trace()
        if v["wrong"]:
            ctx.fail(f"{name}: {v['wrong']}", dict(request=req, scene=c))
        if ctx.enough():
            return
    ctx.count("scenes", len(cases))
    ctx.count("requests_without_a_placement", infeasible)
    if len(cases) < 40:
        raise AssertionError("too few scenes could be built")
    ctx.sample({k: v for k, v in cases[0].items() if k not in ("path", "arc")})
    ctx.assumptions += ["steps are at (k-1)/(steps-1) of the scene, one step of slack for the times of motion",
                        "the audio is recomputed by the simulator and convolver judged by C01-C12",
                        "a source said to move is not required to in a scene of one step"]

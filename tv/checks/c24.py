"""C24: device and precision selection (Device.tla), every request of the product."""

from __future__ import annotations

import warnings
from unittest import mock

import torch

from tv.core import call

DT = {"float32": torch.float32, "float64": torch.float64, "float16": torch.float16, "int64": torch.int64}


def spell(rng, s):
    return rng.choice([s, s, s.upper(), s.title()])


def run(ctx):
    from torchrir.util import DeviceSpec, as_tensor, infer_device_dtype, resolve_device

    rng = ctx.rng
    recs = ctx.tlc("Device", constants=dict(Full="TRUE" if ctx.thorough else "FALSE", EmitOn="TRUE"), workers=1,
                   invariants=["ExplicitWins", "DtypeWins", "NeverUnavailable", "AutoFollowsOrder", "WarnOnlyOnFallback",
                               "Emit"], timeout=800).records
    if not ctx.thorough and len(recs) > 60000:
        recs = rng.sample(recs, 60000)
    unknown = ["gpu", "cudax", "cuda:x", "mpsfoo", "", "cuda0", "tpu?", "autox"]
    last = None
    recs.sort(key=lambda r: (r["e"]["cuda"], r["e"]["mps"]))
    with mock.patch("torch.cuda.is_available") as mc, mock.patch("torch.backends.mps.is_available") as mm, \
            warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        for rec in recs:
            e, r = rec["e"], rec["r"]
            if last != (e["cuda"], e["mps"]):
                last = (e["cuda"], e["mps"])
                mc.return_value, mm.return_value = last
            objs = rng.choice([torch.device("cpu"), torch.device("meta"), torch.device("cuda:3")])
            ask = {"none": None, "object": objs, "unknown": rng.choice(unknown)}.get(e["ask"], spell(rng, e["ask"]))
            vals = [torch.zeros(rng.choice([2, 2, 0, (), (3, 0)]), dtype=DT[a["dt"]], device=a["dev"]) if a["t"] else rng.choice([None, 3, [1.0], "x"])
                    for a in rec["args"]]
            dt = None if rec["dtype"] == "none" else DT[rec["dtype"]]
            default = e["prefer"] == ["cuda", "mps", "cpu"]
            kw = {} if default and rng.random() < .5 else dict(prefer=tuple(e["prefer"]))
            forms = [("DeviceSpec", lambda: DeviceSpec(device=ask, dtype=dt, **kw).resolve(*vals))]
            if default:
                forms.append(("infer_device_dtype", lambda: infer_device_dtype(*vals, device=ask, dtype=dt)))
            if not vals and dt is None:
                forms.append(("resolve_device", lambda: (resolve_device(ask, **kw), torch.float32)))
            nm, fn = rng.choice(forms)
            log.clear()
            torch.set_default_dtype(torch.float64 if rng.random() < .2 else torch.float32)
            try:
                st, out = call(fn)
            finally:
                torch.set_default_dtype(torch.float32)
            ctx.trace()
            ctx.comparisons += 1
            case = dict(form=nm, ask=repr(ask), record=rec)
            if r["err"]:
                if st == "ok":
                    ctx.fail(f"{nm}: unknown device {ask!r} gave {out}", case)
                continue
            if st == "err":
                ctx.fail(f"{nm}: {ask!r} failed: {type(out).__name__}: {out}", case)
                continue
            want = objs if r["dev"] == "object" else torch.device(r["dev"])
            if out[0] != want:
                ctx.fail(f"{nm}: {ask!r} with prefer {e['prefer']}, cuda {e['cuda']}, mps {e['mps']}, tensors "
                         f"{[a for a in rec['args'] if a['t']]} gave {out[0]} instead of {want}", case)
            if out[1] != DT[r["dt"]]:
                ctx.fail(f"{nm}: precision {out[1]} instead of {r['dt']}", case)
            warned = any(issubclass(w.category, RuntimeWarning) for w in log)
            if warned != r["warn"]:
                ctx.fail(f"{nm}: {ask!r} {'warned' if warned else 'gave no warning'}", case)
            if ctx.enough():
                return
        # conversion keeps what is not asked for
        mc.return_value = mm.return_value = False
        for src in (torch.float32, torch.float64, torch.int64):
            for dt in (None, torch.float32, torch.float64):
                for dev in (None, "cpu", "auto", "cuda", torch.device("meta"), "meta"):
                    x = torch.arange(3).to(src)
                    st, y = call(as_tensor, x, device=dev, dtype=dt)
                    ctx.comparisons += 1
                    wd = torch.device("meta") if str(dev) == "meta" else torch.device("cpu")
                    if st == "err" or y.device != wd or y.dtype != (dt or src):
                        ctx.fail(f"as_tensor of {src} with device {dev}, dtype {dt}: {y}", {})
                    elif wd.type == "cpu" and not torch.equal(y, x.to(dt or src)):
                        ctx.fail("as_tensor changed values", {})
        for v, wd in (([1.0, 2.0], torch.float32), ([1, 2], torch.int64), (3.5, torch.float32)):
            for dt in (None, torch.float64):
                y = as_tensor(v, dtype=dt)
                if y.dtype != (dt or wd) or y.tolist() != v:
                    ctx.fail(f"as_tensor({v!r}, dtype={dt}) gave {y}", {})
        # a whole simulation on an accelerator that is not there
        from torchrir import MicrophoneArray, Room, Source, StaticScene
        from torchrir.sim import ISMSimulator, simulate_rir
        from torchrir.config import SimulationConfig

        room = Room.shoebox(size=[3., 4., 2.5], fs=4000., beta=[.7] * 6)
        s, m = Source.from_positions([[1., 1., 1.]]), MicrophoneArray.from_positions([[2., 2., 1.]])
        ref = simulate_rir(room=room, sources=s, mics=m, max_order=1, nsample=100)
        for dev in ("cuda", "mps", "CUDA:0", "auto", "cpu"):
            log.clear()
            st, y = call(lambda: simulate_rir(room=room, sources=s, mics=m, max_order=1, nsample=100, device=dev))
            w1 = any("falling back" in str(w.message).lower() or issubclass(w.category, RuntimeWarning) for w in log)
            log.clear()
            st2, z = call(lambda: ISMSimulator(max_order=1, nsample=100).simulate(
                StaticScene(room=room, sources=s, mics=m), SimulationConfig(device=dev)).rirs)
            w2 = any(issubclass(w.category, RuntimeWarning) for w in log)
            fall = dev not in ("auto", "cpu")
            ctx.comparisons += 2
            for nm, t, o, w in (("simulate_rir", st, y, w1), ("ISMSimulator", st2, z, w2)):
                if t == "err" or not torch.equal(o, ref) or w != fall:
                    ctx.fail(f"{nm} on {dev!r} without accelerators: warned {w}, {o if t == 'err' else 'result differs'}", {})
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    ctx.assumptions += ["availability of accelerators is simulated; other torch backends than CUDA and MPS and device objects "
                        "are passed through"]

"""Oracle for image-source RIRs: terms come from spec/IsmEval.tla, this file
renders them (windowed-sinc superposition, float64) with an error envelope."""

from __future__ import annotations

import math

import numpy as np

UNIT = 0.01  # model grid: 1 cm, unless a case says how large its cells are


def unit(case):
    return case.get("unit", UNIT)


def terms(ctx, cases, chunk=64):
    """Ask TLC for the image terms of integer-grid cases, in order."""
    out = []
    for a in range(0, len(cases), chunk):
        part = [dict(id=i, L=c["L"], order=c["order"], nb=c.get("nb") or [], src=c["src"])
                for i, c in enumerate(cases[a:a + chunk])]
        r = ctx.tlc("IsmEval", cases=part)
        recs = sorted(r.records, key=lambda x: x["id"])
        assert len(recs) == len(part)
        out.extend(recs)
    return out


HALF = ("homni", "halfomni", "half-omni")


def gain_pattern(pattern, cos):
    p = pattern.lower()
    if p in ("omni", "omnidirectional"):
        return np.ones_like(cos)
    if p in HALF:
        return (cos > 0).astype(float)
    a = {"subcardioid": .75, "subcard": .75, "cardioid": .5, "card": .5,
         "hypercardioid": .25, "hypcard": .25,
         "bidir": 0., "bidirectional": 0., "figure8": 0., "figure-8": 0.}[p]
    return a + (1 - a) * cos


def amplitudes(term, s, mic, beta, unit=UNIT, src_pat="omni", mic_pat="omni",
               src_dir=None, mic_dir=None, full=False):
    """(dist [m], gain/dist) of every image of source s at integer mic position;
    with full=True also (bound, uncertain): magnitude without directivity, and
    the amplitude in doubt where a half-omni pattern is grazed."""
    x = np.asarray(term["x"][s], dtype=np.int64)
    v = np.asarray(mic, dtype=np.int64)[None, :] - x
    d2 = (v * v).sum(axis=1).astype(float)
    dist = np.maximum(np.sqrt(d2) * unit, 1e-6)
    lo = np.asarray(term["lo"])
    hi = np.asarray(term["hi"])
    b = np.asarray(beta, dtype=float).reshape(-1, 2)
    g = np.prod(np.power(b[None, :, 0], lo) * np.power(b[None, :, 1], hi), axis=1)
    amp_scale = g / dist
    bound = np.abs(amp_scale)
    unsure = np.zeros_like(bound)
    if src_pat.lower() not in ("omni", "omnidirectional"):
        o = np.asarray(src_dir, float)
        cos = (v @ o) / (np.sqrt(d2) * np.linalg.norm(o))
        amp_scale = amp_scale * gain_pattern(src_pat, cos)
        if src_pat.lower() in HALF:
            unsure = np.where(np.abs(cos) < 1e-4, bound, unsure)
    if mic_pat.lower() not in ("omni", "omnidirectional"):
        o = np.asarray(mic_dir, float)
        cos = (-v @ o) / (np.sqrt(d2) * np.linalg.norm(o))
        amp_scale = amp_scale * gain_pattern(mic_pat, cos)
        if mic_pat.lower() in HALF:
            unsure = np.where(np.abs(cos) < 1e-4, bound, unsure)
    return (dist, amp_scale, bound, unsure) if full else (dist, amp_scale)


def render(dist, amp, *, fs, c, fdl, nsample, single, lut_gran=None, bound=None, unsure=None):
    """Return (rir, tolerance) of the superposition; `single` = float32 run."""
    half = (fdl - 1) // 2
    s = dist * fs / c + half
    base = np.floor(s)
    eps = 6e-7 if single else 2e-12
    frac = s - base
    k = np.arange(fdl)
    if fdl == 1:
        win = np.ones(1)
    else:
        win = 0.5 - 0.5 * np.cos(2 * math.pi * k / (fdl - 1))
    rir = np.zeros(nsample)
    tol = np.zeros(nsample)
    aabs = np.abs(amp) if bound is None else bound

    def add(target, idx, vals):
        ok = (idx >= 0) & (idx < nsample)
        np.add.at(target, idx[ok], vals[ok])

    # position uncertainty in samples from finite precision
    epos = eps * (s + fs / c) + (1e-5 if single else 1e-10)
    idx = base.astype(np.int64)[:, None] + (k - half)[None, :]
    wave = np.sinc(k[None, :] - half - frac[:, None]) * win[None, :]
    add(rir, idx, amp[:, None] * wave)
    slope = 1.5  # max |d sinc| < 1.37
    err = aabs[:, None] * (epos[:, None] * slope * win[None, :]
                           + (4e-6 if single else 1e-11) * (np.abs(wave) + 0.02))
    if lut_gran:
        lutb = 1.06 * (math.pi ** 2 / 3) / (8 * lut_gran ** 2)
        err = err + aabs[:, None] * lutb * win[None, :]
    if unsure is not None and unsure.any():
        err = err + unsure[:, None] * np.abs(wave)
    add(tol, idx, err)
    # a delay on (or within rounding of) a sample boundary may fall either way
    near_hi = frac > 1 - 4 * epos
    near_lo = frac < 4 * epos
    for mask, shift in ((near_hi, 1), (near_lo, -1)):
        if mask.any():
            b2 = base[mask] + shift
            f2 = s[mask] - b2
            idx2 = b2.astype(np.int64)[:, None] + (k - half)[None, :]
            w2 = np.sinc(k[None, :] - half - f2[:, None]) * win[None, :]
            # compare on the union of supports
            lo_i = np.minimum(base[mask], b2).astype(np.int64)
            span = np.arange(fdl + 1) - half
            j = lo_i[:, None] + span[None, :]
            A = np.zeros((mask.sum(), fdl + 1))
            B = np.zeros_like(A)
            oa = (base[mask].astype(np.int64) - lo_i)
            ob = (b2.astype(np.int64) - lo_i)
            w1 = wave[mask]
            for r in range(A.shape[0]):
                A[r, oa[r]:oa[r] + fdl] = w1[r]
                B[r, ob[r]:ob[r] + fdl] = w2[r]
            add(tol, j, aabs[mask][:, None] * np.abs(A - B))
            del idx2
    return rir, tol + (2e-6 if single else 1e-11) * np.abs(rir) + 1e-12


def worst(actual, want, tol):
    d = np.abs(np.asarray(actual, dtype=float) - want)
    if not np.all(np.isfinite(d)):
        k = int(np.argmin(np.isfinite(d)))
        return False, k, float("inf"), float(tol[k])
    excess = d - tol
    k = int(np.argmax(excess))
    return bool(excess[k] <= 0), k, float(d[k]), float(tol[k])

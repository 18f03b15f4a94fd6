"""Shared pieces of the thermal-model harnesses (C01..C05)"""
import numpy as np

SEC_YEAR = 86400 * 365.0
RANGES = {
    "rlamdo": (5.0, 25.0),
    "akapa": (0.06, 0.8),
    "cpi": (0.16, 0.569),
    "W": (0.55, 2.55),
    "beto": (0.0, 7.0),
    "lambda": (0.3, 1.6),
    "mixed": (25.0, 125.0),
    "foan": (0.5, 0.9),
    "foas": (0.5, 0.9),
    "ebbeta": (0.0, 2.0),
    "ocean_efficacy": (0.5, 2.0),
    "threstemp": (5.0, 15.0),
    "delta_lambda_aero": (-0.5, 1.5),
}
UDM_DEFAULT = {
    "rlamdo": 15.0,
    "akapa": 0.66,
    "cpi": 0.21,
    "W": 2.2,
    "beto": 6.9,
    "threstemp": 7.0,
    "lambda": 0.61,
    "mixed": 107.0,
    "foan": 0.61,
    "foas": 0.81,
    "ebbeta": 0.0,
    "lm": 40,
    "ldtime": 12,
    "ocean_efficacy": 1.0,
    "delta_lambda_aero": 0.0,
}
# heat capacity per metre of water column the model uses in its solver
C1 = 1.03 * 0.955 * 0.485 * 100.0 * 86400.0


def udm(ctx, params=None, sympar=(), ranges=None):
    """a fresh model and the parameters it was given"""
    mod = ctx.mod("thermal_model.upwelling_diffusion_model")
    pam = dict(UDM_DEFAULT)
    pam.update(params or {})
    for p in sympar:
        pam[p] = ctx.real(p, *((ranges or {}).get(p) or RANGES[p]))
    return mod.UpwellingDiffusionModel(dict(pam)), pam


def thickness(pam):
    return [pam["mixed"]] + [100.0] * (pam["lm"] - 1)


def set_state(ctx, m, lm, span=(-5, 12)):
    """
    An arbitrary state instead of the one the years so far led to, where the
    model keeps its state as this release does; (tn, ts, prev fn, prev fs).
    """
    if not all(hasattr(m, a) for a in ("tn", "ts", "prev_values")) or not {"fn", "fs"} <= set(m.prev_values):
        return np.zeros(lm), np.zeros(lm), 0.0, 0.0
    m.tn = ctx.reals("tn", lm, *span)
    m.ts = ctx.reals("ts", lm, *span)
    fpn, fps = ctx.real("fpn", -5, 10), ctx.real("fps", -5, 10)
    m.prev_values["fn"] = fpn
    m.prev_values["fs"] = fps
    return m.tn.copy(), m.ts.copy(), fpn, fps


def forcings(ctx, ncol, tag=""):
    fn, fs = ctx.real(f"fn{tag}", -5, 10), ctx.real(f"fs{tag}", -5, 10)
    vn, vs = ctx.reals(f"vn{tag}_", ncol, -10, 2), ctx.reals(f"vs{tag}_", ncol, -10, 2)
    return fn, fs, vn, vs


def mean(v):
    s = 0
    for x in v:
        s = s + x
    return s / len(v)


def year_mean_forcing(f, fprev, v, ldtime):
    """what the sub-steps apply: ramp from last year's forcing plus volcanic"""
    t = 0
    for im in range(ldtime):
        w = (im + 1) / ldtime
        t = t + w * f + (1 - w) * fprev + v[im % len(v)]
    return t / ldtime

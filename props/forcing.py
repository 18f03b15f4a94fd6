"""Concentration-driven scenarios in which every concentration and emission is free"""
from props.common import Scenario, put, sym_around


def scenario(ctx, gas="v1", ny=(1998, 2001), carbon="box", conc=(), em=(), years=None, drop=(), erf=(), alpha=(), conc_run=True, lo=0.3, hi=3.0):
    s = Scenario(ctx, gas, ny, ny[1] + 10, carbon, drop)
    if conc_run:
        s.extra["conc_run"] = True
    years = list(s.years) if years is None else years
    for g in conc:
        for y in years:
            sym_around(ctx, s.conc, y, g, "c", lo, hi, 0.05, 1.0)
    for g in em:
        for y in years:
            sym_around(ctx, s.em, y, g, "e", 0.0, 3.0, 0.0, 5.0)
    for g in erf:
        put(ctx, s.gas, g, "SARF_TO_ERF", ctx.real(f"erf_{g}", 0.5, 1.5))
    for g in alpha:
        put(ctx, s.gas, g, "ALPHA", ctx.real(f"alpha_{g}", -0.5, 0.5))
    return s


def column(res, g):
    """forcing column as reported (the direct sulphate effect is reported under its own name)"""
    return res["forcing"]["SO4_DIR" if g == "SO2" else g]


def reported(res, y):
    """every reported per-agent forcing of a year"""
    skip = ("Year", "Total_forcing")
    return {g: res["forcing"].loc[y, g] for g in res["forcing"].columns if g not in skip}

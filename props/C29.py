"""C29: output files hold the results of the run, every number under its name and year"""
import os

import numpy as np
import pandas as pd

from engine import textio
from engine.runner import Case
from props.C23 import data
from props.common import Scenario, put

BOUNDS = (
    "every file of a run, every row and column; emission-driven, concentration-driven and forcing-driven runs, both thermal models and both carbon cycles, with and without carbon cycle "
    "output, 3 and 4 years, two start years; emissions, prescribed concentrations, solar, volcanic and other forcing arbitrary"
)
OUTSIDE = "the digits a number is rounded to in a file (checked to 5 decimals where numbers are concrete); output folders that do not exist; file systems that fail"
ASSUMPTIONS = []
TEMPERATURES = ["dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea", "dT_NH_sea", "dT_SHsea"]
FILES = {
    "ohc": ["OHC700", "OHCTOT"],
    "rib": ["RIB_glob", "RIB_N", "RIB_S"],
    "temp": TEMPERATURES,
    "sunvolc": ["Solar_forcing", "Volcanic_forcing_NH", "Volcanic_forcing_SH"],
}
FRAMES = {"em": "emissions", "conc": "concentrations", "forc": "forcing", "carbon": "carbon cycle"}


def model(ctx, driven, thermal, carbon, ny, calm=False):
    """every kind of number of the last year is arbitrary"""
    y, i = ny[1], ny[1] - ny[0]
    s = Scenario(ctx, ny=ny, emstart=y, carbon=carbon)
    # emissions are searched for the concentrations and temperatures: a calm run has neither arbitrary
    last = () if calm else (f"sun{i}_0", f"vn{i}_0", f"vs{i}_1", f"luc{i}_0")
    if driven == "forcing":
        cfg = {"nystart": ny[0], "nyend": ny[1], "emstart": y, "idtm": 2}
        f = np.zeros(ny[1] - ny[0] + 1, dtype=object if ctx.symbolic else float)
        for k in range(len(f)):
            f[k] = ctx.real(f"forc{k}", -3, 6)
        cfg["forc_data"] = f
        cfg.update({k: v for k, v in data(ctx, s, 2, ("sun0_0", "vn1_0", *last)).items() if k != "rf_luc_data"})
    else:
        for g, lo, hi in (("SO2", 10.0, 90.0), ("CH4", 100.0, 500.0), ("BC", 2.0, 9.0)):
            if not calm or g == "CH4":
                put(ctx, s.em, y, g, ctx.real(f"em_{g}", lo, hi))
        if driven == "concentrations" and not calm:
            for g, lo, hi in (("CFC-11", 100.0, 300.0), ("CH4", 900.0, 2500.0), ("HFC134a", 1.0, 50.0)):
                put(ctx, s.conc, y, g, ctx.real(f"conc_{g}", lo, hi))
        s.extra.update(data(ctx, s, 2, last))
        s.extra["conc_run"] = driven == "concentrations"
        s.objectify()
        cfg = {**s.cfg(), "idtm": 2}
    return ctx.mod("ciceroscm").CICEROSCM({**cfg, "sunvolc": 1, "thermal_model": thermal})


def read(path):
    return textio.restore_frame(pd.read_csv(path, sep="\t"))


def written(ctx, driven="emissions", thermal="default", carbon="box", ny=(1999, 2001), carbon_out=None, prefix=None, relative=False, twice=False, default=False):
    folder = ctx.scratch()
    pams = {"pamset_udm": {"lm": 8, "ldtime": 2} if thermal == "default" else None}
    if driven != "forcing":
        pams["pamset_emiconc"] = {"ref_yr": ny[1], "lifetime_mode": "CONSTANT_12"}
    cfg = {} if carbon_out is None else {"carbon_cycle_outputs": carbon_out}
    calm = driven == "concentrations" and carbon == "default" and bool(carbon_out)
    m = model(ctx, driven, thermal, carbon, ny, calm)
    m._run({**cfg, "results_as_dict": True}, **pams)
    want = dict(m.results)
    here = os.path.join(folder, "output" if default else "here")
    os.makedirs(here)
    where = os.getcwd()
    out = dict(cfg)
    if prefix is not None:
        out["output_prefix"] = prefix
    if not default:
        out["output_folder"] = "here" if relative else here
    n = model(ctx, driven, thermal, carbon, ny, calm)
    try:
        os.chdir(folder)
        if twice:  # an earlier run into the same files
            n._run(dict(out), **{**pams, "pamset_udm": {**(pams["pamset_udm"] or {}), "lambda": 1.3}})
        n._run(dict(out), **pams)
    finally:
        os.chdir(where)
    pre = "output" if prefix is None else prefix
    names = {f"{pre}_{k}.txt" for k in FILES}
    if driven == "forcing":
        names.add(f"{pre}_forc.txt")
    else:
        names |= {f"{pre}_{k}.txt" for k, v in FRAMES.items() if k != "carbon" or carbon_out}
        ctx.same("carbon cycle results", "carbon cycle" in want, bool(carbon_out))
    ctx.same("the files written", sorted(os.listdir(here)), sorted(names))
    years = list(range(ny[0], ny[1] + 1))
    for f in sorted(names):
        got = read(os.path.join(here, f))
        kind = f[len(pre) + 1 : -4]
        ctx.same(f"{kind}: years", [int(y) for y in got["Year"]], years)
        if kind in FRAMES and driven != "forcing":
            frame = want[FRAMES[kind]]
            cols = {c: [frame[c].iloc[i] for i in range(len(years))] for c in frame.columns if c != "Year"}
        else:
            cols = {c: want[c] for c in (["Total_forcing"] if kind == "forc" else FILES[kind]) if c in want}
        ctx.same(f"{kind}: columns", sorted(c for c in got.columns if c != "Year"), sorted(cols))
        for c, vals in cols.items():
            for i, y in enumerate(years):
                x, v = got[c].iloc[i], vals[i]
                if isinstance(v, float) and v != v:
                    ctx.true(f"{kind}: {c} {y} undefined", x != x)
                else:
                    if not ctx.symbolic and abs(x - v) <= 1e-5 * abs(v):
                        x = v  # rounded in the file
                    ctx.eq(f"{kind}: {c} {y}", x, v, rtol=2e-5, atol=1e-12)


def cases(tier):
    out = []
    for t in ("default", "twolayer"):
        for d in ("emissions", "concentrations", "forcing"):
            for c in ("box", "default") if d != "forcing" else ("box",):
                out.append(Case(f"{d}-{t}-{c}", written, dict(driven=d, thermal=t, carbon=c)))
        out.append(Case(f"carbon-{t}", written, dict(thermal=t, carbon_out=True)))
        out.append(Case(f"no-carbon-{t}", written, dict(thermal=t, carbon_out=False)))
        out.append(Case(f"carbon-conc-{t}", written, dict(thermal=t, carbon_out=True, driven="concentrations", carbon="default")))
        out.append(Case(f"prefix-{t}", written, dict(thermal=t, prefix="x_1", relative=True)))
        out.append(Case(f"forcing-prefix-{t}", written, dict(driven="forcing", thermal=t, prefix="run", ny=(1998, 2001))))
        out.append(Case(f"later-{t}", written, dict(thermal=t, ny=(1998, 2001))))
        out.append(Case(f"default-folder-{t}", written, dict(thermal=t, default=True, carbon_out=True)))
        out.append(Case(f"forcing-default-folder-{t}", written, dict(thermal=t, default=True, driven="forcing")))
        out.append(Case(f"twice-{t}", written, dict(thermal=t, twice=True)))
    return out

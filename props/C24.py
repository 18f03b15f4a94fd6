"""C24: a forcing-driven run applies the forcing given for each year, whatever form it is given in"""
import os

import numpy as np
import pandas as pd

from engine.runner import Case
from props.C23 import TWO_OUT, UDM_OUT, data, mean

BOUNDS = (
    "forcing files and arrays of 3 to 5 years; single column, components, hemispheric, with and without total and aerosol weight, rows before and after the run and in any order; "
    "every number of the file in [-5,5] W/m2 (some components of one sign); solar and volcanic data arbitrary; both thermal models, with and without aerosol-dependent feedback"
)
OUTSIDE = "malformed files; forcing frames passed as objects without total or hemispheric columns; what the thermal models make of the forcing (C01-C05)"
ASSUMPTIONS = ["numbers in the files are read by pandas and numpy as they stand there"]
AEROSOLS = ("SO2", "SO4_IND", "SO4_DIR", "BC", "OC", "NOx", "NMVOC", "NH3", "BMB_AEROS")


def is_aerosol(name):
    return name in AEROSOLS or name.split("_")[0] in ("SO2", "BC", "OC") and "_" in name


def forced(ctx, cols=None, form="file", thermal="twolayer", ny=(1998, 2000), years=None, delta=0.0, signs=None, pam_th=None):
    signs = signs or {}
    years = list(years or range(ny[0], ny[1] + 1))
    rng = {1: (0.1, 5.0), -1: (-5.0, -0.1), 0: (-5.0, 5.0), "w": (0.0, 1.0)}
    cell = lambda y, c: ctx.real(f"{c}_{y}", *rng[signs.get(c, "w" if c == "w_aero" else 0)])  # noqa: E731
    ref = data(ctx, _Years(ny), 2, None)
    cfg = {k: v for k, v in data(ctx, _Years(ny), 2, None).items() if k != "rf_luc_data"}
    cfg.update(nystart=ny[0], nyend=ny[1], sunvolc=1, thermal_model=thermal)
    want = {}
    if form == "file":
        path = os.path.join(ctx.scratch(), "forcing.txt")
        with open(path, "w", encoding="utf-8") as f:
            if cols is None:
                f.write("".join(ctx.text(cell(y, "f")) + "\n" for y in years))
            else:
                f.write(",".join(["year"] + list(cols)) + "\n")
                for y in years:
                    f.write(",".join([str(y)] + [ctx.text(cell(y, c)) for c in cols]) + "\n")
        cfg["forc_file"] = path
    elif form == "array":
        cfg["forc_data"] = ctx.array([cell(y, "f") for y in years])
    else:
        cfg["forc_data"] = pd.DataFrame({c: ctx.array([cell(y, c) for y in years]) for c in cols}, index=years)
    for y in range(ny[0], ny[1] + 1):
        v = {c: cell(y, c) for c in (cols or ["f"])}
        comps = [c for c in v if c not in ("total", "FORC_NH", "FORC_SH", "w_aero")]
        if "total" in v:
            total = v["total"]
        elif "FORC_NH" in v:
            total = (v["FORC_NH"] + v["FORC_SH"]) / 2
        else:
            total = 0
            for c in comps:
                total = total + v[c]
        north, south = v.get("FORC_NH", total), v.get("FORC_SH", total)
        weight = v.get("w_aero", 0.0)
        if "w_aero" not in v and cols is not None and form == "file":
            part, whole = 0, 0
            for c in comps:
                whole = whole + ctx.abs(v[c])
                if is_aerosol(c):
                    part = part + ctx.abs(v[c])
            weight = part / whole if any(is_aerosol(c) for c in comps) else 0.0
        sun = ref["rf_sun_data"].loc[y, 0]
        want[y] = (total + sun, north + sun, south + sun, weight)

    pth = {"delta_lambda_aero": delta}
    if thermal == "default":
        pth.update(lm=9, ldtime=2)
    pth.update(pam_th or {})
    model = ctx.mod("ciceroscm").CICEROSCM(cfg)
    model._run({"results_as_dict": True}, pamset_udm=dict(pth))
    got = model.results
    m = ctx.mod("component_factory_functions").create_thermal_model(thermal)(dict(pth))
    for i, y in enumerate(range(ny[0], ny[1] + 1)):
        total, north, south, weight = want[y]
        ctx.eq(f"total forcing {y}", got["Total_forcing"][i], total, rtol=1e-9, atol=1e-9)
        ctx.eq(f"solar forcing {y}", got["Solar_forcing"][i], ref["rf_sun_data"].loc[y, 0])
        for h, k in (("NH", "rf_volc_n_data"), ("SH", "rf_volc_s_data")):
            ctx.eq(f"volcanic forcing {h} {y}", got[f"Volcanic_forcing_{h}"][i], mean(list(ref[k].loc[y])), atol=1e-12)
        m.set_feedback_gregory(weight)
        out = m.energy_budget(north, south, np.array(ref["rf_volc_n_data"].loc[y]), np.array(ref["rf_volc_s_data"].loc[y]))
        for k, v in (UDM_OUT if thermal == "default" else TWO_OUT).items():
            ctx.eq(f"{k} {y}", got[k][i], out[v], rtol=1e-8, atol=1e-8)


class _Years:
    def __init__(self, ny):
        self.y0, self.y1 = ny
        self.years = range(ny[0], ny[1] + 1)


COMP = ("CO2", "CH4", "BC", "SO4_IND")
SIGN = {"CO2": 1, "BC": 1, "SO4_IND": -1, "CH4": 1, "OC_Asia": -1, "SO2F2": 1, "SO2_Europe": -1, "TROP_O3": 1}


def cases(tier):
    return [
        Case("single", forced, dict()),
        Case("single-udm", forced, dict(thermal="default")),
        Case("single-longer", forced, dict(years=range(1998, 2003))),
        Case("array", forced, dict(form="array", thermal="default")),
        Case("components", forced, dict(cols=("CO2", "CH4", "OTHER"), years=(1996, 1997, 1998, 1999, 2000, 2001))),
        Case("components-unordered", forced, dict(cols=("CO2", "CH4"), years=(2000, 1998, 1999), thermal="default")),
        Case("aerosols", forced, dict(cols=COMP, signs=SIGN, delta=0.4)),
        Case("aerosols-udm", forced, dict(cols=COMP, signs=SIGN, delta=0.4, thermal="default", ny=(1998, 1999))),
        Case("aerosols-regional", forced, dict(cols=("CO2", "OC_Asia", "SO2_Europe", "SO2F2", "TROP_O3"), signs=SIGN, delta=0.4, ny=(1998, 1999))),
        Case("aerosols-signs", forced, dict(cols=("CO2", "BC", "NH3"), signs={"CO2": 1}, delta=0.4, ny=(1998, 1998))),
        Case("weight", forced, dict(cols=COMP + ("w_aero",), delta=0.4)),
        Case("total", forced, dict(cols=("total",), thermal="default")),
        Case("total-components", forced, dict(cols=("CO2", "BC", "total"), signs=SIGN, delta=0.4)),
        Case("hemispheres", forced, dict(cols=("FORC_NH", "FORC_SH"), thermal="default")),
        Case("hemispheres-weight", forced, dict(cols=("FORC_SH", "FORC_NH", "w_aero"), delta=0.4, years=(1999, 2000, 1998, 2001))),
        Case("hemispheres-total", forced, dict(cols=("total", "FORC_NH", "FORC_SH"))),
        Case("frame", forced, dict(form="frame", cols=("total", "FORC_NH", "FORC_SH", "w_aero"), delta=0.4, thermal="default", years=(1997, 1998, 1999, 2000, 2001))),
    ]

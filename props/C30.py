"""C30: what happens later changes nothing earlier: results of a year are the same wherever the run ends and whatever follows"""
import os

import numpy as np
import pandas as pd

from engine.runner import Case
from props.common import Scenario, put

BOUNDS = (
    "runs of 2 to 4 years against runs 1 to 3 years longer, whose emissions, concentrations, solar, land use, volcanic and perturbation values after the end of the shorter "
    "run are arbitrary; both thermal models, both carbon cycles, emission-driven, concentration-driven with back-calculated carbon outputs, forcing-driven; some values of the common years arbitrary"
)
OUTSIDE = "reference years that lie after the end of the shorter run; longer runs"
ASSUMPTIONS = []


def frame(ctx, years, tag, ncol, lo, hi, free):
    df = pd.DataFrame(np.zeros((len(years), ncol)), index=list(years))
    for i, y in enumerate(years):
        for j in range(ncol):
            put(ctx, df, y, j, ctx.real(f"{tag}{y}_{j}", lo, hi) if free(y, j) else round(-0.01 * (7 * i + 3 * j + len(tag)) - 0.05, 3))
    return df


def series(res):
    """everything reported, by name: list over years"""
    out = {}
    for k, v in res.items():
        if isinstance(v, pd.DataFrame):
            for c in v.columns:
                out[f"{k} {c}"] = list(v[c])
        elif hasattr(v, "__len__") and not isinstance(v, str):
            out[k] = list(v)
    return out


def compare(ctx, short, long, n):
    a, b = series(short), series(long)
    ctx.same("the same quantities", sorted(a), sorted(b))
    for k in a:
        ctx.true(f"{k}: one value per year", len(a[k]) == n and len(b[k]) > n)
        for i in range(n):
            x, y = a[k][i], b[k][i]
            if isinstance(x, str) or isinstance(y, str):
                ctx.same(f"{k} year {i}", x, y)
            elif isinstance(x, float) and x != x:
                ctx.true(f"{k} year {i} undefined", y != y)
            else:
                ctx.eq(f"{k} year {i}", y, x, rtol=1e-9, atol=1e-9)


def follow(
    ctx, thermal="twolayer", carbon="box", ny=(1998, 2000), more=1, emstart=1999, conc_run=False, gases=("SO2", "CH4", "NOx", "CFC-11"), early=(), carbon_out=False, pert=False,
    forcpert=False, ncol=1, pam_th=None, pam_cc=None, levels=("CH4", "N2O", "CFC-11"), sun=True,
):
    def one(last):
        s = Scenario(ctx, ny=(ny[0], ny[1] + more), emstart=emstart, carbon=carbon)
        late = range(ny[1] + 1, ny[1] + more + 1)
        for y in late:
            for g in gases:
                put(ctx, s.em, y, g, ctx.real(f"em {g} {y}", 0.0, 300.0))
            for g in levels:
                put(ctx, s.conc, y, g, ctx.real(f"conc {g} {y}", 1.0, 3000.0))
            put(ctx, s.natch4, y, "CH4", ctx.real(f"nat CH4 {y}", 50, 500))
            put(ctx, s.natn2o, y, "N2O", ctx.real(f"nat N2O {y}", 2, 20))
        for g, y in early:
            put(ctx, s.em, y, g, ctx.real(f"em {g} {y}", 0.5, 300.0))
        free = lambda y, j: (y in late or y == ny[0]) and j == 0 if sun else False  # noqa: E731
        yrs = range(ny[0], last + 1)
        full = list(s.years)
        for k, tag, c, lo, hi in (("rf_sun_data", "sun", 1, -1, 1), ("rf_luc_data", "luc", 1, -1, 1), ("rf_volc_n_data", "vn", ncol, -5, 1), ("rf_volc_s_data", "vs", ncol, -5, 1)):
            s.extra[k] = frame(ctx, full, tag, c, lo, hi, free).loc[list(yrs)]
        s.extra.update(sunvolc=1, conc_run=conc_run, thermal_model=thermal, idtm=2, nystart=ny[0], nyend=last)
        if pert:
            df = pd.DataFrame({"year": [full[-1], full[1], full[-1]], "component": ["SO2", "SO2", "CH4"], "emission": 0.0})
            for i in range(3):
                put(ctx, df, i, "emission", ctx.real(f"pert{i}", -1.0, 2.0))
            s.extra["perturb_em_data"] = df[df["year"] <= last].reset_index(drop=True)
        if forcpert:
            df = pd.DataFrame({"year": [full[-1], full[1], full[-1]], "component": ["CO2", "CFC-11", "BC"], "forcing": 0.0})
            for i in range(3):
                put(ctx, df, i, "forcing", ctx.real(f"fp{i}", -1.0, 1.0))
            s.extra["perturb_forc_data"] = df[df["year"] <= last].reset_index(drop=True)
        s.em = s.em.loc[list(yrs)]
        s.conc = s.conc.loc[list(yrs)]
        s.natch4, s.natn2o = s.natch4.loc[list(yrs)], s.natn2o.loc[list(yrs)]
        s.objectify()
        th = {"lm": 9, "ldtime": 2, "delta_lambda_aero": 0.3} if thermal == "default" else {"delta_lambda_aero": 0.3}
        th.update(pam_th or {})
        m = ctx.mod("ciceroscm").CICEROSCM(s.cfg())
        out = {"results_as_dict": True}
        if carbon_out:
            out["carbon_cycle_outputs"] = True
        m._run(out, pamset_udm=th, pamset_emiconc={"ref_yr": ny[0] + 1, "idtm": 2}, pamset_carbon=dict(pam_cc or {}))
        return m.results

    compare(ctx, one(ny[1]), one(ny[1] + more), ny[1] - ny[0] + 1)


def forced(ctx, thermal="twolayer", ny=(1998, 2000), more=1, cols=("FORC_NH", "FORC_SH"), form="frame", delta=0.0):
    free = lambda y, j: True  # noqa: E731

    def one(last):
        yrs = list(range(ny[0], last + 1))
        forc = frame(ctx, yrs, "f", len(cols), *((0.1, 5.0) if form == "file" else (-5.0, 5.0)), free)
        cfg = {"nystart": ny[0], "nyend": last, "sunvolc": 1, "thermal_model": thermal}
        for k, tag, lo, hi in (("rf_sun_data", "sun", -1, 1), ("rf_volc_n_data", "vn", -5, 1), ("rf_volc_s_data", "vs", -5, 1)):
            cfg[k] = frame(ctx, yrs, tag, 1, lo, hi, free)
        if form == "array":
            cfg["forc_data"] = ctx.array([forc.loc[y, 0] for y in yrs])
        elif form == "frame":
            cfg["forc_data"] = forc.rename(columns=dict(enumerate(cols)))
        else:
            cfg["forc_file"] = os.path.join(ctx.scratch(), "forcing.txt")
            with open(cfg["forc_file"], "w", encoding="utf-8") as f:
                f.write(",".join(("year",) + cols) + "\n")
                for y in yrs:
                    f.write(",".join([str(y)] + [ctx.text(forc.loc[y, j]) for j in range(len(cols))]) + "\n")
        m = ctx.mod("ciceroscm").CICEROSCM(cfg)
        th = {"delta_lambda_aero": delta}
        if thermal == "default":
            th.update(lm=9, ldtime=2)
        m._run({"results_as_dict": True}, pamset_udm=th)
        return m.results

    compare(ctx, one(ny[1]), one(ny[1] + more), ny[1] - ny[0] + 1)


def backwards(ctx, carbon="default", n=3, more=1):
    """emissions back-calculated for a year do not depend on later levels"""
    cm = ctx.mod("carbon_cycle.carbon_cycle_mod") if carbon == "default" else ctx.mod("carbon_cycle.carbon_cycle_mod_box")
    base = [278.0, 278.6, 279.1, 279.9, 280.1, 281.0][: n + more]
    late = [x if i < n else ctx.real(f"c{i}", x - 1e-9, x + 1e-9) for i, x in enumerate(base)]

    def one(levels):
        m = cm.CarbonCycleModel({"nystart": 1850, "nyend": 1850 + n + more - 1, "idtm": 1})
        return list(m.back_calculate_emissions(ctx.array(levels)))

    a, b = one(base[:n]), one(late)
    for i in range(n):
        ctx.eq(f"emissions {i}", b[i], a[i], rtol=1e-9, atol=1e-9)


def cases(tier):
    out = [
        Case("em-box", follow, dict()),
        Case("em-box-two", follow, dict(more=2, pert=True, forcpert=True)),
        Case("em-default", follow, dict(carbon="default", gases=("SO2", "CH4"), carbon_out=True)),
        Case("em-udm", follow, dict(thermal="default", ncol=3)),
        Case("em-start", follow, dict(emstart=2001, more=2)),
        Case("em-before", follow, dict(emstart=1998, more=1, gases=("CO2_FF", "CO2_AFOLU", "N2O", "NOx", "BC", "HFC125"))),
        Case("em-long", follow, dict(ny=(1998, 2003), more=1)),
        Case("conc-box", follow, dict(conc_run=True, ny=(1998, 2001), more=2, early=(("SO2", 1999), ("NOx", 2000)))),
        Case("conc-udm", follow, dict(conc_run=True, thermal="default", levels=("CO2", "CH4", "N2O", "CFC-11"))),
        Case("conc-long", follow, dict(conc_run=True, ny=(1998, 2004), more=4, levels=("CFC-11", "CFC-12", "H-1211", "CH4"))),
        Case("conc-default-out", follow, dict(conc_run=True, carbon="default", carbon_out=True, gases=("NH3",), levels=(), sun=False)),
        Case("forc-array", forced, dict(more=2, form="array", cols=("total",))),
        Case("forc-hemi", forced, dict(cols=("total", "FORC_NH", "FORC_SH"), delta=0.2)),
        Case("forc-udm", forced, dict(thermal="default", cols=("FORC_SH", "total", "FORC_NH"))),
        Case("forc-parts", forced, dict(form="file", cols=("CO2", "BC", "CH4"), delta=0.3)),
        Case("backwards", backwards, dict()),
    ]
    if tier == "thorough":
        out += [
            Case("em-longer", follow, dict(ny=(1998, 2003), more=4), time_limit=300),
            Case("em-default-long", follow, dict(carbon="default", ny=(1998, 2002), more=2, gases=("SO2", "CH4"), carbon_out=True), time_limit=300),
            Case("udm-long", follow, dict(thermal="default", ncol=12, ny=(1998, 2001), more=2, pam_th={"lm": 40, "ldtime": 12}), time_limit=300),
        ]
    return out

"""C31: gases keep to themselves: the order of gases in tables is irrelevant and a gas acts on others only where chemistry says so"""
import pandas as pd

from engine.runner import Case
from props.C23 import data
from props.C30 import series
from props.common import Scenario, put

BOUNDS = (
    "runs of 3 and 4 years; rows of the gas table, columns of the emissions and concentrations in the given, reversed and a rotated order; gases left out of the tables one at a "
    "time (every kind: linear gas with and without halogens, aerosol, regional aerosol); levels or emissions of one gas at a time arbitrary in every year, as are emissions and "
    "levels of some other gases; whole runs with both thermal models and both carbon cycles, and the emissions and concentrations part alone with given temperatures"
)
OUTSIDE = "gas tables without CO2, CH4 or N2O, or that do not begin with CO2; leaving out more than one gas"
ASSUMPTIONS = []


def equal(ctx, tag, x, y):
    if isinstance(x, str) or isinstance(y, str):
        ctx.same(tag, x, y)
    elif isinstance(x, float) and x != x:
        ctx.true(f"{tag} undefined", y != y)
    else:
        ctx.eq(tag, y, x, rtol=1e-9, atol=1e-9)


def arranged(names, order):
    names = list(names)
    head, rest = names[:1], names[1:]
    if order == "reversed":
        rest = rest[::-1]
    elif order == "rotated":
        k = len(rest) // 3
        rest = rest[k:] + rest[:k]
    return head + rest


def columns(names, order):
    names = list(names)
    return names[::-1] if order == "reversed" else names[len(names) // 3 :] + names[: len(names) // 3]


def order(ctx, order="reversed", what=("gas", "em", "conc"), gas="v1", thermal="twolayer", carbon="box", conc_run=False, emstart=1999, ny=(1998, 2001), free=(), carbon_out=False, early=False, delta=0.3):
    def one(kind):
        s = Scenario(ctx, gas=gas, ny=ny, emstart=emstart, carbon=carbon)
        for g in free:
            years = list(s.years) if early or conc_run else [ny[1]]
            for y in years:
                if g in s.em.columns:
                    put(ctx, s.em, y, g, ctx.real(f"em {g} {y}", 0.0, 300.0))
                if g in s.conc.columns and g != "CO2":
                    put(ctx, s.conc, y, g, ctx.real(f"conc {g} {y}", 1.0, 3000.0))
        s.extra.update(data(ctx, s, 1, ()))
        s.extra.update(sunvolc=1, conc_run=conc_run, thermal_model=thermal, idtm=2)
        if kind:
            if "gas" in what:
                s.gas = s.gas.loc[arranged(s.gas.index, kind)]
            if "em" in what:
                s.em = s.em[columns(s.em.columns, kind)]
            if "conc" in what:
                s.conc = s.conc[columns(s.conc.columns, kind)]
        s.objectify()
        m = ctx.mod("ciceroscm").CICEROSCM(s.cfg())
        th = {"lm": 9, "ldtime": 2, "delta_lambda_aero": delta} if thermal == "default" else {"delta_lambda_aero": delta}
        out = {"results_as_dict": True}
        if carbon_out:
            out["carbon_cycle_outputs"] = True
        m._run(out, pamset_udm=th, pamset_emiconc={"ref_yr": ny[0] + 1, "idtm": 2})
        return series(m.results)

    a, b = one(None), one(order)
    ctx.same("the same quantities", sorted(a), sorted(b))
    for k in a:
        ctx.true(f"{k}: a value for every year", len(a[k]) == len(b[k]))
        for i, x in enumerate(a[k]):
            equal(ctx, f"{k} {ny[0] + i}", x, b[k][i])


HALOGEN = ("CFC", "HCFC", "H-", "CCl", "CH3Cl", "CH3CCl", "CH3Br", "CH2Cl", "CHCl")


def left_out(ctx, out="HFC125", gas="v1", conc_run=False, emstart=1999, ny=(1998, 2001), free=("SO2", "CFC-11"), regional=False):
    """the same run without one gas: all others as before, totals less its part"""
    s0 = Scenario(ctx, gas=gas, ny=ny)
    names = [g for g in s0.gas.index if g != out]

    def one(without):
        s = Scenario(ctx, gas=gas, ny=ny, emstart=emstart, carbon="box")
        if regional:
            for i, r in enumerate(("SO2_ASIA", "BC_OECD", "SO2_LAM")):
                s.gas.loc[r] = s.gas.loc[r.split("_")[0]]
                s.gas.loc[r, "ALPHA"] = -0.004 + 0.02 * i
                s.em[r] = [3.0 + i + 0.2 * j for j in range(ny[1] - ny[0] + 1)]
        for g in set(free) | {out}:
            for y in s.years:
                if g in s.em.columns:
                    put(ctx, s.em, y, g, ctx.real(f"em {g} {y}", 0.0, 300.0))
                if g in s.conc.columns:
                    put(ctx, s.conc, y, g, ctx.real(f"conc {g} {y}", 1.0, 3000.0))
        s.extra.update(conc_run=conc_run)
        s.pam = {"ref_yr": ny[0] + 1, "idtm": 2, "conc_run": conc_run}
        if without:
            s.gas = s.gas.drop(index=[out])
            s.em = s.em.drop(columns=[c for c in (out,) if c in s.em.columns])
            s.conc = s.conc.drop(columns=[c for c in (out,) if c in s.conc.columns])
        res = s.run(dtemp={y: 0.1 * i for i, y in enumerate(s.years)}, sun={y: 0.05 for y in s.years})
        return res, s.rets

    (full, frets), (less, lrets) = one(False), one(True)
    halogen = out.startswith(HALOGEN)
    agent = {"SO2": ("SO4_DIR", "SO4_IND"), "BMB_AEROS_OC": ("BMB_AEROS",), "BMB_AEROS_BC": ()}.get(out, (out,))
    ctx.true("its forcing is reported", all(a in full["forcing"].columns for a in agent))
    for part in ("concentrations", "emissions", "forcing"):
        for c in less[part].columns:
            ctx.true(f"{part} {c} reported with it too", c in full[part].columns)
            if c == "Total_forcing" or (c == "STRAT_O3" and halogen):
                continue
            for y in s0.years:
                equal(ctx, f"{part} {c} {y}", less[part].loc[y, c], full[part].loc[y, c])
        ctx.same(f"{part}: only the gas itself is gone", sorted(set(full[part].columns) - set(less[part].columns)), [out] if out in full[part].columns else [])
    for y in s0.years:
        own = 0
        for a in agent + (("STRAT_O3",) if halogen else ()):
            own = own + full["forcing"].loc[y, a] - (less["forcing"].loc[y, a] if a == "STRAT_O3" else 0)
        ctx.eq(f"total {y}", full["forcing"].loc[y, "Total_forcing"], less["forcing"].loc[y, "Total_forcing"] + own, rtol=1e-9, atol=1e-9)
        ctx.eq(f"total handed on {y}", frets[y][0], lrets[y][0] + own, rtol=1e-9, atol=1e-9)
        ctx.eq(f"hemispheres {y}", frets[y][1] + frets[y][2], lrets[y][1] + lrets[y][2] + 2 * own, rtol=1e-9, atol=1e-9)
    ctx.true("names", len(names) > 10)


def cases(tier):
    out = [
        Case("order-em", order, dict(free=("SO2", "CH4"))),
        Case("order-em-gas", order, dict(what=("gas",), order="rotated", free=("CFC-11", "NOx"))),
        Case("order-em-files", order, dict(what=("em", "conc"), order="rotated", free=("HFC125", "N2O"))),
        Case("order-em-ar6", order, dict(gas="ar6", free=("SO2",))),
        Case("order-em-wmo", order, dict(gas="wmo", order="rotated", free=("BC",))),
        Case("order-default", order, dict(carbon="default", free=("SO2",), carbon_out=True)),
        Case("order-udm", order, dict(thermal="default", ny=(1998, 2000))),
        Case("order-conc", order, dict(conc_run=True, free=("CH4", "CFC-11", "CO"), delta=0.0)),
        Case("order-conc-ozone", order, dict(conc_run=True, order="rotated", ny=(1998, 2003), free=("CFC-12", "N2O"), delta=0.0)),
        Case("order-conc-out", order, dict(conc_run=True, carbon="default", carbon_out=True, ny=(1998, 2000))),
    ]
    for g in ("HFC125", "SF6", "CFC-113", "H-1211", "CH3Br", "CCl4"):
        out.append(Case(f"without-{g}", left_out, dict(out=g)))
        out.append(Case(f"without-{g}-conc", left_out, dict(out=g, conc_run=True)))
    for g in ("NH3", "NMVOC_", "OC", "BC"):
        if not g.endswith("_"):
            out.append(Case(f"without-{g}", left_out, dict(out=g, conc_run=g == "BC")))
    out.append(Case("without-regional", left_out, dict(out="SO2_ASIA", regional=True)))
    if tier == "thorough":
        for gl in ("v1", "ar6", "wmo"):
            from props.common import gaspam

            g_ = gaspam(gl)
            for g in g_.index:
                if g_.loc[g, "CONC_UNIT"] != "-" and g not in ("CO2", "CH4", "N2O"):
                    out.append(Case(f"without-{gl}-{g}", left_out, dict(out=g, gas=gl, ny=(1998, 2002))))
    return out

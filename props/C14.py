"""C14: emission perturbations are added once, to the right gas and year, and nowhere else"""
import pandas as pd

from engine.runner import Case
from props.common import Scenario, put, sym_around

BOUNDS = (
    "perturbation tables with up to 8 rows, including repeated rows for one gas and year, rows outside the emission-driven years and CO2 rows; perturbation sizes arbitrary "
    "within +-50 units, base emissions arbitrary; tables in any row order; three gas lists"
)
OUTSIDE = "perturbations of gases or years the scenario does not have"
ASSUMPTIONS = []


def build(ctx, gas, ny, emstart, rows, perturbed):
    s = Scenario(ctx, gas, ny, emstart, "box")
    s.pam["lifetime_mode"] = "CONSTANT_12"
    cells = {}
    for y, g in rows:
        col = "CO2_FF" if g == "CO2" else g
        if (y, col) not in cells:
            cells[(y, col)] = sym_around(ctx, s.em, y, col, "e", 0.0, 3.0, 0.0, 5.0)
    vals = [ctx.real(f"p{i}", -50.0, 50.0) for i in range(len(rows))]
    if perturbed:
        df = pd.DataFrame({"component": [g for _, g in rows], "year": [y for y, _ in rows], "emission": 0.0})
        for i, v in enumerate(vals):
            put(ctx, df, i, "emission", v)
        s.extra["perturb_em_data"] = df
    else:
        for (y, g), v in zip(rows, vals):
            col = "CO2_FF" if g == "CO2" else g
            put(ctx, s.em, y, col, s.em.loc[y, col] + v)
    return s


def perturb(ctx, gas="v1", ny=(1998, 2002), emstart=2000, rows=()):
    """the perturbed run equals the run whose emissions already contain the changes"""
    a, b = build(ctx, gas, ny, emstart, rows, True), build(ctx, gas, ny, emstart, rows, False)
    want = b.em.copy()
    ha, hb = a.handler(), b.handler()
    for y in a.years:
        ha.emi2conc(y)
        hb.emi2conc(y)
    ra, rb = ha.add_results_to_dict({}), hb.add_results_to_dict({})
    for y in a.years:
        for g in ra["emissions"].columns:
            if g == "Year":
                continue
            exp = want.loc[y, "CO2_FF"] + want.loc[y, "CO2_AFOLU"] if g == "CO2" else want.loc[y, g]
            ctx.eq(f"emissions of {g} {y}", ra["emissions"].loc[y, g], exp)
        for g in ra["concentrations"].columns:
            if g in ("Year", "TROP_O3"):
                continue
            ctx.eq(f"concentration of {g} {y}", ra["concentrations"].loc[y, g], rb["concentrations"].loc[y, g], rtol=1e-9, atol=1e-9)


def aerosol(ctx, gas="v1", ny=(1998, 2000), rows=()):
    """also for what is driven by the emissions themselves, before the emission start too"""
    a, b = build(ctx, gas, ny, 2050, rows, True), build(ctx, gas, ny, 2050, rows, False)
    ra, rb = a.run(), b.run()
    for y in a.years:
        for g in ra["forcing"].columns:
            if g != "Year":
                ctx.eq(f"forcing of {g} {y}", ra["forcing"].loc[y, g], rb["forcing"].loc[y, g], rtol=1e-9, atol=1e-9)
        ctx.eq(f"forcing {y}", list(a.rets[y][:3]), list(b.rets[y][:3]), rtol=1e-9, atol=1e-9)


def cases(tier):
    return [
        Case("gases", perturb, dict(rows=((2000, "CH4"), (2001, "N2O"), (2002, "CFC-11"), (2001, "SF6")))),
        Case("repeated", perturb, dict(rows=((2001, "CH4"), (2001, "CH4"), (2000, "HFC134a"), (2000, "HFC134a"), (2000, "HFC134a"), (2001, "HFC134a")))),
        Case("co2", perturb, dict(rows=((2001, "CO2"), (2000, "CO2_AFOLU"), (2002, "CO2_FF"), (2001, "CO2")))),
        Case("early", perturb, dict(rows=((1998, "CFC-11"), (1999, "CH4"), (1998, "CO2"), (2002, "CH3Br")))),
        Case("order", perturb, dict(rows=((2002, "CFC-12"), (2000, "CFC-12"), (2001, "N2O"), (2000, "N2O"), (2001, "CFC-12")))),
        Case("wmo", perturb, dict(gas="wmo", rows=((2000, "CH2Cl2"), (2001, "SO2"), (2002, "CH4"), (2002, "CO")))),
        Case("aerosols", aerosol, dict(rows=((1999, "SO2"), (2000, "BC"), (1998, "OC"), (2000, "NOx"), (2000, "SO2")))),
        Case("aerosols-first-year", aerosol, dict(rows=((1998, "SO2"), (1998, "SO2"), (1998, "BC")))),
    ]

"""C15: forcing perturbations are added once, to the right agent and year, and to the totals"""
import pandas as pd

from engine.runner import Case
from props.common import put
from props.C12 import NORTH
from props.forcing import column, reported, scenario

BOUNDS = (
    "perturbation tables with up to 8 rows: all kinds of agents (main gases, linear gases, stratospheric ozone, aerosols, ozone, land use, other), repeated rows for one "
    "agent and year, any row order; sizes arbitrary within +-5 W/m2; methane and sulphur free"
)
OUTSIDE = "perturbations of agents or years the run does not have"
ASSUMPTIONS = []


def perturb(ctx, gas="v1", ny=(1998, 2000), rows=(), one=None, conc=("CH4",)):
    def make(with_pert):
        s = scenario(ctx, gas, ny, conc=conc, em=("SO2",))
        if one:
            s.pam["just_one"] = one
        if with_pert:
            df = pd.DataFrame({"year": [y for y, _ in rows], "component": [g for _, g in rows], "forcing": 0.0})
            for i in range(len(rows)):
                put(ctx, df, i, "forcing", ctx.real(f"p{i}", -5.0, 5.0))
            s.extra["perturb_forc_data"] = df
        return s, s.run()

    a, ra = make(True)
    b, rb = make(False)
    vals = [ctx.real(f"p{i}", -5.0, 5.0) for i in range(len(rows))]
    agents = [g for g in b.gas.index]
    for y in a.years:
        want = reported(rb, y)
        tot, north, south = b.rets[y][:3]
        for (yr, g), v in zip(rows, vals):
            if yr != y:
                continue
            name = "SO4_DIR" if g == "SO2" else g
            want[name] = want[name] + v
            if one is None or g == one:
                w = NORTH.get(name, 1.0)
                tot, north, south = tot + v, north + w * v, south + (2.0 - w) * v
        got = reported(ra, y)
        for g in want:
            ctx.eq(f"forcing of {g} {y}", got[g], want[g], rtol=1e-9, atol=1e-9)
        ctx.eq(f"total forcing {y}", ra["forcing"].loc[y, "Total_forcing"], tot, rtol=0, atol=1e-8)
        ctx.eq(f"northern forcing {y}", a.rets[y][1], north, rtol=0, atol=1e-8)
        ctx.eq(f"southern forcing {y}", a.rets[y][2], south, rtol=0, atol=1e-8)
    for y in a.years:
        for g in ra["concentrations"].columns:
            if g != "Year" and g in conc:
                ctx.eq(f"concentration of {g} {y}", ra["concentrations"].loc[y, g], rb["concentrations"].loc[y, g])


def cases(tier):
    return [
        Case("yearly", perturb, dict(rows=((1999, "CO2"), (2000, "SO2"), (1999, "TROP_O3"), (2000, "LANDUSE"), (1998, "OTHER")))),
        Case("yearly-repeated", perturb, dict(rows=((1999, "CO2"), (1999, "CO2"), (2000, "BC"), (1999, "BC"), (2000, "BC")))),
        Case("linear", perturb, dict(rows=((1999, "CFC-11"), (2000, "SF6"), (2000, "CFC-11"), (1998, "HFC134a")))),
        Case("linear-repeated", perturb, dict(rows=((1999, "CFC-11"), (1999, "CFC-11"), (2000, "SF6"), (2000, "SF6"), (2000, "SF6")))),
        Case("linear-unordered", perturb, dict(rows=((2000, "CFC-12"), (1998, "CFC-12"), (1999, "CFC-12"), (1999, "CH4")))),
        Case("ozone-water", perturb, dict(rows=((1999, "STRAT_O3"), (2000, "STRAT_O3"), (1999, "STRAT_H2O"), (2000, "CH4")))),
        Case("aerosols", perturb, dict(rows=((1999, "OC"), (1999, "SO4_IND"), (2000, "BMB_AEROS"), (2000, "NH3"), (2000, "NOx")))),
        Case("single", perturb, dict(one="CO2", rows=((1999, "CO2"), (1999, "SO2"), (2000, "CFC-11")))),
        Case("wmo", perturb, dict(gas="wmo", rows=((1999, "CH2Cl2"), (2000, "N2O"), (2000, "CH2Cl2"), (1999, "BC")))),
    ]

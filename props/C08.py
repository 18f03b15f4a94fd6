"""C08: prescribed concentrations are used exactly when they should be"""
from engine.runner import Case
from props.common import Scenario, put, sym_around

BOUNDS = (
    "runs of 4 to 6 years, every prescribed concentration of every gas and year symbolic from 0 to about 3 times its tabulated value, CO2 and other emissions "
    "symbolic; concentration-driven runs, emission-driven runs with the emission start before, inside, at the end of and after the simulated period; three gas lists"
)
OUTSIDE = "input tables that start before the simulated period"
ASSUMPTIONS = []


def prescribed(ctx, gas="v1", ny=(1998, 2003), emstart=2000, conc_run=False, carbon="box", gases=None, temps=False):
    s = Scenario(ctx, gas, ny, emstart, carbon)
    s.pam["lifetime_mode"] = "CONSTANT_12"
    if conc_run:
        s.extra["conc_run"] = True
    names = [g for g in s.gas.index if g in s.conc.columns]
    last = ny[1] if conc_run else min(ny[1], emstart - 1)
    for g in names:
        if gases is not None and g not in gases:
            continue
        for y in s.years:
            sym_around(ctx, s.conc, y, g, "c", 0.3, 3.0, 0.05, 1.0)
        for y in s.years:
            if g == "CO2":
                sym_around(ctx, s.em, y, "CO2_FF", "e", 0.0, 3.0)
            else:
                sym_around(ctx, s.em, y, g, "e", 0.0, 3.0, 0.0, 5.0)
    want = s.conc.copy()
    h = s.handler()
    dt = {y: ctx.real(f"dT_{y}", -1.0, 5.0) for y in s.years} if temps else None
    for y in s.years:
        if y <= last:
            h.emi2conc(y, None if dt is None else {"dtemp": dt[y]})
    if last == ny[1]:
        conc = h.add_results_to_dict({})["concentrations"]
        get = lambda g, y: conc.loc[y, g]  # noqa: E731
    else:
        # the emission-driven years are not looked at, so they need not be run
        get = lambda g, y: h.conc[g][y] if g in h.conc else h.precalc_dict["precalc_conc"].loc[y, g]  # noqa: E731
    for g in names:
        if g == "CO2" and not conc_run:
            continue
        for y in range(ny[0], last + 1):
            ctx.eq(f"{g} {y} is the prescribed value", get(g, y), want.loc[y, g])


def takeover(ctx, gas="v1", ny=(1998, 2001), emstart=2001, gases=("CFC-11", "HFC134a", "N2O", "CH3Br")):
    """the first emission-driven year follows the emissions, whatever is prescribed for it"""
    s = Scenario(ctx, gas, ny, emstart, "box")
    s.pam["lifetime_mode"] = "CONSTANT_12"
    year = max(emstart, ny[0])
    first = max(year - 1, ny[0])
    for g in gases:
        for y in s.years:
            sym_around(ctx, s.conc, y, g, "c", 0.3, 3.0, 0.05, 1.0)
        sym_around(ctx, s.em, year, g, "e", 0.0, 3.0, 0.0, 5.0)
    gasp, em, conc0 = s.gas.copy(), s.em.copy(), s.conc.copy()
    nat = s.natn2o.copy()
    conc = s.run()["concentrations"]
    for g in gases:
        q = 1.0 / gasp.loc[g, "TAU1"]
        n = nat.loc[year, "N2O"] if g == "N2O" else gasp.loc[g, "NAT_EM"]
        level = (em.loc[year, g] + n) / gasp.loc[g, "BETA"] / q
        prev = conc0.loc[first, g]
        ctx.eq(f"{g} {year} follows its emissions", conc.loc[year, g], level + (prev - level) * ctx.exp(-q), rtol=1e-9, atol=1e-9)


def cases(tier):
    out = [
        Case("concrun-v1", prescribed, dict(conc_run=True, ny=(1998, 2001))),
        Case("concrun-wmo", prescribed, dict(conc_run=True, gas="wmo", ny=(1999, 2003), gases=("CO2", "CH4", "N2O", "CFC-11", "SF6", "HFC134a"))),
        Case("concrun-ar6-default", prescribed, dict(conc_run=True, gas="ar6", carbon="default", ny=(1999, 2002), gases=("CO2", "CH4", "N2O", "CFC-12", "CF4"))),
        Case("concrun-earlystart", prescribed, dict(conc_run=True, emstart=1998, ny=(1998, 2001))),
        Case("before-v1", prescribed, dict()),
        Case("before-wmo", prescribed, dict(gas="wmo", emstart=2002)),
        Case("before-temps", prescribed, dict(emstart=2002, temps=True, gases=("CO2", "CH4", "N2O", "CFC-11"))),
        Case("never-v1", prescribed, dict(emstart=2050, gases=("CH4", "N2O", "CFC-11", "CH3Cl", "HFC23"))),
        Case("takeover-mid", takeover, dict(ny=(1998, 2003))),
        Case("takeover-last", takeover, dict(ny=(1998, 2001), emstart=2001)),
        Case("takeover-before", takeover, dict(ny=(1998, 2001), emstart=1996)),
        Case("takeover-first", takeover, dict(ny=(1998, 2001), emstart=1998)),
    ]
    return out

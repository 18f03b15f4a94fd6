"""C12: total and hemispheric forcing are the sums of the reported agents"""
from engine.runner import Case
from props.common import put
from props.forcing import reported, scenario

BOUNDS = (
    "3 to 5 simulated years, concentration-driven and emission-driven; concentrations of CO2, CH4, N2O and several linear gases, emissions of all aerosols and ozone "
    "precursors, land-use and solar forcing arbitrary in every year; regional aerosol entries; single-agent runs for every agent that can be selected"
)
OUTSIDE = "selecting a linear gas or stratospheric ozone as the single agent"
ASSUMPTIONS = []
NORTH = {g: 1.47 for g in ("SO4_DIR", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_OC", "BMB_AEROS_BC")}
NORTH.update({"TROP_O3": 1.45, "LANDUSE": 1.42})
SCALE = 1e-8


def totals(ctx, gas="v1", ny=(1998, 2000), conc=("CO2", "CH4"), em=("SO2", "BC", "OC", "NOx"), conc_run=True, emstart=None, one=None, regional=(), carbon="box", pert=None):
    s = scenario(ctx, gas, ny, carbon, conc=conc, em=em, conc_run=conc_run)
    if emstart:
        s.emstart = emstart
        s.pam["lifetime_mode"] = "CONSTANT_12"
    s.pam["qbmb"] = ctx.real("qbmb", -0.1, 0.1)
    for src, reg in regional:
        name = f"{src}_{reg}"
        s.gas.loc[name] = s.gas.loc[src]
        put(ctx, s.gas, name, "ALPHA", ctx.real(f"alpha_{name}", 0.001, 0.1))
        for y in s.years:
            s.em.loc[y, name] = 0.0
        for y in s.years:
            put(ctx, s.em, y, name, ctx.real(f"e_{name}_{y}", 0.0, 30.0))
    if one:
        s.pam["just_one"] = one
    luc = {y: ctx.real(f"luc_{y}", -1.0, -0.001) for y in s.years}
    sun = {y: ctx.real(f"sun_{y}", -1.0, 1.0) for y in s.years}
    res = s.run(luc=luc, sun=sun)
    for y in s.years:
        parts = reported(res, y)
        if one:
            name = "SO4_DIR" if one == "SO2" else one
            parts = {name: parts[name]}
        tot = north = south = 0.0
        for g, q in parts.items():
            w = NORTH.get(g, 1.0)
            tot, north, south = tot + q, north + w * q, south + (2.0 - w) * q
        got = s.rets[y]
        ctx.eq(f"total of the agents {y}", res["forcing"].loc[y, "Total_forcing"], tot, rtol=0, atol=SCALE)
        ctx.eq(f"total handed on {y}", got[0], tot, rtol=0, atol=SCALE)
        ctx.eq(f"northern forcing {y}", got[1], north + sun[y], rtol=0, atol=SCALE)
        ctx.eq(f"southern forcing {y}", got[2], south + sun[y], rtol=0, atol=SCALE)
        if not one:
            ctx.eq(f"land use {y}", parts["LANDUSE"], luc[y])
        for other in range(ny[0], y):
            # a later year does not touch what was reported for an earlier one
            ctx.eq(f"total {other} kept", s.rets[other][0], res["forcing"].loc[other, "Total_forcing"], rtol=0, atol=SCALE)


def cases(tier):
    aer = ("SO2", "BC", "OC", "BMB_AEROS_OC", "NH3", "NMVOC", "NOx", "CO")
    out = [
        Case("v1", totals, dict()),
        Case("v1-aerosols", totals, dict(conc=(), em=aer)),
        Case("v1-gases", totals, dict(conc=("CO2", "CH4", "N2O", "CFC-11", "HFC134a", "SF6", "H-1301"), em=())),
        Case("ar6-late", totals, dict(gas="ar6", ny=(2008, 2012), conc=("CH4",), em=("SO2", "NOx"))),
        Case("wmo-emission", totals, dict(gas="wmo", conc_run=False, emstart=1999, conc=(), em=("SO2", "OC", "SF6", "HFC32"))),
        Case("regional", totals, dict(conc=(), em=("SO2",), regional=(("SO2", "ASIA"), ("BC", "OECD"), ("OC", "LAM")))),
        Case("default-carbon", totals, dict(carbon="default", conc=("CO2",), em=("BC",))),
    ]
    for g in ("CO2", "CH4", "N2O", "SO2", "SO4_IND", "BC", "OC", "TROP_O3", "STRAT_H2O", "LANDUSE", "NH3"):
        out.append(Case(f"one-{g}", totals, dict(one=g, conc=("CH4",), em=("SO2", "NH3", "BC"))))
    return out

"""C13: the aerosol weight is the aerosol share of the summed forcing magnitudes"""
from engine.runner import Case
from props.common import put, sym_around
from props.forcing import reported, scenario

BOUNDS = (
    "3 simulated years, linear gases kept at their first-year level or free; aerosol and precursor emissions, CO2, methane, land-use and solar forcing arbitrary, "
    "forcing perturbations of aerosols and of other agents of either sign; regional aerosol entries; all factors of either sign"
)
OUTSIDE = ""
ASSUMPTIONS = []
AEROSOL = ("SO4_DIR", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_OC", "BMB_AEROS_BC", "NMVOC", "NH3", "NOx")
LINEAR_FREE = "linear gases free"


def is_aerosol(g):
    return g in AEROSOL or g.split("_")[0] in ("SO2", "BC", "OC")


def weight(ctx, gas="v1", ny=(1998, 2000), em=("SO2", "BC", "NOx"), conc=(), regional=(), pert=(), free=(), quiet=False, sunlit=True):
    s = scenario(ctx, gas, ny, em=em)
    import pandas as pd

    for g in s.vanilla():
        if g not in free:
            s.conc[g] = float(s.conc[g].iloc[0])
    for g in conc:
        for y in s.years:
            sym_around(ctx, s.conc, y, g, "c", 0.5, 2.0, 0.05, 1.0)
    for g in free:
        sym_around(ctx, s.conc, ny[1], g, "c", 0.5, 2.0, 0.05, 1.0)
    if quiet:
        # nothing changes: no forcing at all
        for df in (s.conc, s.em):
            for c in df.columns:
                df[c] = df[c].iloc[0]
    s.pam["qnh3"] = ctx.real("qnh3", -0.1, 0.1)
    s.pam["qdirso2"] = ctx.real("qdirso2", -0.1, 0.1)
    for src, reg in regional:
        name = f"{src}_{reg}"
        s.gas.loc[name] = s.gas.loc[src]
        put(ctx, s.gas, name, "ALPHA", ctx.real(f"alpha_{name}", -0.1, -0.001))
        s.em[name] = 0.0
        for y in s.years:
            put(ctx, s.em, y, name, ctx.real(f"e_{name}_{y}", 0.0, 30.0))
    if pert:
        df = pd.DataFrame({"year": [p[0] for p in pert], "component": [p[1] for p in pert], "forcing": 0.0})
        for i, p in enumerate(pert):
            put(ctx, df, i, "forcing", ctx.real(f"pert_{p[1]}_{p[0]}", -2.0, 2.0))
        s.extra["perturb_forc_data"] = df
    luc = {y: 0.0 if quiet else ctx.real(f"luc_{y}", 0.01, 0.5) for y in s.years}
    sun = {y: ctx.real(f"sun_{y}", -1.0, 1.0) for y in s.years}
    linear = s.vanilla()
    res = s.run(luc=luc, sun=sun)
    for y in s.years:
        aero = total = yearly = 0.0
        for g, q in reported(res, y).items():
            total = total + ctx.abs(q)
            if g not in linear and g != "STRAT_O3":
                yearly = yearly + ctx.abs(q)
            if is_aerosol(g):
                aero = aero + ctx.abs(q)
        w = s.rets[y][3]
        tag = f" ({LINEAR_FREE})" if free else ""
        if quiet:
            ctx.eq(f"no forcing, no weight {y}", w, 0.0)
            continue
        if free:
            off, off2 = w * total - aero, w * yearly - aero
            ctx.true(
                f"weight is the aerosol share of a sum {y}",
                ctx.either(ctx.both(off <= 1e-8, off >= -1e-8), ctx.both(off2 <= 1e-8, off2 >= -1e-8)),
            )
        ctx.eq(f"weight times magnitude = aerosol magnitude {y}{tag}", w * total, aero, rtol=0, atol=1e-8)
        # with a positive total this puts the weight between zero and one
        ctx.true(f"weight not negative {y}", w >= -1e-12)


def cases(tier):
    return [
        Case("v1", weight, dict(conc=("CO2", "CH4"))),
        Case("v1-em", weight, dict(em=("SO2", "BC", "OC", "NH3", "NMVOC", "BMB_AEROS_OC"))),
        Case("wmo", weight, dict(gas="wmo", conc=("CO2",))),
        Case("regional", weight, dict(em=("SO2",), regional=(("SO2", "ASIA"), ("BC", "OECD"), ("OC", "REF")))),
        Case("perturbed", weight, dict(em=("SO2",), pert=((1999, "SO2"), (1999, "CO2"), (2000, "BC"), (2000, "OTHER")))),
        Case("quiet", weight, dict(em=(), quiet=True)),
        Case("linear-gases", weight, dict(em=("SO2",), free=("CFC-11",))),
    ]

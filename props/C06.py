"""C06: non-CO2 gases relax exponentially towards the level their emissions sustain"""
from engine.runner import Case
from props.common import Scenario, put, sym_around

BOUNDS = (
    "3 or 4 emission-driven years from an arbitrary prescribed start level, every emission of every year symbolic from 0 to about 3 times its tabulated value; "
    "natural N2O emissions different each year; natural emissions, lifetime (0.4-60000 years) and mass-to-mixing-ratio factor symbolic for four gases; "
    "all gases of two of the gas lists shipped with the model"
)
OUTSIDE = "longer histories (each year is decided for an arbitrary level in the year before), negative emissions"
ASSUMPTIONS = []


def expected(ctx, s, g, em, prev, nat):
    q = 1.0 / s.gas.loc[g, "TAU1"]
    decay = ctx.exp(-q)
    return (em + nat) / s.gas.loc[g, "BETA"] / q * (1 - decay) + prev * decay


def relax(ctx, gas="v1", ny=(1998, 2003), emstart=2000, sympar=(), gases=None, carbon="box"):
    s = Scenario(ctx, gas, ny, emstart, carbon)
    s.pam["lifetime_mode"] = "CONSTANT_12"
    names = [g for g in s.vanilla() + ["N2O"] if gases is None or g in gases]
    for g in names:
        sym_around(ctx, s.conc, emstart - 1, g, "c", 0.3, 3.0, 0.0, 5.0)
        for y in range(emstart, ny[1] + 1):
            sym_around(ctx, s.em, y, g, "e", 0.0, 3.0, 0.0, 10.0)
        if "NAT_EM" in sympar and g != "N2O":
            put(ctx, s.gas, g, "NAT_EM", ctx.real(f"nat_{g}", 0.0, 20.0))
        if "TAU1" in sympar:
            put(ctx, s.gas, g, "TAU1", ctx.real(f"tau_{g}", 0.4, 60000.0))
        if "BETA" in sympar:
            put(ctx, s.gas, g, "BETA", ctx.real(f"beta_{g}", 1.0, 100.0))
    for y in s.years:
        put(ctx, s.natn2o, y, "N2O", ctx.real(f"natn2o_{y}", 0.0, 30.0))
    em, gasp = s.em.copy(), s.gas.copy()
    nat = {y: s.natn2o.loc[y, "N2O"] for y in s.years}
    res = s.run()
    conc = res["concentrations"]
    prev = {g: s.conc.loc[emstart - 1, g] for g in names}
    for y in range(emstart, ny[1] + 1):
        for g in names:
            n = nat[y] if g == "N2O" else gasp.loc[g, "NAT_EM"]
            ctx.eq(f"{g} {y}", conc.loc[y, g], expected(ctx, s, g, em.loc[y, g], prev[g], n), rtol=1e-9, atol=1e-9)
        prev = {g: conc.loc[y, g] for g in names}
        ctx.cut(list(prev.values()))


def cases(tier):
    out = [
        Case("v1-all", relax, dict(gas="v1")),
        Case("wmo-all", relax, dict(gas="wmo", ny=(1998, 2002))),
        Case("v1-par", relax, dict(gas="v1", ny=(1998, 2002), sympar=("NAT_EM", "TAU1", "BETA"), gases=("CFC-11", "HFC32", "N2O", "CH3Br"))),
    ]
    return out

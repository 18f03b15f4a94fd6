"""C10: halocarbon, stratospheric ozone and stratospheric water vapour forcing"""
from engine.runner import Case
from props.forcing import scenario

BOUNDS = (
    "up to 7 simulated years; concentrations of all linear gases arbitrary in every year (0.3 to 3 times tabulated); radiative efficiency, conversion factors "
    "and the methane-water factor symbolic; every sign pattern of the chlorine and bromine changes for groups of up to eight gases"
)
OUTSIDE = "all halogen gases free at once (groups of up to eight are free, the others follow the tabulated scenario)"
ASSUMPTIONS = []

# chlorine and bromine atoms of the compounds, from their chemistry
CHLORINE = {
    "CFC-11": 3, "CFC-12": 2, "CFC-113": 3, "CFC-114": 2, "CFC-115": 1, "HCFC-22": 1, "HCFC-141b": 2, "HCFC-142b": 1,
    "HCFC-123": 2, "HCFC-124": 1, "HCFC-133a": 1, "HCFC-225ca": 2, "HCFC-225cb": 2, "CFC-112": 4, "CFC-112a": 4, "CFC-113a": 3, "CFC-114a": 2,
    "CFC-13": 1, "HCFC-31": 1,
    "CH3CCl3": 3, "CCl4": 4, "CH3Cl": 1, "CH2Cl2": 2, "CHCl3": 3, "H-1211": 1,
}
BROMINE = {"H-1211": 1, "H-1301": 1, "H-2402": 2, "H-1202": 2, "CH3Br": 1, "CH2Br2": 2, "CHBr3": 3}


def linear(ctx, gas="v1", ny=(1998, 2001), gases=None, par=(), carbon="box"):
    s0 = scenario(ctx, gas, ny, carbon)
    names = [g for g in s0.vanilla() if gases is None or g in gases]
    s = scenario(ctx, gas, ny, carbon, conc=names, erf=par, alpha=par)
    g0, c = s.gas.copy(), s.conc.copy()
    # stratospheric ozone is not looked at here: keep its sign choices out of the exploration
    res = s.run()["forcing"]
    for g in names:
        for y in s.years:
            want = g0.loc[g, "SARF_TO_ERF"] * g0.loc[g, "ALPHA"] * (c.loc[y, g] - c.loc[ny[0], g])
            ctx.eq(f"{g} forcing {y}", res.loc[y, g], want, rtol=1e-9, atol=1e-10)


def ozone(ctx, gas="v1", ny=(1996, 2001), gases=(), erf=True):
    """depletion follows the halogen loading three years earlier"""
    s = scenario(ctx, gas, ny, conc=gases, years=[ny[0], ny[0] + 1, ny[0] + 2], erf=("STRAT_O3",) if erf else ())
    c, k = s.conc.copy(), s.gas.loc["STRAT_O3", "SARF_TO_ERF"]
    res = s.run()["forcing"]
    y0 = ny[0]
    for y in s.years:
        cl = br = 0.0
        if y - 3 >= y0:
            for g, m in CHLORINE.items():
                if g not in c.columns:
                    continue
                d = c.loc[y - 3, g] - c.loc[y0, g]
                if not ctx.symbolic and d == 0:
                    continue
                cl = cl + ctx.ite(d > 0, 1.0, ctx.ite(d < 0, -1.0, 0.0)) * ctx.power(m * ctx.abs(d), 1.7)
            for g, m in BROMINE.items():
                if g in c.columns:
                    br = br + m * (c.loc[y - 3, g] - c.loc[y0, g])
        want = -k * 0.05 / 0.17377 * (0.000552 * cl + 3.048 * br) / 1000.0
        ctx.eq(f"stratospheric ozone {y}", res.loc[y, "STRAT_O3"], want, rtol=1e-9, atol=1e-10)


def water(ctx, gas="v1", ny=(1998, 2001)):
    s = scenario(ctx, gas, ny, conc=("CH4", "N2O"), erf=("STRAT_H2O", "CH4"))
    q = s.pam["qh2o_ch4"] = ctx.real("qh2o", 0.0, 0.3)
    k = s.gas.loc["STRAT_H2O", "SARF_TO_ERF"]
    res = s.run()["forcing"]
    for y in s.years:
        ctx.eq(f"stratospheric water {y}", res.loc[y, "STRAT_H2O"], q * k * res.loc[y, "CH4"], rtol=1e-9, atol=1e-10)


def cases(tier):
    chl = list(CHLORINE)
    out = [
        Case("linear-v1", linear, dict(ny=(1998, 2000))),
        Case("linear-wmo", linear, dict(gas="wmo", ny=(1998, 2000))),
        Case("linear-par", linear, dict(gases=("CFC-11", "HFC134a", "SF6", "CH3Br"), par=("CFC-11", "HFC134a", "SF6", "CH3Br"))),
        Case("water-v1", water, dict()),
        Case("water-ar6", water, dict(gas="ar6", ny=(2010, 2012))),
    ]
    out.append(Case("ozone-v1-cl", ozone, dict(gases=("CFC-11", "CFC-12", "CFC-113", "CFC-114", "CFC-115", "CCl4", "CH3CCl3"), ny=(1996, 2001))))
    out.append(Case("ozone-v1-hcfc", ozone, dict(gases=("HCFC-22", "HCFC-141b", "HCFC-142b", "HCFC-123", "H-1211", "H-1301", "H-2402", "CH3Br"), ny=(1996, 2001))))
    out.append(Case("ozone-v1-start", ozone, dict(gases=("CFC-11", "H-1211"), ny=(1750, 1755))))
    out.append(Case("ozone-wmo", ozone, dict(gas="wmo", gases=("CH2Cl2", "CHCl3", "CH3Cl", "H-1202"), ny=(1996, 2000))))
    out.append(Case("ozone-ar6-long", ozone, dict(gas="ar6", gases=("CFC-11",), ny=(1996, 2002))))
    return out

"""C02: the two-layer ocean conserves energy and reports its heat consistently"""
from engine.runner import Case
from props.thermal import SEC_YEAR, forcings, mean

BOUNDS = (
    "histories of up to 4 years from rest with arbitrary forcing per hemisphere in [-5,10] and volcanic forcing in [-10,2] W/m2 "
    "(1 to 12 columns), and one year from an arbitrary two-layer state; all physical parameters symbolic: lambda .3-3, mixed 20-1000 m, "
    "deep 300-4000 m, exchange .1-2, efficacy .5-2, ocean fractions .4-.95"
)
OUTSIDE = "longer histories, parameters outside those ranges, floating-point round-off"
ASSUMPTIONS = []

VOLHEAT = 1000 * 4184.0
AREA = 3.61e14
RANGES = {
    "lambda": (0.3, 3.0),
    "mixed": (20.0, 1000.0),
    "deep": (300.0, 4000.0),
    "k": (0.1, 2.0),
    "ocean_efficacy": (0.5, 2.0),
    "foan": (0.4, 0.95),
    "foas": (0.4, 0.95),
}
DEFAULT = {"lambda": 3.74 / 3, "mixed": 50.0, "deep": 1200.0, "k": 0.5, "ocean_efficacy": 1.0, "foan": 0.61, "foas": 0.81}


def model(ctx, sympar=(), params=None):
    pam = dict(DEFAULT)
    pam.update(params or {})
    for p in sympar:
        pam[p] = ctx.real(p, *RANGES[p])
    m = ctx.mod("thermal_model.two_layer_ocean").TwoLayerOceanModel(dict(pam))
    return m, pam


def budget(ctx, years=1, ncol=1, sympar=(), state=False, params=None):
    m, pam = model(ctx, sympar, params)
    tf = ts = 0.0
    if state and hasattr(m, "temp_fast") and hasattr(m, "temp_slow"):
        tf = m.temp_fast = ctx.real("tf", -5, 12)
        ts = m.temp_slow = ctx.real("ts", -5, 12)
    cf = pam["mixed"] * VOLHEAT / SEC_YEAR
    cs = pam["deep"] * VOLHEAT / SEC_YEAR
    eff = pam["ocean_efficacy"]
    for y in range(years):
        fn, fs, vn, vs = forcings(ctx, ncol, str(y))
        out = m.energy_budget(fn, fs, vn, vs)
        f1, s1 = out["dtemp_fast"], out["dtemp_slow"]
        forc = (fn + fs) / 2 + (mean(vn) + mean(vs)) / 2
        ex = pam["k"] * (tf - ts)
        ctx.eq(f"deep layer takes up the exchange flux, year {y}", cs * (s1 - ts), ex)
        ctx.eq(
            f"heat gained = forcing - feedback - efficacy loss, year {y}",
            cf * (f1 - tf) + cs * (s1 - ts),
            forc - pam["lambda"] * tf - (eff - 1) * ex,
        )
        unit = VOLHEAT * AREA / 1e22
        mix, deep = f1 * pam["mixed"] * unit, s1 * pam["deep"] * unit
        ctx.eq(f"mixed layer heat content, year {y}", out["OHC_MIXED"], mix)
        ctx.eq(f"deep heat content, year {y}", out["OHC_DEEP"], deep)
        ctx.eq(f"total heat content, year {y}", out["OHCTOT"], mix + deep)
        shallow = pam["mixed"] if pam["mixed"] < 700.0 else 700.0
        below = 700.0 - shallow if 700.0 - shallow < pam["deep"] else pam["deep"]
        ctx.eq(f"heat content above 700 m, year {y}", out["OHC700"], (shallow * f1 + below * s1) * unit)
        ctx.eq(
            f"radiative imbalance, year {y}",
            out["RIB"],
            forc - pam["lambda"] * f1 - (eff - 1) * pam["k"] * (f1 - s1),
        )
        fo = (pam["foan"] + pam["foas"]) / 2
        ctx.eq(f"global temperature, year {y}", out["dtemp"], fo * f1 + (1 - fo) * forc / pam["lambda"])
        ctx.eq(f"sea surface temperature, year {y}", out["dtemp_sea"], f1)
        tf, ts = f1, s1
        ctx.cut([tf, ts])


ALL = tuple(RANGES)


def cases(tier):
    out = [
        Case("state-main", budget, dict(sympar=("lambda", "mixed", "deep", "k", "ocean_efficacy"), state=True, ncol=2)),
        Case("history-all", budget, dict(years=2, ncol=1, sympar=ALL)),
        Case("history-default", budget, dict(years=3, ncol=12)),
        Case("history-2col", budget, dict(years=2, ncol=3, params={"ocean_efficacy": 1.3, "mixed": 120.0})),
        Case("history-params", budget, dict(years=2, ncol=1, sympar=("lambda", "k", "ocean_efficacy"))),
    ]
    if tier == "thorough":
        out += [
            Case("history-long", budget, dict(years=6, ncol=12)),
            Case("state-all", budget, dict(sympar=ALL, state=True, ncol=2)),
        ]
    return out

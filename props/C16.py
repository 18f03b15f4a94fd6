"""C16: the box carbon cycle conserves carbon and moves it as configured"""
from engine.runner import Case
from props.carbon import PGC, box
from props.common import Scenario, put, sym_around

BOUNDS = (
    "histories of up to 4 years from the preindustrial start with arbitrary emissions (-20 to 40 PgC/yr) and warming (-2 to 8 K) in every year; all parameters symbolic or at "
    "their defaults; warming large enough to stop plant growth included; a second run on the same model after a reset"
)
OUTSIDE = "longer histories (each year is decided for an arbitrary atmospheric level in the year before), levels that reach zero"
ASSUMPTIONS = []
RANGES = {
    "beta_f": (0.0, 1.0),
    "land_temp_sensitivity": (0.0, 20.0),
    "soil_respiration_rate": (0.005, 0.05),
    "ocean_exchange_rate": (0.0, 0.1),
    "vegetation_to_soil_fraction": (0.02, 0.3),
    "ocean_solubility_base": (0.0, 0.1),
    "ocean_solubility_temp_coeff": (-0.05, 0.02),
}
DEFAULT = {
    "beta_f": 0.287,
    "land_temp_sensitivity": 0.1,
    "soil_respiration_rate": 0.02,
    "ocean_exchange_rate": 0.01,
    "vegetation_to_soil_fraction": 0.1,
    "ocean_solubility_base": 0.02,
    "ocean_solubility_temp_coeff": -0.01,
}


def balance(ctx, years=2, sympar=(), pam=None, warm=True, again=False, temps=(-2.0, 8.0)):
    p = dict(DEFAULT)
    p.update(pam or {})
    for k in sympar:
        p[k] = ctx.real(k, *RANGES[k])
    y0 = 2000
    m = box(ctx, (y0, y0 + 5), dict(p))
    if again:
        # an earlier run with other emissions must leave no trace after the reset
        for y in (y0, y0 + 1):
            m.co2em2conc(y, ctx.real(f"old_{y}", -20.0, 40.0), {"dtemp": ctx.real(f"oldT_{y}", 0.0, 3.0)})
        m.reset_co2_hold(dict(p))
    c, veg, soil, mix, deep = 278.0, 600.0, 3000.0, 0.0, 0.0
    # no rate changes the equilibrium start of land; the fluxes of the first year are taken from it
    for i in range(years):
        y = y0 + i
        e = ctx.real(f"em_{y}", -20.0, 40.0)
        t = ctx.real(f"dT_{y}", *temps) if warm else 0.0
        got = m.co2em2conc(y, e, {"dtemp": t}) if warm else m.co2em2conc(y, e)
        npp = ctx.max(0.0, 60.0 + p["beta_f"] * ctx.log(c / 278.0) - p["land_temp_sensitivity"] * t)
        litter = p["vegetation_to_soil_fraction"] * veg
        resp = p["soil_respiration_rate"] * soil
        up = p["ocean_solubility_base"] * (1.0 + p["ocean_solubility_temp_coeff"] * t) * (c - 278.0)
        down = p["ocean_exchange_rate"] * (mix - deep)
        veg, soil = veg + npp - litter, soil + litter - resp
        mix, deep = mix + up - down, deep + down
        c = c + (e - up + resp - npp) / PGC
        ctx.eq(f"concentration {y}", got, c, rtol=1e-10, atol=1e-8)
        stock = [getattr(m, k, None) for k in ("vegetation_carbon", "soil_carbon", "ocean_mixed_layer_carbon", "ocean_deep_carbon")]
        if all(s is not None for s in stock):
            for name, s, w in zip(("vegetation", "soil", "mixed layer", "deep ocean"), stock, (veg, soil, mix, deep)):
                ctx.eq(f"{name} {y}", s, w, rtol=1e-10, atol=1e-8)
        ctx.cut([got])
        ctx.assume(got >= 50.0)
        ctx.assume(got <= 3000.0)
        c = got


def fluxes(ctx, years=3, sympar=(), warm=True):
    """reported production and ocean uptake follow the same rules"""
    p = dict(DEFAULT)
    for k in sympar:
        p[k] = ctx.real(k, *RANGES[k])
    m = box(ctx, (2000, 2000 + years - 1), dict(p))
    c = ctx.reals("c", years, 100.0, 2000.0)
    t = ctx.reals("T", years, -2.0, 8.0) if warm is True else [0.0] * years
    index = list(range(2000, 2000 + years))
    ctx.true("nothing to report without concentrations", m.get_carbon_cycle_output(index) is None)
    # no temperatures: no warming
    fb = {True: {"dtemp": ctx.array(t)}, False: None, "other": {"ohc": ctx.array(c)}}[warm]
    out = m.get_carbon_cycle_output(index, conc_series=ctx.array(c), feedback_dict_series=fb)
    for i, y in enumerate(range(2000, 2000 + years)):
        npp = ctx.max(0.0, 60.0 + p["beta_f"] * ctx.log(c[i] / 278.0) - p["land_temp_sensitivity"] * t[i])
        up = p["ocean_solubility_base"] * (1.0 + p["ocean_solubility_temp_coeff"] * t[i]) * (c[i] - 278.0)
        ctx.eq(f"net primary production {y}", out["Net primary production"][y], npp, rtol=1e-10, atol=1e-9)
        ctx.eq(f"ocean flux {y}", out["Ocean carbon flux"][y], up, rtol=1e-10, atol=1e-9)


def driven(ctx, ny=(1998, 2001), emstart=2000, carbon="box", gas="v1", rows=None):
    """the whole model feeds fossil, land-use and natural emissions of the year and last year's warming"""
    s = Scenario(ctx, gas, ny, emstart, carbon)
    s.pam["lifetime_mode"] = "CONSTANT_12"
    nat = put(ctx, s.gas, "CO2", "NAT_EM", ctx.real("nat_co2", 0.0, 5.0))
    for y in s.years:
        sym_around(ctx, s.em, y, "CO2_FF", "e", -1.0, 3.0, -5.0, 5.0)
        sym_around(ctx, s.em, y, "CO2_AFOLU", "e", -2.0, 3.0, -5.0, 5.0)
    em = s.em.copy()
    h = s.handler()
    temp = {y: ctx.real(f"dT_{y}", -1.0, 6.0) for y in s.years}
    for y in s.years:
        if y == ny[0]:
            h.emi2conc(y)
        else:
            h.emi2conc(y, {"dtemp": temp[y - 1]})
    got = h.add_results_to_dict({})["concentrations"]["CO2"]
    m = box(ctx, ny)
    for y in s.years:
        e = em.loc[y, "CO2_FF"] + em.loc[y, "CO2_AFOLU"] + nat
        want = m.co2em2conc(y, e, {"dtemp": 0.0 if y == ny[0] else temp[y - 1]})
        ctx.eq(f"CO2 {y} from the year's emissions", got[y], want, rtol=1e-10, atol=1e-8)


def cases(tier):
    return [
        Case("years-4", balance, dict(years=4)),
        Case("no-warming", balance, dict(years=3, warm=False)),
        Case("params", balance, dict(years=2, sympar=tuple(RANGES))),
        Case("params-growth-stops", balance, dict(years=2, sympar=("land_temp_sensitivity", "beta_f", "soil_respiration_rate"))),
        Case("growth-stops", balance, dict(years=3, pam={"land_temp_sensitivity": 15.0})),
        Case("again", balance, dict(years=2, again=True)),
        Case("driven", driven, dict()),
        Case("driven-late", driven, dict(emstart=2010)),
        Case("driven-first", driven, dict(gas="wmo", emstart=1998, ny=(1998, 2000))),
        Case("fluxes", fluxes, dict()),
        Case("fluxes-no-warming", fluxes, dict(warm=False)),
        Case("fluxes-other-feedback", fluxes, dict(warm="other")),
        Case("fluxes-params", fluxes, dict(sympar=("beta_f", "land_temp_sensitivity", "ocean_solubility_base", "ocean_solubility_temp_coeff"))),
    ]

"""C28: parameters: unset ones take their documented defaults, set ones count as given whatever their numeric type, unknown ones do nothing"""
import copy

import numpy as np
import pandas as pd

from engine.runner import Case
from props.C21 import compare
from props.common import Scenario, put

BOUNDS = (
    "every parameter of both thermal models, of both carbon cycles and of the emissions and concentrations, given alone, left out alone, all given and none given; values given, emissions, "
    "forcings and temperatures arbitrary within their ranges; 2 to 4 years (351 for the default span); number types: Python and numpy floats and integers of 32 and 64 bit at stated values; zero and negative values kept as given"
)
OUTSIDE = "other subsets of parameters; numbers of other types; longer runs; parameters without documented defaults"
ASSUMPTIONS = []

# the documented defaults (README)
THERMAL = {
    "default": {
        "rlamdo": 15.0, "akapa": 0.66, "cpi": 0.21, "W": 2.2, "beto": 6.9, "threstemp": 7.0, "lambda": 0.61, "mixed": 107.0, "ocean_efficacy": 1.0, "foan": 0.61,
        "foas": 0.81, "ebbeta": 0.0, "lm": 40, "ldtime": 12, "delta_lambda_aero": 0.0,
    },
    "twolayer": {"lambda": 3.74 / 3, "mixed": 50, "deep": 1200, "k": 0.5, "ocean_efficacy": 1.0, "foan": 0.61, "foas": 0.81, "delta_lambda_aero": 0.0},
}
EMICONC = {
    "qbmb": 0.0, "qo3": 0.5, "qdirso2": -0.00308, "qindso2": -0.97 / 57.052577209999995, "qbc": 0.0279, "qoc": -0.00433, "qh2o_ch4": 0.091915, "qnmvoc": 0.0, "qnh3": 0.0,
    "qnox": 0.0, "ref_yr": 2010,
}
CARBON = {
    "default": {
        "beta_f": 0.287, "mixed_carbon": 75.0, "ml_fracmax": 0.5, "ml_t_half": 0.5, "ml_w_sigmoid": 3.0, "t_half": 0.5, "w_sigmoid": 7, "t_threshold": 4, "w_threshold": 7,
        "solubility_sens": 0.02, "solubility_limit": 0.5, "ml_depth_min": 10.0,
    },
    "box": {
        "beta_f": 0.287, "land_temp_sensitivity": 0.1, "soil_respiration_rate": 0.02, "ocean_mixed_layer_depth": 25.0, "ocean_exchange_rate": 0.01,
        "vegetation_to_soil_fraction": 0.1, "ocean_solubility_base": 0.02, "ocean_solubility_temp_coeff": -0.01,
    },
}
INTEGER = {"lm": 9, "ldtime": 3, "ref_yr": 2009}
MODULE = {
    "default": ("thermal_model.upwelling_diffusion_model", "UpwellingDiffusionModel"),
    "twolayer": ("thermal_model.two_layer_ocean", "TwoLayerOceanModel"),
}
CMODULE = {"default": "carbon_cycle.carbon_cycle_mod", "box": "carbon_cycle.carbon_cycle_mod_box"}


def arbitrary(ctx, p, d):
    """some value for a parameter, around its default"""
    if p in INTEGER:
        return INTEGER[p]
    lo, hi = sorted((0.7 * d, 1.4 * d)) if d else (-0.01, 0.01)
    return ctx.real(f"value_{p}", lo, hi)


def subset(ctx, docs, given, base):
    """(parameters as a user gives them, the same with all defaults written out)"""
    vals = dict(base)
    if given == "none":
        user = {}
    elif given == "all":
        user = {p: arbitrary(ctx, p, d) for p, d in docs.items() if p not in base}
    elif given.startswith("not "):
        user = {p: arbitrary(ctx, p, d) for p, d in docs.items() if p not in base and p != given[4:]}
    else:
        user = {given: arbitrary(ctx, given, docs[given])}
    user = {**{p: v for p, v in vals.items() if p != given and given != f"not {p}" and v is not None}, **user}
    return user, {**docs, **user}


def outputs(ctx, tag, a, b):
    for k in b:
        ctx.true(f"{tag}: {k} reported", k in a)
        if k in a:
            ctx.eq(f"{tag}: {k}", a[k], b[k], rtol=1e-9, atol=1e-9)


def thermal_pair(ctx, model, one, two, years=2, weights=None, tag=""):
    mod, cls = MODULE[model]
    cls = getattr(ctx.mod(mod), cls)
    a, b = cls(copy.copy(one)), cls(copy.copy(two))
    for y in range(years):
        f = [ctx.real(f"forc{y}_{h}", -3, 6) for h in "ns"] + [ctx.real(f"volc{y}_{h}", -3, 0) for h in "ns"]
        if y == 0 and model == "default":
            f[2:] = [np.full(12, 0.0) for _ in "ns"]
        elif model == "default":
            f[2:] = [np.array([v] * 12, dtype=object if ctx.symbolic else float) for v in f[2:]]
        else:
            f[2:] = [np.array([v], dtype=object if ctx.symbolic else float) for v in f[2:]]
        if weights:
            w = ctx.real(f"weight{y}", 0, 1)
            a.set_feedback_gregory(w)
            b.set_feedback_gregory(w)
        outputs(ctx, f"{tag}year {y}", a.energy_budget(*f), b.energy_budget(*f))


def thermal(ctx, model="default", given="none", small=True):
    docs = THERMAL[model]
    base = {"lm": 8, "ldtime": 2} if small and model == "default" else {}
    # rebuilding the derived parameters needs a threshold of its own; the depth-dependent upwelling is off in small models
    one, two = subset(ctx, docs, given, base)
    thermal_pair(ctx, model, one, two, weights=given in ("none", "delta_lambda_aero"))


def handled(ctx, carbon, pam, ny, emstart, cells):
    """a fresh emission-driven handler"""
    s = Scenario(ctx, ny=ny, emstart=emstart, carbon=carbon)
    for c in cells:
        for y in sorted({ny[0] + 1, ny[1]}):
            base = float(s.em.loc[y, c])
            put(ctx, s.em, y, c, ctx.real(f"{c}_{y}", 0.5 * base, 2.0 * base + 1.0))
    s.objectify()
    return s


def emiconc(ctx, given="none", carbon="box", ny=(2008, 2011), emstart=2011):
    s = handled(ctx, carbon, None, ny, emstart, ("SO2", "BC", "OC", "NOx", "NMVOC", "NH3"))
    for y in range(ny[0], ny[1]):
        put(ctx, s.conc, y, "CH4", ctx.real(f"conc_{y}", 1500.0, 2200.0))
    one, two = subset(ctx, EMICONC, given, {})
    # the default lifetime of methane needs the year 2000
    life = {"lifetime_mode": "CONSTANT_12"}
    compare(ctx, "forcing", *[years(ctx, s, {**p, **life}) for p in (one, two)])


def years(ctx, s, pam, drop=(), outside=None):
    """all years of a handler made with these parameters"""
    h = ctx.mod("concentrations_emissions_handler").ConcentrationsEmissionsHandler
    full = {"nystart": s.y0, "nyend": s.y1, "emstart": s.emstart, "carbon_cycle_model": s.carbon, "idtm": 2, **pam}
    full = {k: v for k, v in full.items() if k not in drop}
    h = h(ctx.mod("input_handler").InputHandler(s.cfg()), copy.copy(full), None)
    h.reset_with_new_pams(copy.copy(full), None)
    return s.run(h)


def lifetime(ctx, ny=(1999, 2000)):
    """methane has its TAR lifetime unless told otherwise"""
    s = handled(ctx, "box", None, ny, ny[0] + 1, ("CH4", "NOx", "CO", "NMVOC"))
    compare(ctx, "default lifetime", *[years(ctx, s, {**p, "ref_yr": ny[1]}) for p in ({}, {"lifetime_mode": "TAR"})])


def carbon(ctx, model="default", given="none", years=3):
    docs = CARBON[model]
    cls = ctx.mod(CMODULE[model]).CarbonCycleModel
    one, two = subset(ctx, docs, given, {})
    em = [ctx.real(f"em{y}", 0, 30) for y in range(years)]
    dt = [ctx.real(f"dt{y}", 0, 3) for y in range(years)]
    out = []
    for p in (one, two):
        c = cls({"idtm": 2, "nystart": 2000, "nyend": 2000 + years - 1}, {"preindustrial_co2_conc": 278.0, **p})
        # the default cycle knows this one as a parameter, the other as a constant
        out.append([c.co2em2conc(2000 + y, em[y], {"dtemp": dt[y]}) for y in range(years)])
    for y in range(years):
        ctx.eq(f"CO2 {2000 + y}", out[0][y], out[1][y], rtol=1e-9)


# ---------------------------------------------------------------- times
def forced(ctx, ny, syms):
    out = np.linspace(0.0, 3.0, ny[1] - ny[0] + 1)
    out = out.astype(object) if ctx.symbolic else out
    for y in syms:
        out[y - ny[0]] = ctx.real(f"forc{y}", -3, 6)
    return out


def span(ctx, leave=("nystart", "nyend")):
    """a forcing-driven run covers 1750 to 2100 unless told otherwise"""
    ny = [1750, 2100]
    if "nystart" not in leave:
        ny[0] = 2080
    if "nyend" not in leave:
        ny[1] = 1760
    df = forced(ctx, ny, (ny[0] + 1, ny[1] - 1))
    cfg = {"forc_data": df, "thermal_model": "twolayer", "sunvolc": 0}
    full = {**cfg, "nystart": ny[0], "nyend": ny[1], "emstart": 1850, "idtm": 24}
    short = {k: v for k, v in full.items() if k not in leave}
    runs = []
    for c in (short, full):
        m = ctx.mod("ciceroscm").CICEROSCM({**c, "forc_data": df.copy()})
        m._run({"results_as_dict": True})
        runs.append(m.results)
    ctx.same("years of the run", len(runs[0]["dT_glob"]), ny[1] - ny[0] + 1)
    for k in ("dT_glob", "RIB_glob", "OHCTOT", "Total_forcing"):
        for i in (0, 1, 2, ny[1] - ny[0] - 1, ny[1] - ny[0]):
            ctx.eq(f"{k} {ny[0] + i}", runs[0][k][i], runs[1][k][i], rtol=1e-9, atol=1e-9)


def start(ctx, leave="emstart", carbon_model="box"):
    """emissions drive from 1850 on unless told otherwise, and CO2 is stepped 24 times a year"""
    s = handled(ctx, "box", None, (1848, 1850), 1850, ("CH4",) if leave == "emstart" else ("CO2_FF",))
    for y in (1848, 1849):
        put(ctx, s.conc, y, "CH4", ctx.real(f"conc_{y}", 600.0, 1200.0))
    s.objectify()
    pam = {"lifetime_mode": "CONSTANT_12", "ref_yr": 1850, "idtm": 24, "carbon_cycle_model": carbon_model}
    out = [years(ctx, s, pam, away) for away in ((leave,), ())]
    compare(ctx, "default start", *out)
    for y in (1848, 1849):
        ctx.eq(f"prescribed before 1850: {y}", out[0]["concentrations"].loc[y, "CH4"], s.conc.loc[y, "CH4"], rtol=1e-9)


# ---------------------------------------------------------------- types of numbers
KINDS = {"float64": np.float64, "float32": np.float32, "int64": np.int64, "int32": np.int32, "int": int, "float16": np.float16}


def kinds_thermal(ctx, model="default", p="mixed", value=64):
    kind = ctx.choose("kind", ["int64", "int32"] if p in INTEGER else list(KINDS) if float(value).is_integer() else ["float64", "float32", "float16"])
    base = {"lm": 8, "ldtime": 2} if model == "default" else {}
    thermal_pair(ctx, model, {**base, p: KINDS[kind](value)}, {**base, p: value}, tag=f"{p} as {kind}: ")


def kinds_carbon(ctx, model="default", p="beta_f", value=1, later=False):
    kind = ctx.choose("kind", list(KINDS) if float(value).is_integer() else ["float64", "float32", "float16"])
    em = [ctx.real(f"em{y}", 0, 30) for y in range(2)]
    out = []
    for v in (KINDS[kind](value), value):
        c = ctx.mod(CMODULE[model]).CarbonCycleModel({"idtm": 2, "nystart": 2000, "nyend": 2002}, {"preindustrial_co2_conc": 278.0, **({} if later else {p: v})})
        if later:
            c.reset_co2_hold({p: v})
        out.append([c.co2em2conc(2000 + y, em[y], {"dtemp": 0.5}) for y in range(2)])
    for y in range(2):
        ctx.eq(f"{p} as {kind}: CO2 {2000 + y}", out[0][y], out[1][y], rtol=1e-6)


def kinds_run(ctx, p="nystart", where="cfg"):
    """years and steps as numpy integers, forcing factors as numpy numbers"""
    kind = ctx.choose("kind", ["int64", "int32", "int16"] if where == "cfg" or p == "ref_yr" else ["float32", "float64", "int64", "int32"])
    cast = {**KINDS, "int16": np.int16}[kind]
    out = []
    for v in (cast, int if where == "cfg" or p == "ref_yr" else float):
        s = handled(ctx, "box", None, (1999, 2002), 2001, ("SO2", "CH4"))
        cfg = {**s.cfg(), "idtm": 3, "thermal_model": "twolayer"}
        pam = {"ref_yr": 2001, "qbc": 2.0}
        if where == "cfg":
            cfg[p] = v(cfg[p])
        else:
            pam[p] = v(pam[p])
        m = ctx.mod("ciceroscm").CICEROSCM(cfg)
        m._run({"results_as_dict": True}, pamset_emiconc=pam)
        out.append(m.results)
    compare(ctx, f"{p} as {kind}", *out)


POSITIVE = ("rlamdo", "lambda", "foan", "foas", "mixed", "deep", "w_sigmoid", "w_threshold", "ml_w_sigmoid")


def wide(ctx, p, d):
    """any value, zero and negative ones included where they mean something"""
    lo = 0.01 if p in POSITIVE else 0.0 if p in THERMAL["default"] and p != "delta_lambda_aero" else -2.0 * abs(d) - 1.0
    return ctx.real(f"value_{p}", lo, 3.0 * abs(d) + 1.0)


def kept(ctx, part="thermal", model="default", later=False):
    """the parameter set a part works with holds every value given, zero and negative ones too"""
    if part == "thermal":
        docs = {p: d for p, d in THERMAL[model].items() if p not in INTEGER}
        vals = {p: wide(ctx, p, d) for p, d in docs.items()}
        mod, cls = MODULE[model]
        got = getattr(ctx.mod(mod), cls)({**vals, "lm": 8, "ldtime": 2}).pamset
    elif part == "carbon":
        vals = {p: wide(ctx, p, d) for p, d in CARBON[model].items()}
        cls = ctx.mod(CMODULE[model]).CarbonCycleModel
        start = {"idtm": 2, "nystart": 2000, "nyend": 2002}
        if later:
            c = cls(start, {"preindustrial_co2_conc": 278.0})
            c.reset_co2_hold(dict(vals))
        else:
            c = cls(start, {"preindustrial_co2_conc": 278.0, **vals})
        got = c.pamset
    else:
        vals = {p: wide(ctx, p, d) for p, d in EMICONC.items() if p not in INTEGER}
        s = handled(ctx, "box", None, (2000, 2001), 2001, ())
        h = ctx.mod("concentrations_emissions_handler").ConcentrationsEmissionsHandler
        full = {"nystart": s.y0, "nyend": s.y1, "emstart": s.emstart, "carbon_cycle_model": s.carbon, "idtm": 2}
        h = h(ctx.mod("input_handler").InputHandler(s.cfg()), {**full, **({} if later else vals)}, None)
        if later:
            h.reset_with_new_pams(dict(vals), None)
        got = h.pamset
    for p, v in vals.items():
        ctx.eq(f"{p} in effect", got[p], v, rtol=1e-12, atol=1e-15)


NO_NUMBERS = {"text": "3.0", "None": None, "list": [1.0]}


def no_number(ctx, model="default", p="mixed"):
    kind = ctx.choose("kind", list(NO_NUMBERS))
    base = {"lm": 8, "ldtime": 2} if model == "default" else {}
    thermal_pair(ctx, model, {**base, p: NO_NUMBERS[kind]}, {**base, p: THERMAL[model][p]}, tag=f"{p} as {kind}: ")


def no_number_carbon(ctx, model="default", p="beta_f", later=False):
    kind = ctx.choose("kind", list(NO_NUMBERS))
    em = [ctx.real(f"em{y}", 0, 30) for y in range(2)]
    out = []
    for q in ({p: NO_NUMBERS[kind]}, {}):
        c = ctx.mod(CMODULE[model]).CarbonCycleModel({"idtm": 2, "nystart": 2000, "nyend": 2002}, {"preindustrial_co2_conc": 278.0, **({} if later else q)})
        if later:
            c.reset_co2_hold(q)
        out.append([c.co2em2conc(2000 + y, em[y], {"dtemp": 0.5}) for y in range(2)])
    for y in range(2):
        ctx.eq(f"{p} as {kind}: CO2 {2000 + y}", out[0][y], out[1][y], rtol=1e-9)


def unknown(ctx, thermal_model="twolayer", carbon_model="box"):
    """parameters no part of the model knows, and those of the other models, change nothing"""
    out = []
    for more in (True, False):
        s = handled(ctx, carbon_model, None, (1999, 2000), 2000, ("SO2", "CH4"))
        m = ctx.mod("ciceroscm").CICEROSCM({**s.cfg(), "idtm": 2, "thermal_model": thermal_model})
        u = {n: ctx.real(f"unknown_{n}", -10, 10) for n in ("xyz", "lamda", "Qo3")}
        other_t = {p: ctx.real(f"foreign_{p}", 0.1, 10) for p in set(THERMAL["default"]) ^ set(THERMAL["twolayer"]) if p not in THERMAL[thermal_model]}
        other_c = {p: ctx.real(f"foreign_{p}", 0.1, 10) for p in set(CARBON["default"]) ^ set(CARBON["box"]) if p not in CARBON[carbon_model]}
        small = {"lm": 8, "ldtime": 2} if thermal_model == "default" else {}
        lam = ctx.real("lambda", 0.5, 1.5)
        m._run(
            {"results_as_dict": True},
            pamset_udm={**small, "lambda": lam, **({**u, **other_t, "qo3": 5.0} if more else {})},
            pamset_emiconc={"ref_yr": 2000, **({**u, "lambda": 3.0, "beta_f": 9.0} if more else {})},
            pamset_carbon={"beta_f": 0.3, **({**u, **other_c, "qbc": 3.0} if more else {})},
        )
        out.append(m.results)
    compare(ctx, "unknown parameters", *out)


def fixed(ctx, carbon_model="box"):
    """what belongs to the instance stays as it is when a run asks for something else"""
    out = []
    which = ctx.choose("which", ["nystart", "nyend", "emstart", "idtm", "conc_run", "all"])
    change = {"nystart": 1999, "nyend": 2003, "emstart": 1999, "idtm": 7, "conc_run": True}
    for p in ({}, change if which == "all" else {which: change[which]}):
        s = handled(ctx, carbon_model, None, (1998, 2001), 2000, ("SO2", "CH4", "CO2_FF"))
        m = ctx.mod("ciceroscm").CICEROSCM({**s.cfg(), "idtm": 2, "thermal_model": "twolayer"})
        m._run({"results_as_dict": True}, pamset_emiconc={"ref_yr": 2000, **p})
        out.append(m.results)
    compare(ctx, f"asked for another {which}", out[1], out[0])


def no_model(ctx, which="thermal_model"):
    """a part of the model that does not exist is refused, not replaced"""
    s = Scenario(ctx)
    name = ctx.choose("name", ["other", "Default", "two-layer", "boxes", "", "default "])
    try:
        ctx.mod("ciceroscm").CICEROSCM({**s.cfg(), which: name})
        refused = False
    except ValueError:
        refused = True
    ctx.true(f"{which} {name!r} refused", refused)


def cases(tier):
    out = []
    for m, docs in THERMAL.items():
        out.append(Case(f"thermal-{m}-none", thermal, dict(model=m, small=False)))
        for p in docs:
            if p in ("lm", "ldtime"):
                out.append(Case(f"thermal-{m}-not-{p}", thermal, dict(model=m, given=f"not {p}")))
                out.append(Case(f"thermal-{m}-{p}", thermal, dict(model=m, given=p, small=False)))
                continue
            out.append(Case(f"thermal-{m}-{p}", thermal, dict(model=m, given=p)))
            if tier != "quick" or m == "twolayer":
                out.append(Case(f"thermal-{m}-not-{p}", thermal, dict(model=m, given=f"not {p}")))
        out.append(Case(f"thermal-{m}-all", thermal, dict(model=m, given="all")))
    for p in EMICONC:
        out.append(Case(f"emiconc-{p}", emiconc, dict(given=p)))
        out.append(Case(f"emiconc-not-{p}", emiconc, dict(given=f"not {p}")))
    out.append(Case("emiconc-none", emiconc, dict(given="none")))
    out.append(Case("emiconc-none-default", emiconc, dict(given="none", carbon="default")))
    for m, docs in CARBON.items():
        for g in ["none", "all"] + list(docs) + [f"not {p}" for p in docs]:
            out.append(Case(f"carbon-{m}-{g.replace(' ', '-')}", carbon, dict(model=m, given=g, years=2 if m == "default" else 3)))
    out.append(Case("span-both", span, dict()))
    out.append(Case("span-start", span, dict(leave=("nystart",))))
    out.append(Case("span-end", span, dict(leave=("nyend",))))
    out.append(Case("emissions-start", start, dict()))
    out.append(Case("carbon-steps", start, dict(leave="idtm")))
    out.append(Case("carbon-steps-default", start, dict(leave="idtm", carbon_model="default")))
    out.append(Case("no-thermal-model", no_model, dict()))
    out.append(Case("no-carbon-model", no_model, dict(which="carbon_cycle_model")))
    out.append(Case("lifetime", lifetime, dict()))
    for m, docs in THERMAL.items():
        for p, v in (("mixed", 64), ("lambda", 1), ("foan", 0.5), ("lm", 9), ("ldtime", 3), ("k", 1), ("threstemp", 0), ("deep", 1024)):
            if p in docs:
                out.append(Case(f"type-{m}-{p}", kinds_thermal, dict(model=m, p=p, value=v)))
        out.append(Case(f"no-number-{m}", no_number, dict(model=m)))
    for m in CARBON:
        for p, v in (("beta_f", 1), ("beta_f", 0.25), ("mixed_carbon", 64), ("ocean_mixed_layer_depth", 32)):
            if p in CARBON[m]:
                out.append(Case(f"type-carbon-{m}-{p}-{v}", kinds_carbon, dict(model=m, p=p, value=v)))
                out.append(Case(f"type-carbon-{m}-{p}-{v}-later", kinds_carbon, dict(model=m, p=p, value=v, later=True)))
        for later in (False, True):
            out.append(Case(f"no-number-carbon-{m}-{later}", no_number_carbon, dict(model=m, later=later)))
    for p in ("nystart", "nyend", "emstart", "idtm"):
        out.append(Case(f"type-cfg-{p}", kinds_run, dict(p=p)))
    for p in ("qbc", "ref_yr"):
        out.append(Case(f"type-emiconc-{p}", kinds_run, dict(p=p, where="run")))
    for t in THERMAL:
        for c in CARBON:
            out.append(Case(f"unknown-{t}-{c}", unknown, dict(thermal_model=t, carbon_model=c)))
    for m in THERMAL:
        out.append(Case(f"kept-{m}", kept, dict(model=m)))
    for m in CARBON:
        for later in (False, True):
            out.append(Case(f"kept-carbon-{m}-{later}", kept, dict(part="carbon", model=m, later=later), max_paths=400))
    for later in (False, True):
        out.append(Case(f"kept-emiconc-{later}", kept, dict(part="emiconc", later=later), max_paths=400))
    for c in CARBON:
        out.append(Case(f"fixed-{c}", fixed, dict(carbon_model=c)))
    return out

"""C21: a run depends on its inputs and parameters only, not on what was run before"""
import pandas as pd

from engine.runner import Case
from props.C23 import data
from props.common import Scenario, put

BOUNDS = (
    "one earlier run before the run compared, on the same model or on another one made from the same input tables (and up to 15 earlier runs that differ from it in exactly one "
    "parameter or one number of the tables each); both carbon cycle and both thermal models, concentration- "
    "and emission-driven; forcing and carbon parameters of the earlier run, of the run compared and the solar forcing arbitrary; 3 and 4 years; input tables compared cell by cell afterwards"
)
OUTSIDE = (
    "more than one earlier run; settings the later run leaves unset although the earlier one set them and which are documented to stay (carbon parameters, just_one); entries "
    "the model adds to configuration dictionaries it is given"
)
ASSUMPTIONS = []

EMICONC = {
    "qbmb": (-0.1, 0.1), "qo3": (0.1, 0.9), "qdirso2": (-0.01, 0.0), "qindso2": (-0.03, 0.0), "qbc": (0.0, 0.06), "qoc": (-0.02, 0.0), "qh2o_ch4": (0.0, 0.2),
    "qnmvoc": (-0.01, 0.01), "qnh3": (-0.01, 0.01), "qnox": (-0.01, 0.01),
}
CARBON = {
    "box": {"beta_f": (5.0, 40.0), "land_temp_sensitivity": (0.0, 2.0), "soil_respiration_rate": (0.01, 0.03), "ocean_exchange_rate": (0.005, 0.02)},
    "default": {"beta_f": (0.1, 0.6), "mixed_carbon": (50.0, 120.0), "solubility_sens": (0.0, 0.04)},
}
CONST = {"box": {"vegetation_to_soil_fraction": 0.1}, "default": {"ml_fracmax": 0.4, "t_half": 0.6}}


def sets(ctx, tag, carbon, ny, sym, extra):
    ec = {"ref_yr": ny[1] - 1, "idtm": 2}
    for k, (lo, hi) in EMICONC.items():
        ec[k] = ctx.real(f"{k}_{tag}", lo, hi) if k in sym else lo + (0.3 if tag == "before" else 0.6) * (hi - lo)
    cc = dict(CONST[carbon])
    for k, (lo, hi) in CARBON[carbon].items():
        cc[k] = ctx.real(f"{k}_{tag}", lo, hi) if k in sym else lo + (0.3 if tag == "before" else 0.6) * (hi - lo)
    ec.update(extra.get("ec", {}))
    cc.update(extra.get("cc", {}))
    return ec, cc


def frames(s):
    out = {"gas parameters": s.gas, "emissions": s.em, "concentrations": s.conc, "natural CH4": s.natch4, "natural N2O": s.natn2o}
    out.update({k: v for k, v in s.extra.items() if isinstance(v, pd.DataFrame)})
    return out


def compare(ctx, tag, got, want, cells=None):
    for k, v in want.items():
        ctx.true(f"{tag}: {k} reported", k in got)
        if isinstance(v, pd.DataFrame):
            ctx.true(f"{tag}: {k} has the same columns", sorted(map(str, got[k].columns)) == sorted(map(str, v.columns)))
            ctx.true(f"{tag}: {k} has the same years", list(got[k].index) == list(v.index))
            for c in v.columns:
                for y, x, g in zip(v.index, v[c].tolist(), got[k][c].tolist()):
                    if isinstance(x, float) and x != x:
                        ctx.true(f"{tag}: {k} {c} {y} undefined", g != g)
                    elif isinstance(x, str):
                        ctx.same(f"{tag}: {k} {c} {y}", g, x)
                    else:
                        ctx.eq(f"{tag}: {k} {c} {y}", g, x, rtol=1e-9, atol=1e-9)
        else:
            ctx.eq(f"{tag}: {k}", got[k], v, rtol=1e-9, atol=1e-9)


def history(
    ctx, thermal="twolayer", carbon="box", ny=(1998, 2001), emstart=1999, conc_run=False, same=True, sym=(), before=None, after=None, pert=None, nat=True, carbon_out=False,
    free=("sun0_0",), th_before=None, forcpert=False, unset=False, reuse=False,
):
    def scenario():
        s = Scenario(ctx, ny=ny, emstart=emstart, carbon=carbon)
        s.extra.update(data(ctx, s, 1, free))
        s.extra.update(sunvolc=1, conc_run=conc_run, thermal_model=thermal, idtm=2)
        if pert:
            df = pd.DataFrame({"year": [y for y, _ in pert], "component": [g for _, g in pert], "emission": 0.0})
            for i in range(len(pert)):
                put(ctx, df, i, "emission", ctx.real(f"pert{i}", -1.0, 2.0))
            s.extra["perturb_em_data"] = df
        if forcpert:
            df = pd.DataFrame({"year": [ny[0] + 1, ny[0] + 1, ny[1]], "component": ["CO2", "CFC-11", "BC"], "forcing": 0.0})
            for i in range(3):
                put(ctx, df, i, "forcing", ctx.real(f"fp{i}", -1.0, 1.0))
            s.extra["perturb_forc_data"] = df
        s.objectify()
        return s

    drv = ctx.mod("ciceroscm")
    p1 = lambda: sets(ctx, "before", carbon, ny, sym, before or {})  # noqa: E731
    p2 = lambda: sets(ctx, "run", carbon, ny, sym, after or {})  # noqa: E731
    if unset:  # the run compared leaves the forcing parameters at their defaults
        p2 = lambda: ({"ref_yr": ny[1] - 1, "idtm": 2}, sets(ctx, "run", carbon, ny, sym, {})[1])  # noqa: E731
    th = {"lm": 9, "ldtime": 2} if thermal == "default" else {}
    outcfg = {"results_as_dict": True}
    if carbon_out:
        outcfg["carbon_cycle_outputs"] = True

    def run(model, pams, over=None):
        ec, cc = pams
        model._run(dict(outcfg), pamset_udm=over if over is not None else dict(th), pamset_emiconc=ec, pamset_carbon=cc)
        return {k: (v.copy() if hasattr(v, "copy") else v) for k, v in model.results.items()}

    def cfg(s, natural=True):
        c = s.cfg()
        if not natural:
            del c["nat_ch4_data"], c["nat_n2o_data"]
        return c

    # the run alone
    alone = scenario()
    want = run(drv.CICEROSCM(cfg(alone, nat)), p2())
    # the same run after another one
    ctx.fresh()
    drv = ctx.mod("ciceroscm")
    shared = scenario()
    kept = {k: v.copy() for k, v in frames(shared).items()}
    first = drv.CICEROSCM(cfg(shared))
    if reuse:
        mine = (p2(), dict(th))
        p1 = p2 = lambda: mine[0]  # noqa: E731
    run(first, p1(), mine[1] if reuse else {**th, **(th_before or {})})
    later = first if same else drv.CICEROSCM(cfg(shared, nat))
    got = run(later, p2(), mine[1] if reuse else None)
    compare(ctx, "run after another one", got, want)
    compare(ctx, "input tables", frames(shared), kept)


RS = {"rs_coef0": 0.1, "rs_coef1": 0.5, "rs_coef2": 0.4, "rs_tim0": 0.9, "rs_tim1": 30.0}
RB = {"rb_coef0": 0.5, "rb_coef1": 0.3, "rb_coef2": 0.2, "rb_tim0": 2.0, "rb_tim1": 9.0, "rb_tim2": 40.0}
THERMAL = {
    "default": {
        "rlamdo": (5.0, 25.0), "akapa": (0.06, 0.8), "cpi": (0.16, 0.52), "W": (0.55, 2.55), "beto": (0.0, 7.0), "threstemp": (0.0, 9.0), "lambda": (0.3, 1.2), "mixed": (25.0, 125.0),
        "foan": (0.5, 0.7), "foas": (0.7, 0.9), "ebbeta": (0.0, 0.5), "ocean_efficacy": (0.8, 1.5), "delta_lambda_aero": (-0.3, 0.3), "lm": 10, "ldtime": 3,
    },
    "twolayer": {
        "lambda": (0.3, 1.2), "mixed": (25.0, 125.0), "deep": (500.0, 1500.0), "k": (0.3, 1.0), "foan": (0.5, 0.7), "foas": (0.7, 0.9), "ocean_efficacy": (0.8, 1.5), "delta_lambda_aero": (-0.3, 0.3),
    },
}


def neighbours(ctx, thermal="twolayer", carbon="box", ny=(1998, 2000), emstart=1999, conc_run=False, same=True, vary=(), base=None, th=None, cfgwide=(), sym=False, free=("sun0_0",)):
    """
    One process runs a base configuration and then configurations that differ from it in one parameter each; every one
    of them must come out as in a process of its own (nothing computed for the one serves for the other).
    """

    def scenario(p=None):
        s = Scenario(ctx, ny=ny, emstart=emstart, carbon=carbon)
        s.extra.update(data(ctx, s, 1, free))
        s.extra.update(sunvolc=1, conc_run=conc_run, thermal_model=thermal, idtm=2)
        s.objectify()
        for (table, row, col), value in (p or start)["in"].items():
            df = getattr(s, table) if table not in s.extra else s.extra[table]
            df.loc[df.index[row] if isinstance(row, int) else row, col] = df.loc[df.index[row] if isinstance(row, int) else row, col] + value
        return s

    def name(key):
        return " ".join(map(str, key)) if isinstance(key, tuple) else key

    start = {"th": {"lm": 9, "ldtime": 2} if thermal == "default" else {}, "ec": {"ref_yr": ny[1], "idtm": 2}, "cc": dict(base or {}), "cfg": {}, "in": {}}
    start["th"].update(th or {})
    sets = [("base", start)]
    seen = set()
    for group, key, value in vary:
        if isinstance(value, tuple):
            value = ctx.real(f"{name(key)}_varied", *value) if sym else value[0] + 0.7 * (value[1] - value[0])
        other = {k: dict(v) for k, v in start.items()}
        other[group][key] = value
        sets.append((f"{name(key)} varied" if (group, key) not in seen else f"{name(key)} varied again", other))
        seen.add((group, key))

    def run(model, p):
        model._run({"results_as_dict": True}, pamset_udm=dict(p["th"]), pamset_emiconc=dict(p["ec"]), pamset_carbon=dict(p["cc"]))
        return {k: (v.copy() if hasattr(v, "copy") else v) for k, v in model.results.items()}

    def make(p, s):
        c = s.cfg()
        c.update(p["cfg"])
        return ctx.mod("ciceroscm").CICEROSCM(c)

    want = []
    for tag, p in sets:
        ctx.fresh()
        want.append(run(make(p, scenario(p)), p))
    ctx.fresh()
    shared = scenario()
    model = make(start, shared)
    for (tag, p), w in zip(sets, want):
        # what may stay of an earlier run of the same model is set in every run here
        m = model if same else make(p, scenario(p) if p["in"] else shared)
        full = {k: dict(v) for k, v in p.items()}
        if same:
            for group, key, value in vary:
                if group in ("ec", "cc") and key not in full[group]:
                    full[group][key] = DEFAULT[carbon].get(key, DEFAULT["ec"].get(key))
        compare(ctx, tag, run(m, full), w)


DEFAULT = {
    "ec": {
        "qbmb": 0.0, "qo3": 0.5, "qdirso2": -0.00308, "qindso2": -0.97 / 57.052577209999995, "qbc": 0.0279, "qoc": -0.00433, "qh2o_ch4": 0.091915, "qnmvoc": 0.0, "qnh3": 0.0, "qnox": 0.0,
        "lifetime_mode": "TAR",
    },
    "box": {
        "beta_f": 0.287, "land_temp_sensitivity": 0.1, "soil_respiration_rate": 0.02, "ocean_mixed_layer_depth": 25.0, "ocean_exchange_rate": 0.01, "vegetation_to_soil_fraction": 0.1,
        "ocean_solubility_base": 0.02, "ocean_solubility_temp_coeff": -0.01,
    },
    "default": {
        "beta_f": 0.287, "mixed_carbon": 75.0, "ml_w_sigmoid": 3.0, "ml_fracmax": 0.5, "ml_t_half": 0.5, "t_half": 0.5, "w_sigmoid": 7, "t_threshold": 4, "w_threshold": 7,
        "solubility_sens": 0.02, "solubility_limit": 0.5, "ml_depth_min": 10.0,
    },
}
SPAN = {k: ("ec", k, v) for k, v in EMICONC.items()}


def near(values, group, exact=False, f=1.25):
    """one variation for each parameter, close to the value of the base run"""
    out = []
    for k, v in values.items():
        if isinstance(v, str):
            out.append((group, k, "WIGLEY"))
        else:
            out.append((group, k, v * f if v else 0.01))
    return tuple(out)


INPUTS = (
    (("em", 1, "CH4"), (-50.0, 50.0)), (("em", 2, "CO2_FF"), (-1.0, 1.0)), (("em", 1, "SO2"), (-9.0, 9.0)), (("em", 2, "CFC-11"), (-5.0, 5.0)), (("conc", 0, "N2O"), (-5.0, 5.0)),
    (("conc", 0, "CFC-12"), (-50.0, 50.0)), (("gas", "N2O", "TAU1"), (-9.0, 9.0)), (("gas", "CFC-11", "ALPHA"), (-1e-4, 1e-4)), (("gas", "HCFC-22", "TAU1"), (-1.0, 1.0)),
    (("gas", "CO2", "SARF_TO_ERF"), (-0.1, 0.1)), (("natch4", 2, "CH4"), (-9.0, 9.0)), (("natn2o", 1, "N2O"), (-2.0, 2.0)), (("rf_sun_data", 1, 0), (-0.1, 0.1)),
    (("rf_luc_data", 2, 0), (-0.1, 0.1)), (("rf_volc_n_data", 1, 0), (-1.0, 0.0)),
)


SYM = ("qdirso2", "qbc", "qo3", "qh2o_ch4")


def cases(tier):
    return [
        Case("rerun-twolayer-box", history, dict(sym=SYM)),
        Case("rerun-conc", history, dict(conc_run=True, sym=tuple(EMICONC))),
        Case("rerun-box-carbon", history, dict(sym=tuple(CARBON["box"]), free=(), carbon_out=True)),
        Case("rerun-default", history, dict(carbon="default", sym=("qdirso2",))),
        Case("rerun-default-carbon", history, dict(carbon="default", ny=(1998, 2000), sym=("beta_f", "mixed_carbon"), free=())),
        Case("rerun-default-out", history, dict(carbon="default", ny=(1998, 2000), sym=("qbc",), free=(), carbon_out=True)),
        Case("rerun-udm", history, dict(thermal="default", conc_run=True, sym=("qdirso2", "qo3"), th_before={"lambda": 0.9, "threstemp": 0.0, "mixed": 60.0})),
        Case("rerun-lifetime", history, dict(before={"ec": {"lifetime_mode": "WIGLEY"}}, sym=("qdirso2",))),
        Case("rerun-rfuns", history, dict(
            carbon="default", ny=(1998, 2000), sym=("qbc",), free=(),
            before={"cc": {"rb_coef0": 0.5, "rb_coef1": 0.4, "rb_tim0": 2.0, "rb_tim1": 9.0}},
            after={"cc": {"rb_coef0": 0.6, "rb_coef1": 0.2, "rb_tim0": 3.0, "rb_tim1": 20.0}},
        )),
        Case("rerun-unset", history, dict(unset=True, sym=("qdirso2", "qo3"))),
        Case("same-parameters", history, dict(reuse=True, sym=("qdirso2", "beta_f"), free=())),
        Case("same-parameters-udm", history, dict(reuse=True, same=False, thermal="default", carbon="default", ny=(1998, 2000), sym=("qdirso2",), free=())),
        Case("shared-inputs", history, dict(same=False, sym=("qdirso2",))),
        Case("shared-conc", history, dict(same=False, conc_run=True, thermal="default", sym=("qdirso2",))),
        Case("shared-natural", history, dict(same=False, nat=False, sym=("qbc",))),
        Case("shared-perturbed", history, dict(same=False, pert=((1999, "SO2"), (2000, "CH4"), (2000, "CFC-11"), (1999, "CO2_FF")), sym=("qbc",))),
        Case("rerun-perturbed", history, dict(pert=((1999, "SO2"), (2000, "CH4"), (2000, "CFC-11"), (1999, "CO2_FF")), sym=("qbc",))),
        Case("rerun-forced", history, dict(forcpert=True, sym=("qbc",))),
        Case("near-aerosols", neighbours, dict(vary=tuple(SPAN.values()), sym=True)),
        Case("near-mode", neighbours, dict(vary=(("ec", "lifetime_mode", "WIGLEY"), ("ec", "lifetime_mode", "CONSTANT"), ("ec", "ref_yr", 1999))[:1], same=False)),
        Case("near-twolayer", neighbours, dict(vary=tuple(("th", k, v) for k, v in THERMAL["twolayer"].items()), same=False)),
        Case("near-udm", neighbours, dict(thermal="default", conc_run=True, vary=tuple(("th", k, v) for k, v in THERMAL["default"].items()), same=False)),
        Case("near-udm-rerun", neighbours, dict(thermal="default", conc_run=True, vary=tuple(("th", k, v) for k, v in THERMAL["default"].items()))),
        Case("near-tables", neighbours, dict(vary=tuple(("in", k, v) for k, v in INPUTS), same=False, sym=True)),
        Case("near-tables-conc", neighbours, dict(conc_run=True, vary=tuple(("in", k, v) for k, v in INPUTS), same=False)),
        Case("near-years", neighbours, dict(vary=(("cfg", "emstart", 2000), ("cfg", "emstart", 1998), ("cfg", "nyend", 1999), ("cfg", "idtm", 3)), same=False)),
        Case("near-years-default", neighbours, dict(carbon="default", vary=(("cfg", "emstart", 2000), ("cfg", "nyend", 1999), ("cfg", "idtm", 3)), free=(), same=False)),
        Case("near-box", neighbours, dict(vary=near(DEFAULT["box"], "cc"), free=())),
        Case("near-box-other", neighbours, dict(vary=near(DEFAULT["box"], "cc"), free=(), same=False)),
        Case("near-default", neighbours, dict(carbon="default", vary=near(DEFAULT["default"], "cc"), free=())),
        Case("near-default-other", neighbours, dict(carbon="default", vary=near(DEFAULT["default"], "cc"), free=(), same=False)),
        Case("near-ocean-response", neighbours, dict(carbon="default", base=RS, vary=near(RS, "cc"), free=(), same=False)),
        Case("near-land-response", neighbours, dict(carbon="default", base=RB, vary=near(RB, "cc"), free=(), same=False)),
        Case("shared-forced", history, dict(same=False, forcpert=True, sym=("qbc",))),
    ]

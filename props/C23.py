"""C23: a model run couples the parts year by year: last year's temperatures in, this year's forcings out, every result in its own year"""
import numpy as np
import pandas as pd

from engine.runner import Case
from props.common import Scenario, put

BOUNDS = (
    "runs of 3 and 4 years with both thermal models and both carbon cycle models, concentration- and emission-driven; solar, land use and the volcanic forcing of each "
    "hemisphere and month free in every year ([-5,5] W/m2), sulphur emissions and methane concentration of one year free; steps per year and layers reduced (2 and 9) or as shipped"
)
OUTSIDE = "longer runs; the physics inside the parts (the other properties); output to files"
ASSUMPTIONS = ["the parts of the reference run (handler, thermal model) are the code under check itself: what they compute is judged by the other properties, here only how they are coupled"]

# reported series and the value of the thermal model it holds
UDM_OUT = {
    "dT_glob": "dtemp", "dT_NH": "dtempnh", "dT_SH": "dtempsh", "dT_glob_air": "dtemp_air", "dT_NH_air": "dtempnh_air", "dT_SH_air": "dtempsh_air",
    "dT_glob_sea": "dtemp_sea", "dT_NH_sea": "dtempnh_sea", "dT_SHsea": "dtempsh_sea", "RIB_glob": "RIB", "RIB_N": "RIBN", "RIB_S": "RIBS",
    "OHC700": "OHC700", "OHCTOT": "OHCTOT",
}
TWO_OUT = {
    "RIB_glob": "RIB", "dT_glob": "dtemp", "OHC_MIXED": "OHC_MIXED", "OHC_DEEP": "OHC_DEEP", "OHC700": "OHC700", "OHCTOT": "OHCTOT",
    "dT_fast": "dtemp_fast", "dT_slow": "dtemp_slow",
}


def mean(v):
    t = 0
    for x in v:
        t = t + x
    return t / len(v)


def data(ctx, s, ncol, free):
    """sun, land use and volcanic frames: the cells in free (all, if None) arbitrary, the others each with a value of its own"""
    n = s.y1 - s.y0 + 1
    yrs = list(s.years)

    def frame(tag, k, lo, hi):
        df = pd.DataFrame(np.zeros((n, k)), index=yrs)
        for i in range(n):
            for j in range(k):
                name = f"{tag}{i}_{j}"
                put(ctx, df, yrs[i], j, ctx.real(name, lo, hi) if free is None or name in free else round(-0.01 * (7 * i + 3 * j + len(tag)) - 0.05, 3))
        return df

    return {
        "rf_sun_data": frame("sun", 1, -1, 1), "rf_luc_data": frame("luc", 1, -1, 1),
        "rf_volc_n_data": frame("vn", ncol, -5, 1), "rf_volc_s_data": frame("vs", ncol, -5, 1),
    }


def coupling(ctx, thermal="twolayer", carbon="box", ny=(1998, 2001), emstart=1999, conc_run=False, ncol=1, pam_th=None, pam_ce=None, cells=("so2", "ch4"), free=None):
    def scenario():
        s = Scenario(ctx, ny=ny, emstart=emstart, carbon=carbon)
        if "so2" in cells:
            put(ctx, s.em, ny[0] + 2, "SO2", ctx.real("so2", 5.0, 120.0))
        if "ch4" in cells:
            put(ctx, s.conc, ny[0], "CH4", ctx.real("ch4", 700.0, 2500.0))
        s.frames = data(ctx, s, ncol, free)
        s.extra.update(s.frames)
        s.extra.update(sunvolc=1, conc_run=conc_run, thermal_model=thermal, idtm=2)
        s.objectify()
        return s

    pth = {"lm": 9, "ldtime": 2, "delta_lambda_aero": 0.3} if thermal == "default" else {"delta_lambda_aero": 0.3}
    pth.update(pam_th or {})
    pce = {"ref_yr": ny[1] - 1, "idtm": 2}
    pce.update(pam_ce or {})
    drv = ctx.mod("ciceroscm")
    fac = ctx.mod("component_factory_functions")
    ceh = ctx.mod("concentrations_emissions_handler")
    ih = ctx.mod("input_handler")

    a = scenario()
    model = drv.CICEROSCM(a.cfg())
    model._run({"results_as_dict": True}, pamset_udm=dict(pth), pamset_emiconc=dict(pce))
    got = model.results

    b = scenario()
    pam = dict(nystart=ny[0], nyend=ny[1], emstart=emstart, carbon_cycle_model=carbon, **pce)
    h = ceh.ConcentrationsEmissionsHandler(ih.InputHandler(b.cfg()), pam)
    h.reset_with_new_pams(pam)
    m = fac.create_thermal_model(thermal)(dict(pth))
    out = UDM_OUT if thermal == "default" else TWO_OUT
    values = None
    f = b.frames
    ctx.true("thermal series reported", all(k in got for k in out))
    for i, y in enumerate(b.years):
        h.emi2conc(y, None if values is None else {"dtemp": values["dtemp"]})
        total, north, south, weight = h.conc2forc(y, f["rf_luc_data"].loc[y, 0], f["rf_sun_data"].loc[y, 0])
        m.set_feedback_gregory(weight)
        values = m.energy_budget(north, south, np.array(f["rf_volc_n_data"].loc[y]), np.array(f["rf_volc_s_data"].loc[y]))
        for k, v in out.items():
            ctx.eq(f"{k} {y}", got[k][i], values[v], rtol=1e-9, atol=1e-9)
        ctx.eq(f"total forcing {y}", got["Total_forcing"][i], total, rtol=1e-9, atol=1e-9)
        ctx.eq(f"solar forcing {y}", got["Solar_forcing"][i], f["rf_sun_data"].loc[y, 0])
        for hemi, k in (("NH", "rf_volc_n_data"), ("SH", "rf_volc_s_data")):
            ctx.eq(f"volcanic forcing {hemi} {y}", got[f"Volcanic_forcing_{hemi}"][i], mean(list(f[k].loc[y])), atol=1e-12)
    want = h.add_results_to_dict({"results_as_dict": True})
    for part in ("forcing", "concentrations", "emissions"):
        ctx.true(f"{part} reported", part in got)
        for y in b.years:
            for g in want[part].columns:
                if g in ("Total_forcing", "CO2", "CH4", "SO2", "CO2_FF", "CFC-11", "LANDUSE", "TROP_O3"):
                    ctx.eq(f"{part} {g} {y}", got[part].loc[y, g], want[part].loc[y, g], rtol=1e-9, atol=1e-9)


SOME = ("sun0_0", "vn1_0", "luc2_0", "vs1_0", "sun1_0", "luc0_0")


def cases(tier):
    out = [
        Case("twolayer-conc", coupling, dict(conc_run=True)),
        Case("twolayer-em", coupling, dict(cells=(), free=SOME), time_limit=60),
        Case("twolayer-em-long", coupling, dict(ny=(1998, 2003), cells=(), free=("sun0_0", "vn1_0")), time_limit=60),
        Case("twolayer-default", coupling, dict(carbon="default", cells=(), free=SOME), time_limit=60),
        Case("udm-conc", coupling, dict(thermal="default", conc_run=True, ncol=3)),
        Case("udm-em", coupling, dict(thermal="default", cells=(), free=SOME), time_limit=60),
        Case("udm-full", coupling, dict(thermal="default", conc_run=True, ncol=12, ny=(1998, 2000), pam_th={"lm": 40, "ldtime": 12}), time_limit=60),
    ]
    if tier == "thorough":
        out += [
            Case("udm-default", coupling, dict(thermal="default", carbon="default", ny=(1998, 2000), cells=(), free=("sun0_0",)), time_limit=300),
            Case("twolayer-long", coupling, dict(ny=(1998, 2007), cells=(), free=("sun0_0", "vn1_0", "luc3_0")), time_limit=300),
            Case("udm-wide", coupling, dict(thermal="default", conc_run=True, ncol=12, ny=(1998, 2003), pam_th={"lm": 40, "ldtime": 12}), time_limit=600),
        ]
    return out

"""C11: tropospheric ozone and aerosol forcing follow emissions relative to the first year"""
from engine.runner import Case
from props.common import put
from props.forcing import column, scenario

BOUNDS = (
    "3 to 5 simulated years; methane levels and emissions of every precursor and aerosol arbitrary in every year including first and reference year "
    "(0 to about 3 times tabulated); all forcing factors and tabulated efficiencies symbolic and of either sign; regional entries; reference year inside or at either end of the run"
)
OUTSIDE = "reference years outside the simulated period; a first-year ozone level within 0.001 DU of the reference level, where the scaling is singular"
ASSUMPTIONS = []
PREC = ("NOx", "CO", "NMVOC")


def ozone(ctx, gas="v1", ny=(1998, 2001), ref=2000, erf=True, conc_run=True):
    s = scenario(ctx, gas, ny, conc=("CH4",), em=PREC, erf=("TROP_O3",) if erf else (), conc_run=conc_run)
    s.pam["ref_yr"] = ref
    qo3 = s.pam["qo3"] = ctx.real("qo3", 0.0, 1.5)
    k = s.gas.loc["TROP_O3", "SARF_TO_ERF"]
    c, e = s.conc.copy(), s.em.copy()

    def level(y):
        v = 30.0 + 6.7 * (ctx.log(c.loc[y, "CH4"]) - ctx.log(c.loc[ref, "CH4"]))
        for g, f in zip(PREC, (0.17, 0.0014, 0.0042)):
            v = v + f * (e.loc[y, g] - e.loc[ref, g])
        return v

    v0 = level(ny[0])
    if ref != ny[0]:
        ctx.assume(ctx.either(v0 - 30.0 >= 0.001, v0 - 30.0 <= -0.001))
    res = s.run()
    for y in s.years:
        v = level(y)
        ctx.eq(f"ozone level {y}", res["concentrations"].loc[y, "TROP_O3"], v, rtol=1e-9, atol=1e-9)
        got = res["forcing"].loc[y, "TROP_O3"]
        if ref == ny[0]:
            ctx.eq(f"ozone forcing {y}", got, 0.0)
        else:
            ctx.eq(f"ozone forcing {y}", got * (30.0 - v0), k * qo3 * (v - v0), rtol=1e-8, atol=1e-8)


NAMES = {
    "SO2": ("SO2", "qdirso2"), "SO4_IND": ("SO2", "qindso2"), "OC": ("OC", "qoc"), "BC": ("BC", "qbc"),
    "BMB_AEROS": ("BMB_AEROS_OC", "qbmb"), "NMVOC": ("NMVOC", "qnmvoc"), "NH3": ("NH3", "qnh3"), "NOx": ("NOx", "qnox"),
}


def aerosols(ctx, gas="v1", ny=(1998, 2001), alpha=(), conc_run=True, emstart=None, regional=(), sign=1):
    """forcing = factor times change in the emissions since the first year"""
    names = [g for g in NAMES if g in scenario(ctx, gas, ny).gas.index]
    em = sorted({NAMES[g][0] for g in names})
    s = scenario(ctx, gas, ny, em=em, conc_run=conc_run)
    if emstart:
        s.emstart = emstart
        s.pam["lifetime_mode"] = "CONSTANT_12"
    q = {p: ctx.real(p, -0.5, 0.5) for _, p in NAMES.values()}
    s.pam.update(q)
    a = {}
    for g in alpha:
        a[g] = ctx.real(f"alpha_{g}", 0.001, 0.2) * sign
        put(ctx, s.gas, g, "ALPHA", a[g])
    for i, r in enumerate(regional):
        # an entry of its own for every region
        src = r.split("_")[0]
        s.gas.loc[r] = s.gas.loc[src]
        s.objectify()
        a[r] = put(ctx, s.gas, r, "ALPHA", ctx.real(f"alpha_{r}", 0.001, 0.2) * (-1 if (i % 2 == 0) == (sign > 0) else 1))
        s.em[r] = 1.0
        s.objectify()
        for y in s.years:
            put(ctx, s.em, y, r, ctx.real(f"e_{r}_{y}", 0.0, 50.0))
    e = s.em.copy()
    y0 = ny[0]
    res = s.run()
    for g in names + list(regional):
        src, par = NAMES.get(g, (g, None))
        for y in s.years:
            if g in ("SO2", "BC", "OC") and any(r.startswith(g + "_") for r in regional):
                want = 0.0
            elif g in a:
                want = a[g] * (e.loc[y, g] - e.loc[y0, g])
            else:
                want = q[par] * (e.loc[y, src] - e.loc[y0, src])
            ctx.eq(f"{g} forcing {y}", column(res, g).loc[y], want, rtol=1e-9, atol=1e-9)


def cases(tier):
    return [
        Case("ozone-v1", ozone, dict()),
        Case("ozone-ref-end", ozone, dict(ny=(1998, 2002), ref=2002)),
        Case("ozone-ref-first", ozone, dict(ref=1998)),
        Case("ozone-wmo", ozone, dict(gas="wmo", ny=(2008, 2011), ref=2010, erf=False)),
        Case("ozone-prescribed-years", ozone, dict(conc_run=False, ny=(1998, 2000), ref=1999)),
        Case("aerosols-v1", aerosols, dict()),
        Case("aerosols-ar6", aerosols, dict(gas="ar6", ny=(2000, 2004))),
        Case("aerosols-wmo-emission", aerosols, dict(gas="wmo", conc_run=False, emstart=2000)),
        Case("aerosols-alpha", aerosols, dict(alpha=("SO2", "BC", "NH3"))),
        Case("aerosols-alpha-negative", aerosols, dict(alpha=("SO2", "OC", "NOx"), sign=-1)),
        Case("aerosols-regional", aerosols, dict(regional=("SO2_ASIA", "BC_OECD", "SO2_REF"))),
        Case("aerosols-regional-other", aerosols, dict(regional=("OC_LAM", "BC_ASIA"), alpha=("NH3",), sign=-1, gas="ar6", ny=(2000, 2002))),
    ]

"""C09: CO2, CH4 and N2O forcing follow the published expressions with overlap"""
from engine.runner import Case
from props.common import sym_around
from props.forcing import scenario

BOUNDS = (
    "3 to 4 simulated years with CO2, CH4 and N2O concentrations of every year arbitrary (0.3 to 3 times tabulated; above and below the start), "
    "conversion factors to effective forcing symbolic in [0.5,1.5], three gas lists; emission-driven runs of 3 years whose levels follow from arbitrary emissions"
)
OUTSIDE = "concentrations of zero"
ASSUMPTIONS = []


def etminan(ctx, gas="v1", ny=(1998, 2001), erf=True, carbon="box", emstart=None):
    gases = ("CO2", "CH4", "N2O")
    if emstart is None:
        s = scenario(ctx, gas, ny, carbon, conc=gases, erf=gases if erf else ())
    else:
        # levels are the ones the run has, whatever is prescribed
        s = scenario(ctx, gas, ny, carbon, conc=gases, em=("CH4", "N2O"), erf=gases if erf else (), conc_run=False)
        s.emstart = emstart
        s.pam.update(lifetime_mode="CONSTANT_12", idtm=1)
        sym_around(ctx, s.em, ny[0] if carbon == "box" else ny[1], "CO2_FF", "e", 0.5, 2.0, 0.5, 5.0)
    f = {g: s.gas.loc[g, "SARF_TO_ERF"] for g in gases}
    c = s.conc.copy()
    res = s.run()
    if emstart is not None:
        c = res["concentrations"]
    y0 = ny[0]
    co0, ch0, n0 = (c.loc[y0, g] for g in gases)
    for y in s.years:
        co, ch, n = (c.loc[y, g] for g in gases)
        d = co - co0
        qco2 = (-2.4e-7 * d * d + 7.2e-4 * ctx.abs(d) - 2.1e-4 * 0.5 * (n + n0) + 5.36) * ctx.log(co / co0)
        qn2o = (-8.0e-6 * 0.5 * (co + co0) + 4.2e-6 * 0.5 * (n + n0) - 4.9e-6 * 0.5 * (ch + ch0) + 0.117) * (ctx.sqrt(n) - ctx.sqrt(n0))
        qch4 = (-1.3e-6 * 0.5 * (ch + ch0) - 8.2e-6 * 0.5 * (n + n0) + 0.043) * (ctx.sqrt(ch) - ctx.sqrt(ch0))
        for g, q in (("CO2", qco2), ("CH4", qch4), ("N2O", qn2o)):
            ctx.eq(f"{g} forcing {y}", res["forcing"].loc[y, g], f[g] * q, rtol=1e-9, atol=1e-9)


def cases(tier):
    return [
        Case("v1", etminan, dict()),
        Case("ar6", etminan, dict(gas="ar6", ny=(2010, 2012), erf=False)),
        Case("wmo", etminan, dict(gas="wmo", ny=(1750, 1753))),
        Case("v1-default-carbon", etminan, dict(carbon="default", ny=(1850, 1852))),
        Case("emissions", etminan, dict(ny=(1998, 2000), emstart=1999)),
        Case("emissions-first", etminan, dict(ny=(1998, 2000), emstart=1998)),
        Case("emissions-default", etminan, dict(gas="ar6", ny=(1998, 2000), emstart=1999, carbon="default")),
    ]

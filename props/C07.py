"""C07: methane loss follows the configured lifetime mode and its chemical feedback"""
from engine.runner import Case
from props.common import Scenario, put, sym_around

BOUNDS = (
    "each lifetime mode by every documented name; histories of 2 to 4 emission-driven years from an arbitrary methane level (300-6000 ppb); emissions of CH4, NOx, CO and NMVOC "
    "arbitrary from 0 to about 3 times today's in every year including the reference year 2000; natural emissions 50-500 Tg/yr and different each year; "
    "inverse lifetimes and conversion factor symbolic"
)
OUTSIDE = "scenarios that do not contain the year 2000 in the chemistry-feedback mode, longer histories, the mode CONSTANT_from_file that only a script mentions"
ASSUMPTIONS = []


def loss_rate(ctx, mode, s, em, prev, y):
    q = 1.0 / s.gas.loc["CH4", "TAU1"]
    if mode == "TAR":
        d = -0.32 * (ctx.log(prev) - ctx.log(1751.0))
        d = d + 0.0042 * (em.loc[y, "NOx"] - em.loc[2000, "NOx"])
        d = d - 0.000105 * (em.loc[y, "CO"] - em.loc[2000, "CO"])
        d = d - 0.000315 * (em.loc[y, "NMVOC"] - em.loc[2000, "NMVOC"])
        q = q * (1 + d)
    elif mode in ("CONSTANT", "CONSTANT_12"):
        q = 1.0 / 12.0
    elif mode.upper() == "WIGLEY" or mode == "other":
        q = q * ctx.power(prev / 1700.0, -0.238)
    return q + 1.0 / s.gas.loc["CH4", "TAU2"] + 1.0 / s.gas.loc["CH4", "TAU3"]


def methane(ctx, mode="TAR", gas="v1", ny=(1998, 2003), emstart=2000, sympar=(), carbon="box"):
    s = Scenario(ctx, gas, ny, emstart, carbon)
    s.pam["lifetime_mode"] = mode
    sym_around(ctx, s.conc, emstart - 1, "CH4", "c", 0.2, 3.0, 300.0, 6000.0)
    for y in sorted({2000, *range(emstart, ny[1] + 1)}):
        sym_around(ctx, s.em, y, "CH4", "e", 0.0, 3.0)
        for g in ("NOx", "CO", "NMVOC"):
            sym_around(ctx, s.em, y, g, "e", 0.0, 2.5)
        put(ctx, s.natch4, y, "CH4", ctx.real(f"nat_{y}", 50.0, 500.0))
    if "tau" in sympar:
        put(ctx, s.gas, "CH4", "TAU1", ctx.real("tau1", 5.0, 20.0))
        put(ctx, s.gas, "CH4", "TAU2", ctx.real("tau2", 50.0, 500.0))
        put(ctx, s.gas, "CH4", "TAU3", ctx.real("tau3", 50.0, 500.0))
    if "beta" in sympar:
        put(ctx, s.gas, "CH4", "BETA", ctx.real("beta", 1.0, 5.0))
    em, gasp, nat = s.em.copy(), s.gas.copy(), s.natch4.copy()
    h = s.handler()
    s.gas = gasp
    for y in range(s.y0, emstart):
        h.emi2conc(y)
    prev = s.conc.loc[emstart - 1, "CH4"]
    for y in range(emstart, ny[1] + 1):
        q = loss_rate(ctx, mode, s, em, prev, y)
        ctx.assume(q >= 0.005)
        h.emi2conc(y)
        now = h.conc["CH4"][y]
        level = (em.loc[y, "CH4"] + nat.loc[y, "CH4"]) / gasp.loc["CH4", "BETA"] / q
        ctx.eq(f"methane {y}", now, level + (prev - level) * ctx.exp(-q), rtol=1e-8, atol=1e-7)
        ctx.cut([now])
        ctx.assume(now >= 100.0)
        ctx.assume(now <= 20000.0)
        prev = now


def cases(tier):
    out = []
    for mode in ("CONSTANT", "wigley", "other"):
        out.append(Case(f"{mode}-name", methane, dict(mode=mode)))
    for mode in ("TAR", "CONSTANT_12", "WIGLEY"):
        out.append(Case(f"{mode}-v1", methane, dict(mode=mode)))
        out.append(Case(f"{mode}-later", methane, dict(mode=mode, ny=(1999, 2004), emstart=2002)))
        out.append(Case(f"{mode}-tau", methane, dict(mode=mode, ny=(1998, 2001), sympar=("tau",))))
        out.append(Case(f"{mode}-wmo", methane, dict(mode=mode, gas="wmo", ny=(1999, 2001), sympar=("beta",))))
    return out

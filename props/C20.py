"""C20: back-calculated emissions reproduce the prescribed concentrations"""
import numpy as np

from engine.runner import Case
from props.carbon import PGC, default

BOUNDS = (
    "the bisection: arbitrary linear carbon cycle (response 0.1..1 ppm per PgC, decay 0..0.5, warming response), arbitrary start state, target anywhere inside the starting "
    "bracket, tolerance 0.5-3 %, up to 8 bisection steps, one and two years; the default model: two-year series in boxes of 1e-9 ppm around given concentrations with the "
    "shipped tolerance 1e-7, one step per year, before and after other use of the instance; airborne fraction: arbitrary series of 4 years"
)
OUTSIDE = "targets outside the starting bracket (the bisection then ends at its iteration limit), arbitrary concentrations together with the shipped tolerance"
ASSUMPTIONS = []


def toy(ctx, years=2, **state):
    ab = ctx.mod("carbon_cycle.carbon_cycle_abstract")

    class Toy(ab.AbstractCarbonCycleModel):
        carbon_cycle_model_required_pamset = {}
        runs = 0

        def reset_co2_hold(self, pamset_carbon=None):
            self.c = state["c0"]

        def co2em2conc(self, yr, em_co2_common, feedback_dict=None):
            self.runs += 1
            self.year = yr
            warm = 0.0 if feedback_dict is None else feedback_dict.get("dtemp", 0.0)
            self.c = 278.0 + (1.0 - state["loss"]) * (self.c - 278.0) + state["k"] * em_co2_common + state["warm"] * warm
            return self.c

        def _get_co2_hold_values(self):
            return {"c": self.c}

        def _set_co2_hold(self, hold_dict=None):
            self.c = hold_dict["c"]

        def get_carbon_cycle_output(self, years, conc_run=False, conc_series=None, feedback_dict_series=None):
            return None

    return Toy({"nystart": 2000, "nyend": 2000 + years - 1, "idtm": 1}, {})


def bisect(ctx, rtol=0.02, maxit=8, years=1, width=60.0, where=(0.0, 1.0)):
    st = dict(c0=ctx.real("c0", 270.0, 330.0), loss=ctx.real("loss", 0.0, 0.5), k=ctx.real("k", 0.2, 1.0), warm=ctx.real("warm", -5.0, 5.0))
    m = toy(ctx, years, **st)
    for i in range(years):
        y = 2000 + i
        lo = ctx.real(f"lo_{y}", -20.0, 5.0)
        hi = lo + width
        t = ctx.real(f"dT_{y}", 0.0, 4.0)
        start = m.c
        end = lambda e: 278.0 + (1.0 - st["loss"]) * (start - 278.0) + st["k"] * e + st["warm"] * t  # noqa: E731
        target = end(lo + ctx.real(f"where_{y}", *where) * width)
        m.runs = 0
        got = m._guess_emissions_iteration(target, (hi, lo), feedback_dict={"dtemp": t}, yrix=i, rtol=rtol, maxit=maxit)
        ctx.le(f"the emissions lead to the target {y}", ctx.abs(end(got) - target), rtol * target, slack=1e-8)
        if where == (0.0, 1.0):
            ctx.le(f"inside the bracket {y}", [lo, got], [got, hi])
        ctx.eq(f"the model has taken the year {y}", m.c, end(got), rtol=1e-10, atol=1e-8)
        ctx.true(f"in the right year {y}", m.year == y)
        if ctx.symbolic and years > 1:
            ctx.cut([m.c])


def gives_up(ctx, maxit=3):
    """an impossible target ends after the allowed number of steps"""
    st = dict(c0=300.0, loss=0.1, k=ctx.real("k", 0.2, 1.0), warm=0.0)
    m = toy(ctx, 1, **st)
    target = ctx.real("target", 800.0, 900.0)
    m._guess_emissions_iteration(target, (20.0, -20.0), rtol=1e-3, maxit=maxit)
    ctx.true("bounded number of steps", m.runs <= maxit + 1)


def shipped(ctx, conc=(281.0, 285.0), warm=(0.2, 0.4), before="nothing", idtm=1, eps=1e-9, pre=278.0):
    n = len(conc)
    c = [x + ctx.real(f"c{i}", -eps, eps) for i, x in enumerate(conc)]
    pam = None if pre == 278.0 else {"preindustrial_co2_conc": pre}
    m = default(ctx, (2000, 2000 + n - 1), idtm, pam)
    fb = {"dtemp": np.array(warm)}
    if before == "run":
        for i in range(n):
            m.co2em2conc(2000 + i, 30.0, {"dtemp": 1.0})
    elif before == "back":
        m.back_calculate_emissions(np.array([290.0, 310.0][:n] + [310.0] * (n - 2)))
    em = m.back_calculate_emissions(ctx.array(c), feedback_dict_series=fb)
    f = default(ctx, (2000, 2000 + n - 1), idtm, pam)
    for i in range(n):
        ctx.eq(f"forward run of the emissions, year {i}", f.co2em2conc(2000 + i, em[i], {"dtemp": warm[i]}), c[i], rtol=1.5e-7, atol=0)


def report(ctx, conc=(281.0, 285.0), warm=(0.2, 0.4), eps=1e-9, pre=278.0):
    """the columns of a concentration-driven run"""
    n = len(conc)
    c = [x + ctx.real(f"c{i}", -eps, eps) for i, x in enumerate(conc)]
    index = list(range(2000, 2000 + n))
    pam = None if pre == 278.0 else {"preindustrial_co2_conc": pre}
    m = default(ctx, (2000, 2000 + n - 1), 1, pam)
    ctx.true("no report without concentrations", m.get_carbon_cycle_output(index, conc_run=True) is None)
    fb = {} if warm is None else {"feedback_dict_series": {"dtemp": np.array(warm)}}
    out = m.get_carbon_cycle_output(index, conc_run=True, conc_series=ctx.array(c), **fb)
    if warm is None:  # no temperatures: no warming
        warm = [0.0] * n
    em = [out["Emissions"][y] for y in index]
    f = default(ctx, (2000, 2000 + n - 1), 1, pam)
    for i, y in enumerate(index):
        ctx.eq(f"forward run of the reported emissions {y}", f.co2em2conc(y, em[i], {"dtemp": warm[i]}), c[i], rtol=1.5e-7, atol=0)
        ctx.eq(f"airborne fraction {y}", out["Airborne fraction CO2"][y], (c[i] - pre) * PGC / sum(em[: i + 1]), rtol=1e-9)
    flux = f.get_ocean_carbon_flux()
    for i, y in enumerate(index):
        ctx.eq(f"ocean flux {y}", out["Ocean carbon flux"][y], flux[i], rtol=1e-9, atol=1e-8)


def fluxes(ctx, conc=(281.0, 285.0), warm=(0.2, 0.4), eps=1e-9, pre=278.0, used=False):
    """the fluxes of a concentration series, asked for directly"""
    n = len(conc)
    c = [x + ctx.real(f"c{i}", -eps, eps) for i, x in enumerate(conc)]
    index = list(range(2000, 2000 + n))
    pam = None if pre == 278.0 else {"preindustrial_co2_conc": pre}
    out = default(ctx, (2000, 2000 + n - 1), 1, pam).get_carbon_cycle_output(
        index, conc_run=True, conc_series=ctx.array(c), feedback_dict_series={"dtemp": np.zeros(n) if warm is None else np.array(warm)}
    )
    m = default(ctx, (2000, 2000 + n - 1), 1, pam)
    if used:
        for y in index:
            m.co2em2conc(y, 30.0, {"dtemp": 1.0})
    t = {} if warm is None else {"dtemp_series": np.array(warm)}
    ocean = m.get_ocean_carbon_flux(conc_run=True, co2_conc_series=ctx.array(c), **t)
    land = m.get_biosphere_carbon_flux(conc_run=True, co2_conc_series=ctx.array(c), **t)
    for i, y in enumerate(index):
        ctx.eq(f"ocean flux {y}", ocean[i], out["Ocean carbon flux"][y], rtol=1e-9, atol=1e-8)
        ctx.eq(f"land flux {y}", land[i], out["Biosphere carbon flux"][y], rtol=1e-9, atol=1e-8)


def estimates(ctx, conc=(281.0, 285.0), rtol=1e-7):
    """the base class alone finds the emissions of a model that brings only the forward step"""
    st = dict(c0=278.0, loss=0.1, k=0.45, warm=0.0)
    n = len(conc)
    c = [x + ctx.real(f"c{i}", -1e-9, 1e-9) for i, x in enumerate(conc)]
    m = toy(ctx, n, **st)
    m.co2em2conc(2000, 10.0)
    em = m.back_calculate_emissions(ctx.array(c))
    f = toy(ctx, n, **st)
    for i in range(n):
        ctx.eq(f"forward run of the emissions, year {i}", f.co2em2conc(2000 + i, em[i]), c[i], rtol=1.5 * rtol, atol=0)


def airborne(ctx, years=4, pre=None, neg=False):
    cc = ctx.mod("carbon_cycle.common_carbon_cycle_functions")
    e = ctx.reals("e", years, -20.0 if neg else 0.01, 40.0)
    c = ctx.reals("c", years, 200.0, 1500.0)
    p = 278.0 if pre is None else ctx.real("preindustrial", *pre)
    for i in range(years):
        s = sum(e[: i + 1])
        ctx.assume(ctx.either(s <= -0.01, s >= 0.01))
    got = cc.calculate_airborne_fraction(ctx.array(e), ctx.array(c)) if pre is None else cc.calculate_airborne_fraction(ctx.array(e), ctx.array(c), preindustrial_co2_conc=p)
    for i in range(years):
        ctx.eq(f"airborne fraction x cumulative emissions = atmospheric growth, year {i}", got[i] * sum(e[: i + 1]), (c[i] - p) * PGC, rtol=1e-9, atol=1e-7)


def cases(tier):
    out = [
        Case("bisect", bisect),
        Case("bisect-wide", bisect, dict(width=200.0, rtol=0.03)),
        Case("bisect-years", bisect, dict(years=2, rtol=0.05)),
        Case("bisect-outside", bisect, dict(where=(1.2, 1.6), maxit=60)),
        Case("bisect-below", bisect, dict(where=(-0.6, -0.2), maxit=60)),
        Case("gives-up", gives_up),
        Case("shipped", shipped),
        Case("shipped-after-run", shipped, dict(before="run")),
        Case("shipped-after-back", shipped, dict(before="back")),
        Case("shipped-falling", shipped, dict(conc=(275.0, 270.0))),
        Case("shipped-jump", shipped, dict(conc=(278.0, 330.0), warm=(0.0, 2.0))),
        Case("shipped-x2", shipped, dict(conc=(282.0,), warm=(0.3,), idtm=2)),
        Case("shipped-x4", shipped, dict(conc=(282.0,), warm=(0.3,), idtm=4)),
        Case("shipped-x24", shipped, dict(conc=(282.0,), warm=(0.3,), idtm=24)),
        Case("report", report),
        Case("report-preindustrial", report, dict(conc=(284.0, 290.0), pre=282.5)),
        Case("report-no-warming", report, dict(warm=None)),
        Case("fluxes", fluxes),
        Case("fluxes-used", fluxes, dict(used=True)),
        Case("fluxes-no-warming", fluxes, dict(warm=None)),
        Case("fluxes-preindustrial", fluxes, dict(conc=(284.0, 290.0), pre=282.5)),
        Case("shipped-preindustrial", shipped, dict(conc=(284.0, 290.0), pre=282.5)),
        Case("estimates", estimates),
        Case("estimates-falling", estimates, dict(conc=(274.0, 270.0, 290.0))),
        Case("estimates-jump", estimates, dict(conc=(278.0, 400.0))),
        Case("airborne", airborne),
        Case("airborne-preindustrial", airborne, dict(pre=(260.0, 300.0))),
        Case("airborne-removal", airborne, dict(neg=True, years=3)),
    ]
    if tier == "thorough":
        out += [Case("bisect-fine", bisect, dict(rtol=0.005, maxit=12)), Case("bisect-3", bisect, dict(years=3, rtol=0.03))]
    return out

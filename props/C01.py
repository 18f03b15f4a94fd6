"""C01: energy is conserved between forcing, radiation and ocean heat uptake (upwelling-diffusion model)"""
from engine.runner import Case
from props.thermal import C1, SEC_YEAR, forcings, set_state, thickness, udm, year_mean_forcing

BOUNDS = (
    "layer temperatures within 200 K of the start at every step; one simulated year from an arbitrary state (every layer temperature in [-5,12] K, previous forcing in [-5,10] W/m2) and "
    "histories of up to 3 years from rest; forcing of each hemisphere in [-5,10], volcanic in [-10,2] W/m2; 9 and 40 layers, "
    "1, 2, 3, 12 steps per year, 1 to 12 volcanic columns; parameters at their defaults or symbolic over the calibration ranges "
    "(rlamdo 5-25, akapa .06-.8, cpi .16-.57, W .55-2.55, beto 0-7, lambda .3-1.6, mixed 25-125, ocean fractions .5-.9, efficacy .5-2)"
)
OUTSIDE = "direct heat exchange between the hemispheric air masses switched on (ebbeta other than 0: the scheme treats it half explicitly), other layer counts and step counts, mixed layers over 125 m, round-off of the linear solver"
ASSUMPTIONS = ["the banded linear solver returns the solution of the system it is given"]


def closure(ctx, lm=9, ldtime=2, ncol=1, params=None, sympar=(), state=True, years=1):
    p = {"lm": lm, "ldtime": ldtime, "threstemp": 0.0}
    p.update(params or {})
    ctx.cap_solutions(200.0)
    m, pam = udm(ctx, p, sympar)
    if state:
        tn, ts, fpn, fps = set_state(ctx, m, lm)
    else:
        tn, ts, fpn, fps = [0.0] * lm, [0.0] * lm, 0.0, 0.0
    dz = thickness(pam)
    eff = pam["ocean_efficacy"]
    for y in range(years):
        fn, fs, vn, vs = forcings(ctx, ncol, str(y))
        out = m.energy_budget(fn, fs, vn, vs)
        tn1, ts1 = list(out["tn"]), list(out["ts"])
        heat = 0
        for i in range(lm):
            heat = heat + dz[i] * (pam["foan"] * (tn1[i] - tn[i]) + pam["foas"] * (ts1[i] - ts[i]))
        absorbed = year_mean_forcing(fn + fs, fpn + fps, vn + vs, ldtime)
        absorbed = absorbed - (out["dtempnh_air"] + out["dtempsh_air"]) / pam["lambda"]
        if not (isinstance(eff, float) and eff == 1.0):
            # efficacy: the mixed layer gives up eff times the diffusive flux the layer below receives
            flux = 2e-4 * pam["akapa"] * C1 / 100.0
            exch = pam["foan"] * (tn1[0] - tn1[1]) + pam["foas"] * (ts1[0] - ts1[1])
            absorbed = absorbed - (eff - 1.0) * flux * exch
        ctx.eq(f"ocean heat gain = absorbed energy, year {y}", heat * C1 / SEC_YEAR, absorbed, rtol=0, atol=1e-6)
        tn, ts, fpn, fps = tn1, ts1, fn, fs


ALL = ("rlamdo", "akapa", "cpi", "W", "beto", "lambda", "mixed", "foan", "foas")


def cases(tier):
    out = [
        Case("state-40x12", closure, dict(lm=40, ldtime=12, ncol=12)),
        Case("state-40x1", closure, dict(lm=40, ldtime=1, ncol=1)),
        Case("state-9x3-volc2", closure, dict(lm=9, ldtime=3, ncol=2)),
        Case("history-40x12x2", closure, dict(lm=40, ldtime=12, ncol=1, state=False, years=2)),
        Case("history-9x2x3", closure, dict(lm=9, ldtime=2, ncol=2, state=False, years=3)),
        Case("thres-9x2", closure, dict(lm=9, ldtime=2, params={"threstemp": 7.0})),
        Case("thres-40x2", closure, dict(lm=40, ldtime=2, ncol=12, params={"threstemp": 7.0})),
        Case("thres-40x12", closure, dict(lm=40, ldtime=12, ncol=12, params={"threstemp": 7.0})),
        Case("thres-9x12", closure, dict(lm=9, ldtime=12, ncol=12, params={"threstemp": 9.0})),
        Case("thres-9x3x2", closure, dict(lm=9, ldtime=3, ncol=1, state=False, years=2, params={"threstemp": 7.0})),
        Case("efficacy-40x1", closure, dict(lm=40, ldtime=1, params={"ocean_efficacy": 1.3})),
        Case("deepmix-9x2", closure, dict(lm=9, ldtime=2, params={"mixed": 60.0, "foan": 0.7, "foas": 0.6})),
        Case("params-9x1", closure, dict(lm=9, ldtime=1, sympar=ALL)),
        Case("params-eff-9x1", closure, dict(lm=9, ldtime=1, sympar=("lambda", "rlamdo", "akapa", "ocean_efficacy"))),
    ]
    if tier == "thorough":
        out += [
            Case("params-9x2", closure, dict(lm=9, ldtime=2, sympar=("beto", "W", "lambda", "akapa"))),
            Case("params-40x1", closure, dict(lm=40, ldtime=1, sympar=ALL)),
            Case("history-40x12x4", closure, dict(lm=40, ldtime=12, ncol=12, state=False, years=4)),
            Case("thres-sym-9x1", closure, dict(lm=9, ldtime=1, params={"threstemp": 7.0}, sympar=("W", "beto", "lambda"))),
        ]
    return out

"""C34: heat moves through the ocean with the configured exchange, diffusion and upwelling"""
import numpy as np

from engine.runner import Case
from props.thermal import C1, SEC_YEAR, forcings, set_state, thickness, udm

BOUNDS = (
    "one simulated year from an arbitrary state (every layer temperature of both hemispheres in [-5,12] K, previous forcing in [-5,10] W/m2), forcing of each hemisphere in [-5,10], "
    "volcanic in [-10,2] W/m2, layer temperatures within 200 K of the start; 8, 9, 20 and 40 layers, 1, 2, 3, 6 and 12 steps per year, 1 to 12 volcanic columns; parameters at their "
    "defaults, at other fixed values, or symbolic over the calibration ranges"
)
OUTSIDE = "other layer and step counts; where a rewritten solver does not solve one tridiagonal system per hemisphere and step, years of several steps"
ASSUMPTIONS = ["the banded linear solver returns the solution of the system it is given"]


def residuals(pam, dz, h, new, old, other, dq, dqo, warm):
    """
    What is missing, layer by layer and in K, in the heat balance of one
    hemisphere over one step; linear in ``new``.
    """
    lm, dt = pam["lm"], SEC_YEAR / pam["ldtime"]
    lam, rl, eb = 1.0 / pam["lambda"], pam["rlamdo"], pam["ebbeta"]
    f, fo = (pam["foan"], pam["foas"]) if h == "n" else (pam["foas"], pam["foan"])
    kappa = 1e-4 * pam["akapa"]
    beto = pam["beto"] if h == "n" else pam["beto"] * pam["foan"] / pam["foas"]
    w = pam["W"] / SEC_YEAR
    if not (isinstance(pam["threstemp"], float) and pam["threstemp"] == 0.0):
        w = w * (1 - 0.3 * warm / pam["threstemp"])
    res = []
    # air of this hemisphere: balance with the mixed layer, space and the air of the other one
    own, oth = lam + f * rl + eb, lam + fo * rl + eb
    air = (oth * (dq + f * rl * new[0]) + eb * (dqo + fo * rl * other[0])) / (own * oth - eb * eb)
    for i in range(lm):
        watts = beto * (other[i] - old[i]) / C1
        flow = 0
        if i == 0:
            watts = watts + rl * (air - new[0]) / C1
            flow = flow + pam["ocean_efficacy"] * kappa * (new[1] - new[0]) / (dz[1] / 2) + w * (new[0] - pam["cpi"] * old[0])
        else:
            above = dz[1] / 2 if i == 1 else (dz[i - 1] + dz[i]) / 2
            flow = flow + kappa * (new[i - 1] - new[i]) / above - w * (new[i] if i > 1 else new[0])
            if i < lm - 1:
                flow = flow + kappa * (new[i + 1] - new[i]) / ((dz[i] + dz[i + 1]) / 2) + w * new[i + 1]
            else:
                flow = flow + w * pam["cpi"] * old[0]
        res.append(new[i] - old[i] - dt / dz[i] * (flow + watts))
    return res


def solve(fn, lm):
    zero = np.array(fn([0.0] * lm), dtype=float)
    a = np.array([np.array(fn(list(np.eye(lm)[j])), dtype=float) - zero for j in range(lm)]).T
    return list(np.linalg.solve(a, -zero))


def transport(ctx, lm=9, ldtime=1, ncol=1, params=None, sympar=(), ranges=None):
    p = {"lm": lm, "ldtime": ldtime, "threstemp": 0.0}
    p.update(params or {})
    ctx.cap_solutions(200.0)
    m, pam = udm(ctx, p, sympar, ranges)
    tn, ts, fpn, fps = set_state(ctx, m, lm)
    tn, ts = list(tn), list(ts)
    dz = thickness(pam)
    fn, fs, vn, vs = forcings(ctx, ncol)
    seen = len(ctx.solutions())
    out = m.energy_budget(fn, fs, vn, vs)
    endn, ends = list(out["tn"]), list(out["ts"])
    steps = None
    if ldtime == 1:
        steps = [(endn, ends)]
    elif ctx.symbolic:
        sols = [list(x) for x in ctx.solutions()[seen:]]
        if len(sols) == 2 * ldtime and all(len(x) == lm for x in sols):
            first = 0 if all(a is b or str(a) == str(b) for a, b in zip(sols[-2], endn)) else 1
            steps = [(sols[2 * k + first], sols[2 * k + 1 - first]) for k in range(ldtime)]
        else:
            return
    warmn = warms = 0.0
    meann = means = meanan = meanas = 0
    lam, rl, eb = 1.0 / pam["lambda"], pam["rlamdo"], pam["ebbeta"]
    for k in range(ldtime):
        share = (k + 1) / ldtime
        qn = share * fn + (1 - share) * fpn + vn[k % ncol]
        qs = share * fs + (1 - share) * fps + vs[k % ncol]
        on, os_ = tn, ts

        def north(x):
            return residuals(pam, dz, "n", x, on, os_, qn, qs, warmn)

        def south(x):
            return residuals(pam, dz, "s", x, os_, on, qs, qn, warms)

        new = steps[k] if steps else (solve(north, lm), solve(south, lm))
        ctx.eq(f"heat balance of the northern layers, step {k + 1}", north(new[0]), [0.0] * lm, rtol=0, atol=1e-9)
        ctx.eq(f"heat balance of the southern layers, step {k + 1}", south(new[1]), [0.0] * lm, rtol=0, atol=1e-9)
        tn, ts = new
        warmn, warms = tn[0], ts[0]
        meann, means = meann + tn[0] / ldtime, means + ts[0] / ldtime
        meanan, meanas = meanan + qn / ldtime, meanas + qs / ldtime
    ctx.eq("northern layers at the end of the year", endn, tn, rtol=0, atol=1e-7)
    ctx.eq("southern layers at the end of the year", ends, ts, rtol=0, atol=1e-7)
    ctx.eq("sea temperatures are the year's mean", [out["dtempnh_sea"], out["dtempsh_sea"]], [meann, means], rtol=0, atol=1e-7)
    an, as_ = out["dtempnh_air"], out["dtempsh_air"]
    ctx.eq("air of the north is in balance", (lam + pam["foan"] * rl + eb) * an, meanan + pam["foan"] * rl * meann + eb * as_, rtol=0, atol=1e-6)
    ctx.eq("air of the south is in balance", (lam + pam["foas"] * rl + eb) * as_, meanas + pam["foas"] * rl * means + eb * an, rtol=0, atol=1e-6)


OTHER = {"rlamdo": 8.0, "akapa": 0.2, "cpi": 0.5, "W": 0.9, "beto": 2.5, "lambda": 1.1, "mixed": 60.0, "foan": 0.7, "foas": 0.85}


def cases(tier):
    out = [
        Case("default-9x12", transport, dict(lm=9, ldtime=12, ncol=12, params={"threstemp": 7.0})),
        Case("default-40x3", transport, dict(lm=40, ldtime=3, params={"threstemp": 7.0})),
        Case("default-40x1", transport, dict(lm=40, ldtime=1)),
        Case("other-40x2", transport, dict(lm=40, ldtime=2, ncol=2, params={**OTHER, "threstemp": 10.0})),
        Case("other-20x6", transport, dict(lm=20, ldtime=6, ncol=1, params={**OTHER, "threstemp": 0.0})),
        Case("air-9x2", transport, dict(lm=9, ldtime=2, params={"ebbeta": 1.3, "threstemp": 6.0})),
        Case("air-9x1", transport, dict(lm=9, ldtime=1, params=OTHER, sympar=("ebbeta",))),
        Case("efficacy-9x3", transport, dict(lm=9, ldtime=3, params={"ocean_efficacy": 1.4, "threstemp": 7.0})),
        Case("params-9x1", transport, dict(lm=9, ldtime=1, sympar=("rlamdo", "lambda", "foan", "foas"))),
        Case("params-8x1", transport, dict(lm=8, ldtime=1, sympar=("akapa", "cpi", "W", "beto", "mixed", "ocean_efficacy"))),
        Case("params-thres-9x2", transport, dict(lm=9, ldtime=2, params={"threstemp": 7.0}, sympar=("W", "threstemp"))),
    ]
    if tier == "thorough":
        out += [
            Case("other-20x12", transport, dict(lm=20, ldtime=12, ncol=12, params={**OTHER, "threstemp": 12.0, "ebbeta": 0.4, "ocean_efficacy": 0.8})),
            Case("params-all-9x1", transport, dict(lm=9, ldtime=1, sympar=("rlamdo", "lambda", "foan", "foas", "akapa", "cpi", "W", "beto", "mixed", "ocean_efficacy"))),
            Case("params-40x2", transport, dict(lm=40, ldtime=2, params={"threstemp": 7.0}, sympar=("akapa", "W", "cpi"))),
        ]
    return out

"""C04: the upwelling-diffusion diagnostics agree with each other and with the state"""
from engine.runner import Case
from props.thermal import SEC_YEAR, forcings, mean, set_state, thickness, udm

BOUNDS = (
    "one year from an arbitrary state and 2 years from rest; forcing per hemisphere in [-5,10], volcanic in [-10,2] W/m2; 8 to 40 layers, 1 to 12 steps; "
    "mixed-layer depth symbolic over 20-690 m, feedback, efficacy, exchange coefficients and ocean fractions symbolic"
)
OUTSIDE = "mixed layers of 700 m or more, fewer than 8 layers"
ASSUMPTIONS = ["the banded linear solver returns the solution of the system it is given"]
UNIT = 1030.0 * 3.997e-19 * 2.55e14  # 10^22 J per metre and kelvin over one hemisphere


def diagnostics(ctx, lm=9, ldtime=1, ncol=1, params=None, sympar=(), state=True, years=1, ranges=None):
    p = {"lm": lm, "ldtime": ldtime, "threstemp": 0.0}
    p.update(params or {})
    ctx.cap_solutions(200.0)
    m, pam = udm(ctx, p, sympar, ranges)
    tn = ts = None
    if state:
        tn, ts, _, _ = set_state(ctx, m, lm)
    else:
        tn, ts = [0.0] * lm, [0.0] * lm
    dz = thickness(pam)
    fon, fos = pam["foan"], pam["foas"]
    for y in range(years):
        fn, fs, vn, vs = forcings(ctx, ncol, str(y))
        o = m.energy_budget(fn, fs, vn, vs)
        n1, s1 = list(o["tn"]), list(o["ts"])
        for kind in ("", "_air", "_sea"):
            ctx.eq(f"global{kind} = mean of hemispheres, year {y}", o["dtemp" + kind], (o["dtempnh" + kind] + o["dtempsh" + kind]) / 2)
        ctx.eq(f"northern blend, year {y}", o["dtempnh"], fon * o["dtempnh_sea"] + (1 - fon) * o["dtempnh_air"])
        ctx.eq(f"southern blend, year {y}", o["dtempsh"], fos * o["dtempsh_sea"] + (1 - fos) * o["dtempsh_air"])
        if ldtime == 1:
            ctx.eq(f"sea temperature is the mixed layer, year {y}", [o["dtempnh_sea"], o["dtempsh_sea"]], [n1[0], s1[0]])
        deep = 0
        for i in range(1, lm):
            deep = deep + dz[i] * (fon * (n1[i] - tn[i]) + fos * (s1[i] - ts[i]))
        anom = (pam["ocean_efficacy"] - 1.0) * deep * 4184.0 * 1000.0 / SEC_YEAR
        rn = fn + mean(vn) - o["dtempnh"] / pam["lambda"] - anom
        rs = fs + mean(vs) - o["dtempsh"] / pam["lambda"] - anom
        ctx.eq(f"anomalous radiation, year {y}", o["anomalous_radiation"], anom, rtol=0, atol=1e-7)
        ctx.eq(f"northern imbalance, year {y}", o["RIBN"], rn, rtol=0, atol=1e-7)
        ctx.eq(f"southern imbalance, year {y}", o["RIBS"], rs, rtol=0, atol=1e-7)
        ctx.eq(f"global imbalance, year {y}", o["RIB"], (o["RIBN"] + o["RIBS"]) / 2, rtol=0, atol=1e-8)
        tot = 0
        top = 0
        left = 700.0
        for i in range(lm):
            h = fon * n1[i] + fos * s1[i]
            tot = tot + dz[i] * h
            if i == 0:
                top, left = dz[0] * h, 700.0 - dz[0]
            elif left is not None and left > 100.0:
                top, left = top + 100.0 * h, left - 100.0
            elif left is not None:
                top, left = top + left * h, None
        ctx.eq(f"total heat content, year {y}", o["OHCTOT"], UNIT * tot, rtol=0, atol=1e-7)
        ctx.eq(f"heat content above 700 m, year {y}", o["OHC700"], UNIT * top, rtol=0, atol=1e-7)
        tn, ts = n1, s1


def cases(tier):
    mixed = {"mixed": (20.0, 690.0)}
    out = [
        Case("state-40x12", diagnostics, dict(lm=40, ldtime=12, ncol=12, params={"threstemp": 7.0})),
        Case("state-mixed-9x1", diagnostics, dict(lm=9, ldtime=1, sympar=("mixed",), ranges=mixed)),
        Case("state-mixed-8x1", diagnostics, dict(lm=8, ldtime=1, sympar=("mixed", "foan", "foas"), ranges=mixed)),
        Case("state-params-9x1", diagnostics, dict(lm=9, ldtime=1, ncol=3, sympar=("lambda", "ocean_efficacy", "foan", "foas", "akapa"))),
        Case("state-eff-40x2", diagnostics, dict(lm=40, ldtime=2, ncol=4, params={"ocean_efficacy": 1.25, "mixed": 45.0})),
        Case("state-eb-9x3", diagnostics, dict(lm=9, ldtime=3, ncol=2, params={"ebbeta": 0.6, "mixed": 100.0})),
        Case("history-20x4", diagnostics, dict(lm=20, ldtime=4, ncol=2, state=False, years=2, params={"ocean_efficacy": 0.8})),
        Case("history-40x12", diagnostics, dict(lm=40, ldtime=12, ncol=12, state=False, years=2, params={"threstemp": 7.0, "mixed": 200.0})),
    ]
    return out

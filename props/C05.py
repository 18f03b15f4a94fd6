"""C05: the pattern-mediated feedback is the baseline plus sensitivity times weight"""
from engine.runner import Case
from props.C02 import model as two_layer
from props.thermal import C1, SEC_YEAR, forcings, mean, set_state, thickness, udm, year_mean_forcing

BOUNDS = (
    "any sequence of 3 aerosol weights in [-0.2,1.2] with a simulated year between them; sensitivity in [-0.5,1.5] W/m2/K and feedback symbolic; "
    "arbitrary forcing; 9-layer upwelling-diffusion model (1 and 2 steps per year), 40 layers with default parameters, two-layer model"
)
OUTSIDE = "feedbacks that reach zero"
ASSUMPTIONS = ["the banded linear solver returns the solution of the system it is given"]
KEYS = ["dtemp", "dtempnh", "dtempsh", "dtemp_air", "dtemp_sea", "RIBN", "RIBS", "RIB", "OHC700", "OHCTOT"]
TWO = ["dtemp", "dtemp_fast", "dtemp_slow", "RIB", "OHCTOT", "OHC_MIXED", "OHC_DEEP", "OHC700"]


def udm_feedback(ctx, lm=9, ldtime=1, ncol=1, sympar=(), params=None, weights=3, state=True):
    """after any sequence of weights the last one alone decides"""
    p = {"lm": lm, "ldtime": ldtime, "threstemp": 0.0}
    p.update(params or {})
    ctx.cap_solutions(200.0)
    m, pam = udm(ctx, p, sympar)
    base = 1.0 / pam["lambda"]
    ctx.eq("feedback before any weight", m.get_feedback_gregory(), base)
    for i in range(weights):
        w = ctx.real(f"w{i}", -0.2, 1.2)
        m.set_feedback_gregory(w)
        lam = base + w * pam["delta_lambda_aero"]
        ctx.assume(lam >= 0.2)
        ctx.eq(f"feedback after weight {i}", m.get_feedback_gregory(), lam)
    if state:
        tn, ts, fpn, fps = set_state(ctx, m, lm)
    else:
        tn, ts, fpn, fps = [0.0] * lm, [0.0] * lm, 0.0, 0.0
    fn, fs, vn, vs = forcings(ctx, ncol)
    o = m.energy_budget(fn, fs, vn, vs)
    heat = 0
    dz = thickness(pam)
    n1, s1 = o["tn"], o["ts"]
    for i in range(lm):
        heat = heat + dz[i] * (pam["foan"] * (n1[i] - tn[i]) + pam["foas"] * (s1[i] - ts[i]))
    absorbed = year_mean_forcing(fn + fs, fpn + fps, vn + vs, ldtime) - lam * (o["dtempnh_air"] + o["dtempsh_air"])
    ctx.eq("energy closes with the weighted feedback", heat * C1 / SEC_YEAR, absorbed, rtol=0, atol=1e-6)
    ctx.eq("northern imbalance uses it", o["RIBN"], fn + mean(vn) - lam * o["dtempnh"], rtol=0, atol=1e-7)
    ctx.eq("southern imbalance uses it", o["RIBS"], fs + mean(vs) - lam * o["dtempsh"], rtol=0, atol=1e-7)
    if ldtime == 1:
        # air temperature of each hemisphere from its own balance
        for h, f, v, fp, t in (("nh", fn, vn, fpn, n1[0]), ("sh", fs, vs, fps, s1[0])):
            fo = pam["foan"] if h == "nh" else pam["foas"]
            air = o[f"dtemp{h}_air"]
            ctx.eq(f"air balance {h}", (lam + fo * pam["rlamdo"]) * air, f + v[0] + fo * pam["rlamdo"] * t, rtol=0, atol=1e-7)


def same_as_plain(ctx, kind="udm", params=None, years=2, delta=0.0, weights=(0.3, 0.9), ncol=1):
    """sensitivity zero: weights change nothing; constant weight: a model with that feedback"""
    if kind == "udm":
        p = {"lm": 9, "ldtime": 2}
        p.update(params or {})
        a, pam = udm(ctx, {**p, "delta_lambda_aero": delta})
        keys = KEYS
    else:
        a, pam = two_layer(ctx, (), {**(params or {}), "delta_lambda_aero": delta})
        keys = TWO
    last = weights[-1]
    if kind == "udm":
        b = udm(ctx, {**p, "lambda": 1.0 / (1.0 / pam["lambda"] + last * delta)})[0]
    else:
        b = two_layer(ctx, (), {**(params or {}), "lambda": pam["lambda"] + last * delta})[0]
    ctx.cap_solutions(200.0)
    for y in range(years):
        ws = [ctx.real(f"w{y}_{i}", 0, 1) for i in range(2)] if delta == 0 else weights
        for w in ws:
            a.set_feedback_gregory(w)
        f = forcings(ctx, ncol, str(y))
        ra, rb = a.energy_budget(*f), b.energy_budget(*f)
        for k in keys:
            ctx.eq(f"{k} year {y}", ra[k], rb[k], rtol=1e-9, atol=1e-7)


def two_feedback(ctx, years=2, sympar=("lambda", "k", "ocean_efficacy", "mixed", "deep")):
    delta = ctx.real("delta", -0.2, 1.5)
    m, pam = two_layer(ctx, sympar, {"delta_lambda_aero": delta})
    ctx.eq("feedback before any weight", m.get_feedback_gregory(), pam["lambda"])
    tf = ts = 0.0
    cf = pam["mixed"] * 1000 * 4184.0 / SEC_YEAR
    eff = pam["ocean_efficacy"]
    for y in range(years):
        lam = None
        for i in range(2):
            w = ctx.real(f"w{y}_{i}", -0.2, 1.2)
            m.set_feedback_gregory(w)
            lam = pam["lambda"] + w * delta
            ctx.assume(lam >= 0.05)
            ctx.eq(f"feedback year {y} weight {i}", m.get_feedback_gregory(), lam)
        fn, fs, vn, vs = forcings(ctx, 1, str(y))
        o = m.energy_budget(fn, fs, vn, vs)
        forc = (fn + fs + vn[0] + vs[0]) / 2
        f1, s1 = o["dtemp_fast"], o["dtemp_slow"]
        ctx.eq(f"fast layer year {y}", cf * (f1 - tf), forc - lam * tf - eff * pam["k"] * (tf - ts))
        ctx.eq(f"imbalance year {y}", o["RIB"], forc - lam * f1 - (eff - 1) * pam["k"] * (f1 - s1))
        fo = (pam["foan"] + pam["foas"]) / 2
        ctx.eq(f"land response year {y}", (o["dtemp"] - fo * f1) * lam, (1 - fo) * forc)
        tf, ts = f1, s1
        ctx.cut([tf, ts])


def cases(tier):
    out = [
        Case("udm-9x1", udm_feedback, dict(sympar=("delta_lambda_aero", "lambda"))),
        Case("udm-9x1-more", udm_feedback, dict(sympar=("delta_lambda_aero", "lambda", "foan", "foas", "rlamdo"))),
        Case("udm-9x2", udm_feedback, dict(ldtime=2, ncol=2, params={"delta_lambda_aero": 0.6})),
        Case("udm-40x2", udm_feedback, dict(lm=40, ldtime=2, ncol=12, params={"delta_lambda_aero": 0.8, "threstemp": 7.0})),
        Case("udm-zero", same_as_plain, dict(years=2)),
        Case("udm-zero-40", same_as_plain, dict(years=1, params={"lm": 40, "ldtime": 12}, ncol=12)),
        Case("udm-const", same_as_plain, dict(years=2, delta=0.7, params={"threstemp": 0.0})),
        Case("two-zero", same_as_plain, dict(kind="two", years=2)),
        Case("two-const", same_as_plain, dict(kind="two", years=2, delta=0.7)),
        Case("two-layer", two_feedback, dict()),
    ]
    return out

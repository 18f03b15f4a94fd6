"""C19: pulse-response functions of the default carbon cycle"""
import numpy as np

from engine.runner import Case
from props.C21 import compare
from props.C23 import data
from props.carbon import default
from props.common import Scenario

BOUNDS = (
    "1 to 3 pools, coefficients 0.01..5 (not normalised), timescales 0.2..400 years, time steps 0..2000 with 1..24 steps per year for the functions themselves; "
    "one or two years of one or two steps for the functions inside the model, every order of the flat parameter names, up to 11 pools for the flat names"
)
OUTSIDE = "zero timescales or coefficients that sum to zero, non-numeric entries"
ASSUMPTIONS = ["real arithmetic; exp as an uninterpreted function with bounds, identical arguments give identical values"]


def pools(ctx, n, const=0):
    c = [ctx.real(f"coef{i}", 0.01, 5.0) for i in range(n + const)]
    t = [ctx.real(f"tim{i}", 0.2, 400.0) for i in range(n)]
    return c, t


def rs_want(ctx, c, t, time):
    return (c[0] + sum(c[i + 1] * ctx.exp(-time / t[i]) for i in range(len(t)))) / sum(c)


def rb_want(ctx, c, t, time):
    return sum(c[i] / (t[i] * t[i]) * time * ctx.exp(-time / t[i]) for i in range(len(t))) / sum(c)


def custom(ctx, kind="rs", n=2, steps=24, its=(0, 1, 30)):
    rf = ctx.mod("carbon_cycle.rfuns")
    c, t = pools(ctx, n, kind == "rs")
    if kind == "rs":
        got = rf.rs_function2(np.array(its), rs_coef=ctx.array(c), rs_tim=ctx.array(t), idtm=steps)
        want = [rs_want(ctx, c, t, i / steps) for i in its]
        start = rf.rs_function2(np.array([0]), rs_coef=ctx.array(c), rs_tim=ctx.array(t), idtm=steps)
    else:
        got = rf.rb_function2(np.array(its), rb_coef=ctx.array(c), rb_tim=ctx.array(t), idtm=steps)
        want = [rb_want(ctx, c, t, i / steps) for i in its]
        start = rf.rb_function2(np.array([0]), rb_coef=ctx.array(c), rb_tim=ctx.array(t), idtm=steps)
    for i, g, w in zip(its, got, want):
        ctx.eq(f"{kind} at step {i}", g, w, rtol=1e-9, atol=1e-9)
    ctx.eq(f"{kind} at time zero", np.ravel(start)[0], 1.0 if kind == "rs" else 0.0, rtol=1e-10, atol=1e-10)


def one_time(ctx, kind="rs", n=2, steps=24, hi=2000):
    """a single time gives the number the list of times gives"""
    rf = ctx.mod("carbon_cycle.rfuns")
    c, t = pools(ctx, n, kind == "rs")
    it = ctx.real("it", 0, hi)
    if kind == "rs":
        got, want = rf.rs_function2(it, rs_coef=ctx.array(c), rs_tim=ctx.array(t), idtm=steps), rs_want(ctx, c, t, it / steps)
    else:
        got, want = rf.rb_function2(it, rb_coef=ctx.array(c), rb_tim=ctx.array(t), idtm=steps), rb_want(ctx, c, t, it / steps)
    ctx.eq(f"{kind} at a single step", got, want, rtol=1e-9, atol=1e-9)


JOOS = {
    "early": (0.12935, ((0.21898, 0.034569), (0.17003, 0.26936), (0.24071, 0.96083), (0.24093, 4.9792))),
    "late": (0.022936, ((0.24278, 1.2679), (0.13963, 5.2528), (0.089318, 18.601), (0.03782, 68.736), (0.035549, 232.3))),
}


def standard(ctx, kind="rs", steps=24, lo=0, hi=2000):
    """the default functions of time only"""
    rf = ctx.mod("carbon_cycle.rfuns")
    it = ctx.real("it", lo, hi)
    time = it / steps
    if kind == "rs":
        c, terms = JOOS["early" if hi <= 2 * steps else "late"]
        if hi <= 2 * steps:
            ctx.assume(it < 2 * steps)
        want = c + sum(a * ctx.exp(-time / b) for a, b in terms)
        ctx.eq("ocean pulse response", rf.rs_function(it, steps), want, rtol=1e-9, atol=1e-9)
    else:
        want = 0.70211 * ctx.exp(-0.35 * time) + 13.4141e-3 * ctx.exp(-time / 20.0) - 0.71846 * ctx.exp(-55.0 * time / 120.0) + 2.9323e-3 * ctx.exp(-time / 100.0)
        ctx.eq("biotic decay", rf.rb_function(it, steps), want, rtol=1e-9, atol=1e-9)


def inside(ctx, n=2, years=3, steps=1, how="flat", both=True):
    """flat names, dictionaries, construction and reset: the same trajectory"""
    c, t = pools(ctx, n)
    k = ctx.real("konst", 0.01, 5.0)
    rs = {"coeffs": [k] + c, "timescales": t}
    rb = {"coeffs": list(reversed(c)), "timescales": [x + 1.0 for x in t]}
    flat = {}
    for i in reversed(range(n)):
        flat[f"rb_tim{i}"], flat[f"rb_coef{i}"], flat[f"rs_tim{i}"] = rb["timescales"][i], rb["coeffs"][i], rs["timescales"][i]
    for i in range(n + 1):
        flat[f"rs_coef{i}"] = rs["coeffs"][i]
    if not both:
        flat = {a: b for a, b in flat.items() if a.startswith("rs")}
    named = {"rs_function": rs, "rb_function": rb} if both else {"rs_function": rs}
    given = dict(flat)
    ny = (2000, 2000 + years - 1)
    a = default(ctx, ny, steps, named)
    if how == "flat":
        b = default(ctx, ny, steps, flat)
    elif how == "reset-flat":
        b = default(ctx, ny, steps)
        b.reset_co2_hold(flat)
    elif how == "reset-named":
        b = default(ctx, ny, steps)
        b.reset_co2_hold(named)
    else:
        b = default(ctx, ny, steps, named)
        for y in range(ny[0], ny[1] + 1):
            b.co2em2conc(y, 7.0)
        b.reset_co2_hold({"beta_f": 0.287})
    ctx.true("the given parameters are left alone", flat.keys() == given.keys() and all(flat[x] is given[x] for x in given))
    for y in range(ny[0], ny[1] + 1):
        e = ctx.real(f"em_{y}", -5.0, 10.0) if y == ny[1] else 1.5
        ctx.eq(f"concentration {y}", b.co2em2conc(y, e), a.co2em2conc(y, e), rtol=1e-9, atol=1e-8)


def land(ctx, n=2):
    """growth of one step comes back with the given decay function"""
    c, t = pools(ctx, n)
    m = default(ctx, (2000, 2003), 1, {"rb_function": {"coeffs": c, "timescales": t}, "beta_f": 0.3})
    conc = [278.0, ctx.real("c1", 250.0, 900.0), 278.0, 278.0]
    got = m.get_biosphere_carbon_flux(conc_run=True, co2_conc_series=ctx.array(conc))
    up = 60.0 * 0.3 * ctx.log(conc[1] / 278.0)
    ctx.eq("growth", got[1], up, rtol=1e-9, atol=1e-8)
    ctx.eq("one step later", got[2], -up * rb_want(ctx, c, t, 0.0), rtol=1e-9, atol=1e-8)
    ctx.eq("two steps later", got[3], -up * rb_want(ctx, c, t, 1.0), rtol=1e-9, atol=1e-8)


def refused(ctx, flat=(), named=None):
    """counts that do not fit are refused, whatever the values"""
    pam = {k: ctx.real(k, 0.1, 10.0) for k in flat}
    if named:
        kind, nc, nt = named
        pam = {f"{kind}_function": {"coeffs": [ctx.real(f"c{i}", 0.1, 1.0) for i in range(nc)], "timescales": [ctx.real(f"t{i}", 0.1, 9.0) for i in range(nt)]}}
    try:
        default(ctx, (2000, 2001), 1, pam)
    except ValueError:
        ctx.true("refused", True)
        return
    ctx.true("refused", False)


def negative(ctx, kind="rs", what="timescales", at=0, n=2, flat=False, reset=False):
    """a negative coefficient or timescale is refused, whatever the others are"""
    c, t = pools(ctx, n, kind == "rs")
    bad = ctx.real("bad", -50.0, -1e-6)
    (t if what == "timescales" else c)[at] = bad
    if flat:
        pam = {f"{kind}_coef{i}": v for i, v in enumerate(c)}
        pam.update({f"{kind}_tim{i}": v for i, v in enumerate(t)})
    else:
        pam = {f"{kind}_function": {"coeffs": c, "timescales": t}}
    try:
        if reset:
            default(ctx, (2000, 2001), 1).reset_co2_hold(pam)
        else:
            default(ctx, (2000, 2001), 1, pam)
    except ValueError:
        ctx.true("refused", True)
        return
    ctx.true("refused", False)


def names(ctx, n=2, years=2):
    """numbers in the names order the pools also when some are left out; other names do nothing"""
    c, t = pools(ctx, n)
    k = ctx.real("konst", 0.01, 5.0)
    tall = {"rb_coefx": 3.0, "rs_timescale": 4.0, "rs_coef": 1.0}
    for i in range(n):
        tall[f"rb_tim{2 * i + 1}"], tall[f"rb_coef{2 * i + 1}"] = t[i], c[i]
        tall[f"rs_tim{3 * i + 8}"], tall[f"rs_coef{4 * i + 10}"] = t[i], c[i]
    tall["rs_coef2"] = k
    a = default(ctx, (2000, 2000 + years - 1), 2, tall)
    b = default(ctx, (2000, 2000 + years - 1), 2, {"rs_function": {"coeffs": [k] + c, "timescales": t}, "rb_function": {"coeffs": c, "timescales": t}})
    for y in range(2000, 2000 + years):
        ctx.eq(f"concentration {y}", a.co2em2conc(y, 5.0), b.co2em2conc(y, 5.0), rtol=1e-9, atol=1e-8)


def configured(ctx, n=2, idtm=2, conc_run=False, both=True, rerun=False, last=2000):
    """given in the model configuration they do what they do as carbon cycle parameters of the run"""
    c, t = pools(ctx, n)
    rs = {"coeffs": [ctx.real("konst", 0.01, 5.0)] + c, "timescales": t}
    rb = {"coeffs": list(reversed(c)), "timescales": [x + 1.0 for x in t]}
    functions = {"rs_function": rs, "rb_function": rb} if both else {"rb_function": rb}
    out = []
    for inside_cfg in (True, False):
        s = Scenario(ctx, ny=(1998, last), emstart=last, carbon="default")
        s.extra.update(data(ctx, s, 1, ()))
        s.extra.update(sunvolc=1, conc_run=conc_run, thermal_model="twolayer", idtm=idtm)
        s.objectify()
        cfg = s.cfg()
        if inside_cfg:
            cfg.update(functions)
        m = ctx.mod("ciceroscm").CICEROSCM(cfg)
        carbon = {"beta_f": 0.3}
        for _ in range(2 if rerun else 1):
            m._run(
                {"results_as_dict": True, "carbon_cycle_outputs": True},
                pamset_udm={}, pamset_emiconc={"ref_yr": last, "idtm": idtm},
                pamset_carbon=dict(carbon) if inside_cfg else dict(carbon, **functions),
            )
        out.append(m.results)
    compare(ctx, "configured", *out)


def cases(tier):
    out = [Case(f"{k}-{n}", custom, dict(kind=k, n=n)) for k in ("rs", "rb") for n in (1, 2, 3)]
    out += [Case(f"{k}-x{s}", custom, dict(kind=k, n=2, steps=s, its=(0, 2, s, 5 * s))) for k in ("rs", "rb") for s in (1, 12)]
    out += [
        Case("standard-rs-early", standard, dict(hi=48)),
        Case("standard-rs-late", standard, dict(lo=48)),
        Case("standard-rs-yearly-early", standard, dict(steps=1, hi=2)),
        Case("standard-rs-yearly-late", standard, dict(steps=1, lo=2, hi=400)),
        Case("standard-rb", standard, dict(kind="rb")),
        Case("standard-rb-12", standard, dict(kind="rb", steps=12)),
        Case("inside-flat", inside),
        Case("inside-flat-3", inside, dict(n=3, years=2, steps=2)),
        Case("inside-flat-11", inside, dict(n=11)),
        Case("inside-rs-only", inside, dict(both=False)),
        Case("inside-reset-flat", inside, dict(how="reset-flat")),
        Case("inside-reset-named", inside, dict(how="reset-named")),
        Case("inside-kept", inside, dict(how="kept")),
        Case("configured", configured, dict(n=1, idtm=1)),
        Case("configured-again", configured, dict(both=False, n=1, idtm=1, rerun=True)),
        Case("configured-rb", configured, dict(both=False, n=1, idtm=1)),
        Case("configured-conc", configured, dict(n=1, idtm=1, conc_run=True, last=1999)),
        Case("land", land),
        Case("refused-rb-flat", refused, dict(flat=("rb_coef0", "rb_coef1", "rb_tim0"))),
        Case("refused-rs-flat", refused, dict(flat=("rs_coef0", "rs_coef1", "rs_tim0", "rs_tim1"))),
        Case("refused-rs-no-coef", refused, dict(flat=("rs_tim0", "rs_tim1"))),
        Case("refused-rs", refused, dict(named=("rs", 2, 2))),
        Case("refused-rb", refused, dict(named=("rb", 3, 2))),
        Case("refused-rs-short", refused, dict(named=("rs", 2, 3))),
        Case("refused-rb-short", refused, dict(named=("rb", 2, 3))),
        Case("names", names),
        *[Case(f"one-time-{k}", one_time, dict(kind=k)) for k in ("rs", "rb")],
        *[Case(f"one-time-{k}-yearly", one_time, dict(kind=k, n=1, steps=1, hi=300)) for k in ("rs", "rb")],
        *[Case(f"negative-{k}-{w}-{a}", negative, dict(kind=k, what=w, at=a)) for k in ("rs", "rb") for w in ("timescales", "coeffs") for a in (0, 1)],
        *[Case(f"negative-flat-{k}-{w}", negative, dict(kind=k, what=w, at=1, flat=True)) for k in ("rs", "rb") for w in ("timescales", "coeffs")],
        *[Case(f"negative-reset-{k}-{w}", negative, dict(kind=k, what=w, at=1, reset=True)) for k in ("rs", "rb") for w in ("timescales", "coeffs")],
    ]
    return out

"""C03: the thermal response is linear, starts at rest and treats the hemispheres alike"""
from engine.runner import Case
from props.C02 import model as two_layer
from props.thermal import UDM_DEFAULT, forcings, udm

BOUNDS = (
    "histories of 2 years from rest, two arbitrary forcing histories (hemispheric forcing in [-5,10], volcanic in [-10,2] W/m2) and an arbitrary "
    "factor in [-3,3] (two-layer) or the factor -2.5 (upwelling-diffusion); 9, 12 and 40 layers, 1 to 12 steps per year; default parameters and variants, two-layer model with symbolic parameters; "
    "mirror symmetry for equal ocean fractions, with and without temperature-dependent upwelling"
)
OUTSIDE = "linearity with temperature-dependent upwelling (not linear by design), other layer counts, histories longer than 2 years"
ASSUMPTIONS = ["the banded linear solver returns the unique solution of the system it is given"]

GLOBAL = ["dtemp", "dtemp_air", "dtemp_sea", "RIB", "OHC700", "OHCTOT"]
PAIRS = [("dtempnh", "dtempsh"), ("dtempnh_air", "dtempsh_air"), ("dtempnh_sea", "dtempsh_sea"), ("RIBN", "RIBS")]
KEYS = GLOBAL + [k for p in PAIRS for k in p]
TWO = ["dtemp", "dtemp_fast", "dtemp_slow", "RIB", "OHCTOT", "OHC_MIXED", "OHC_DEEP", "OHC700"]


def make(ctx, kind, params, sympar):
    if kind == "two":
        return two_layer(ctx, sympar, params)[0], TWO
    p = {"threstemp": 0.0}
    p.update(params or {})
    return udm(ctx, p, sympar)[0], KEYS


def superposition(ctx, kind="udm", params=None, sympar=(), years=2, ncol=1):
    ma, keys = make(ctx, kind, params, sympar)
    mb = make(ctx, kind, params, sympar)[0]
    mc = make(ctx, kind, params, sympar)[0]
    for y in range(years):
        a = forcings(ctx, ncol, f"a{y}")
        b = forcings(ctx, ncol, f"b{y}")
        ra, rb = ma.energy_budget(*a), mb.energy_budget(*b)
        rc = mc.energy_budget(*[u + v for u, v in zip(a, b)])
        for k in keys:
            ctx.eq(f"superposition of {k}, year {y}", rc[k], ra[k] + rb[k], rtol=0, atol=1e-6)


def scaling(ctx, kind="udm", params=None, sympar=(), years=2, ncol=1, s=None):
    ma, keys = make(ctx, kind, params, sympar)
    mb = make(ctx, kind, params, sympar)[0]
    s = ctx.real("factor", -3, 3) if s is None else s
    for y in range(years):
        a = forcings(ctx, ncol, f"a{y}")
        ra = ma.energy_budget(*a)
        rb = mb.energy_budget(*[s * u for u in a])
        for k in keys:
            ctx.eq(f"scaling of {k}, year {y}", rb[k], s * ra[k], rtol=0, atol=1e-6)


def rest(ctx, kind="udm", params=None, sympar=(), years=2, ncol=2):
    m, keys = make(ctx, kind, params, sympar)
    v = ctx.array([0.0] * ncol)
    for y in range(years):
        r = m.energy_budget(0.0, 0.0, v, v)
        for k in keys:
            ctx.eq(f"{k} stays zero without forcing, year {y}", r[k], 0.0, rtol=0, atol=1e-9)


def mirror(ctx, params=None, sympar=(), years=2, ncol=2):
    p = dict(UDM_DEFAULT)
    p.update(params or {})
    p["foan"] = p["foas"] = ctx.real("fo", 0.5, 0.9) if "fo" in sympar else 0.7
    sp = tuple(x for x in sympar if x != "fo")
    ctx.cap_solutions(200.0)
    ma = udm(ctx, p, sp)[0]
    mb = udm(ctx, p, sp)[0]
    for y in range(years):
        fn, fs, vn, vs = forcings(ctx, ncol, str(y))
        ra, rb = ma.energy_budget(fn, fs, vn, vs), mb.energy_budget(fs, fn, vs, vn)
        for k in GLOBAL:
            ctx.eq(f"{k} unchanged when hemispheres swap, year {y}", rb[k], ra[k], rtol=0, atol=1e-6)
        for n, s in PAIRS:
            ctx.eq(f"{n}/{s} swap with the hemispheres, year {y}", [rb[n], rb[s]], [ra[s], ra[n]], rtol=0, atol=1e-6)


def two_mirror(ctx, years=2, ncol=2, sympar=()):
    ma, mb = two_layer(ctx, sympar)[0], two_layer(ctx, sympar)[0]
    for y in range(years):
        fn, fs, vn, vs = forcings(ctx, ncol, str(y))
        ra, rb = ma.energy_budget(fn, fs, vn, vs), mb.energy_budget(fs, fn, vs, vn)
        for k in TWO:
            ctx.eq(f"{k} unchanged when hemispheres swap, year {y}", rb[k], ra[k], rtol=0, atol=1e-6)


P2 = ("lambda", "mixed", "deep", "k", "ocean_efficacy")


def cases(tier):
    small = {"lm": 9, "ldtime": 2}
    out = [
        Case("superposition-9x2", superposition, dict(params=small)),
        Case("superposition-40x2", superposition, dict(params={"lm": 40, "ldtime": 2}, years=1, ncol=12)),
        Case("superposition-variant", superposition, dict(params={"lm": 12, "ldtime": 3, "ebbeta": 0.5, "ocean_efficacy": 1.4, "mixed": 60.0}, ncol=3)),
        Case("superposition-two", superposition, dict(kind="two", sympar=("lambda", "k"), ncol=2)),
        Case("scaling-9x2", scaling, dict(params=small, s=-2.5)),
        Case("scaling-two", scaling, dict(kind="two", sympar=("lambda", "k"), ncol=2)),
        Case("rest-40x12", rest, dict(params={"threstemp": 7.0})),
        Case("rest-params", rest, dict(params={"lm": 9, "ldtime": 2}, sympar=("lambda", "W", "beto", "akapa", "rlamdo"))),
        Case("rest-two", rest, dict(kind="two", sympar=P2)),
        Case("mirror-9x2", mirror, dict(params={"lm": 9, "ldtime": 2, "threstemp": 0.0})),
        Case("mirror-thres-9x2", mirror, dict(params={"lm": 9, "ldtime": 2})),
        Case("mirror-40x12", mirror, dict(params={"lm": 40, "ldtime": 12, "threstemp": 0.0}, years=1, ncol=12)),
        Case("mirror-eb-9x1", mirror, dict(params={"lm": 9, "ldtime": 1, "ebbeta": 0.7, "ocean_efficacy": 1.2}, years=2)),
        Case("mirror-params-9x1", mirror, dict(params={"lm": 9, "ldtime": 1}, sympar=("fo", "W", "beto", "cpi", "lambda", "ebbeta"), years=2)),
        Case("mirror-two", two_mirror, dict(sympar=("lambda", "k"))),
    ]
    if tier == "thorough":
        out += [
            Case("superposition-40x12", superposition, dict(params={"lm": 40, "ldtime": 12}, years=1, ncol=12)),
            Case("scaling-40x12", scaling, dict(params={"lm": 40, "ldtime": 4}, years=1, ncol=1, s=3.0)),
            Case("mirror-thres-40x12", mirror, dict(params={"lm": 40, "ldtime": 12}, years=2, ncol=12)),
        ]
    return out

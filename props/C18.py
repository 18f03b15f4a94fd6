"""C18: temperature feedbacks of the default carbon cycle"""
from engine.runner import Case
from props.C17 import DEFAULT, depth, npp, solub
from props.carbon import default

BOUNDS = (
    "warming of -5..12 K (one value, or two for the monotonicity statements); sigmoid centres -2..6 K, widths 0.5..12 K, maximum reduction 0..0.9, depths 10..200 m, "
    "minimum depths 1..60 m, solubility sensitivity 0..0.1 per K, solubility limit 0..1.5; series of 3 years for the reported columns"
)
OUTSIDE = "negative widths or sensitivities, warming outside the stated range, floating-point overflow of the exponentials"
ASSUMPTIONS = ["real arithmetic; exp as an uninterpreted increasing function with bounds, identical arguments give identical values"]
RANGES = {
    "t_half": (-2.0, 6.0), "w_sigmoid": (0.5, 12.0), "t_threshold": (-2.0, 6.0), "w_threshold": (0.5, 12.0), "ml_t_half": (-2.0, 6.0), "ml_w_sigmoid": (0.5, 12.0),
    "ml_fracmax": (0.0, 0.9), "mixed_carbon": (10.0, 200.0), "ml_depth_min": (1.0, 60.0), "solubility_sens": (0.0, 0.1), "solubility_limit": (0.0, 1.5),
}


def model(ctx, free, years=1):
    p = dict(DEFAULT)
    for n in free:
        p[n] = ctx.real(n, *RANGES[n])
    return default(ctx, (2000, 2000 + years - 1), 1, dict(p)), p


def growth(ctx, free=()):
    m, p = model(ctx, free)
    t = ctx.real("T", -5.0, 12.0)
    ctx.eq("production at this warming", m.fnpp_from_temp(t), npp(ctx, p, t), rtol=1e-9, atol=1e-7)
    ctx.eq("60 PgC per year without warming", m.fnpp_from_temp(0.0), 60.0, rtol=1e-10)
    ctx.eq("no warming is the default", m.fnpp_from_temp(), 60.0, rtol=1e-10)


def ocean(ctx, free=()):
    m, p = model(ctx, free)
    t = ctx.real("T", -5.0, 12.0)
    got = m.mixed_layer_temp_feedback(t)
    ctx.eq("mixed layer depth", got, depth(ctx, p, t), rtol=1e-9, atol=1e-8)
    ctx.le("never below the minimum", p["ml_depth_min"], got, slack=1e-9)


def undisturbed(ctx, free=()):
    m, p = model(ctx, free)
    ctx.eq("depth without warming", m.mixed_layer_temp_feedback(0.0), ctx.max(p["mixed_carbon"], p["ml_depth_min"]), rtol=1e-10, atol=1e-9)
    ctx.eq("pressure factor without warming", m.solubility_temp_feedback(0.0), 1.0, rtol=1e-12)


def solubility(ctx, free=()):
    m, p = model(ctx, free)
    t = ctx.real("T", -12.0, 12.0)
    got = m.solubility_temp_feedback(t)
    ctx.eq("solubility factor", got, solub(ctx, p, t), rtol=1e-10, atol=1e-10)
    ctx.le("limited", got, 1.0 + p["solubility_limit"], slack=1e-12)
    ctx.lt("positive", 0.0, got)


def series(ctx, free=(), years=3):
    """the reported columns, year by year"""
    m, p = model(ctx, free, years)
    t = ctx.reals("T", years, -2.0, 8.0)
    index = list(range(2000, 2000 + years))
    for y in index:
        m.co2em2conc(y, 5.0, {"dtemp": 0.5})
    out = m.get_carbon_cycle_output(index, feedback_dict_series={"dtemp": ctx.array(t)})
    for i, y in enumerate(index):
        ctx.eq(f"mixed layer depth {y}", out["Mixed layer depth"][y], depth(ctx, p, t[i]), rtol=1e-9, atol=1e-8)
        ctx.eq(f"solubility {y}", out["CO2 solubility"][y], solub(ctx, p, t[i]), rtol=1e-9, atol=1e-9)
        ctx.eq(f"production {y}", out["Net Primary Production"][y], npp(ctx, p, t[i]), rtol=1e-9, atol=1e-7)


def cases(tier):
    return [
        Case("growth", growth),
        Case("growth-centres", growth, dict(free=("t_half", "t_threshold"))),
        Case("growth-all", growth, dict(free=("t_half", "w_sigmoid", "t_threshold", "w_threshold"))),
        Case("depth", ocean),
        Case("depth-size", ocean, dict(free=("mixed_carbon", "ml_depth_min"))),
        Case("depth-frac", ocean, dict(free=("ml_fracmax",))),
        Case("depth-all", ocean, dict(free=("mixed_carbon", "ml_depth_min", "ml_fracmax", "ml_t_half", "ml_w_sigmoid"))),
        Case("undisturbed", undisturbed, dict(free=("mixed_carbon", "ml_depth_min", "ml_fracmax", "ml_t_half", "ml_w_sigmoid", "solubility_sens", "solubility_limit"))),
        Case("solubility", solubility, dict(free=("solubility_limit",))),
        Case("solubility-all", solubility, dict(free=("solubility_limit", "solubility_sens"))),
        Case("series", series),
        Case("series-params", series, dict(free=("mixed_carbon", "solubility_limit", "t_half"))),
    ]

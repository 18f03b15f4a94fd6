"""C17: the default carbon cycle integrates emissions, land uptake and air-sea exchange"""
from engine.runner import Case
from props.carbon import AIRSEA, AREA, PGC, UMOL, default

BOUNDS = (
    "up to 6 years (12 thorough) at one step per year, one year of 2 and 3 steps (4 steps and two years of 2 steps thorough); emissions -5..25 PgC/yr arbitrary each year, up to 5000 "
    "for the logarithmic branch; warming 0..5 K arbitrary each year (-2..8 in some); fertilisation, depth, preindustrial level and solubility sensitivity symbolic one at a time; default "
    "and one custom pair of response functions"
)
OUTSIDE = "the shipped 24 steps per year over full emission ranges (the step code is the same for every number of steps), emissions beyond the ranges, all parameters symbolic together"
ASSUMPTIONS = [
    "real arithmetic; exp and log as uninterpreted monotone functions with bounds, arguments equal up to 1e-12 are identified",
    "multi-year chains are cut after each year at the model's own state where it provably agrees with the reference",
    "comparisons of quantities that differ only by rounding of coefficients go the same way in code and reference",
]
ZMAX = 293.5
POLY = (1.3021, 3.7929e-3, 9.1193e-6, 1.488e-8, 1.2425e-10)


def npp(ctx, p, t):
    sig = lambda x: 1.0 / (1.0 + ctx.exp(-(x - p["t_half"]) / p["w_sigmoid"]))  # noqa: E731
    thr = lambda x: 1.0 - 1.0 / (1.0 + ctx.exp(-(x - p["t_threshold"]) / p["w_threshold"]))  # noqa: E731
    return 60.0 * sig(t) * thr(t) / (sig(0.0) * thr(0.0))


def depth(ctx, p, t):
    sig = lambda x: 1.0 / (1.0 + ctx.exp(-(x - p["ml_t_half"]) / p["ml_w_sigmoid"]))  # noqa: E731
    d = p["mixed_carbon"] * (1.0 - p["ml_fracmax"] * sig(t)) / (1.0 - p["ml_fracmax"] * sig(0.0))
    return ctx.max(d, p["ml_depth_min"])


def solub(ctx, p, t):
    return ctx.min(ctx.exp(-p["solubility_sens"] * t), 1.0 + p["solubility_limit"])


DEFAULT = {
    "beta_f": 0.287, "mixed_carbon": 75.0, "ml_w_sigmoid": 3.0, "ml_fracmax": 0.5, "ml_t_half": 0.5, "t_half": 0.5, "w_sigmoid": 7, "t_threshold": 4,
    "w_threshold": 7, "solubility_sens": 0.02, "solubility_limit": 0.5, "ml_depth_min": 10.0, "preindustrial_co2_conc": 278.0,
}


def pressure(ctx, z):
    poly = lambda v: sum(a * v ** (i + 1) for i, a in enumerate(POLY))  # noqa: E731
    slope = sum((i + 1) * a * ZMAX**i for i, a in enumerate(POLY))
    if z <= ZMAX:
        return poly(z)
    return poly(ZMAX) + slope * ZMAX * ctx.log(z / ZMAX)


class Reference:
    """the scheme, written down independently"""

    def __init__(self, ctx, m, p, idtm, decay, pulse):
        self.ctx, self.p, self.n, self.dt = ctx, p, idtm, 1.0 / idtm
        self.decay, self.pulse = decay, pulse
        self.up, self.flux, self.em = [], [], []
        self.m, self.cutting, self.pending = m, True, []
        self.y, self.x = 0.0, p["preindustrial_co2_conc"]

    def year(self, e, t):
        ctx, p, dt = self.ctx, self.p, self.dt
        for _ in range(self.n):
            it = len(self.up)
            # plant growth by fertilisation, part of which returns with the decay of earlier growth
            g = 0.0 if it == 0 else npp(ctx, p, t) * p["beta_f"] * ctx.log(self.x / p["preindustrial_co2_conc"])
            self.up.append(g)
            self.em.append(e)
            net = [(self.em[k] - self.land(k)) / PGC for k in range(it + 1)]
            # trapezoidal integral of net emissions minus what the ocean took
            if it == 0:
                total = net[0]
            else:
                total = 1.5 * net[0] + sum(net[1:it]) + 0.5 * net[it]
            taken = sum(self.flux) * AIRSEA
            s = (dt * (total - taken) - self.y) / (1.0 + 0.5 * dt * AIRSEA)
            self.flux.append(s)
            z = sum(self.flux[j] * self.pulse(it - 1 - j) for j in range(it - 1)) + 0.5 * s
            z = UMOL * AIRSEA / AREA * dt / depth(ctx, p, t) * z
            y = solub(ctx, p, t) * pressure(ctx, z)
            self.x = s + 0.5 * (y + self.y) + p["preindustrial_co2_conc"]
            self.y = y
        self.adopt()
        return self.x

    def land(self, it):
        return self.up[it] - self.dt * sum(self.up[j] * self.decay(it - 1 - j) for j in range(1, it))

    def adopt(self):
        """
        Cut the chain after a year: where the model's own intermediate values
        plainly agree with the reference, go on from them as arbitrary values
        of their range. Leaves everything as it is if they cannot be found.
        """
        if not self.ctx.symbolic or self.n != 1 or not self.cutting:
            return
        it = len(self.up) - 1
        try:
            hold = self.m.co2_hold
            mine = [hold["yCO2"], hold["sCO2"][it], hold["dfnpp"][it], hold["xCO2"]]
        except (AttributeError, KeyError, IndexError, TypeError):
            return
        if not all(self.ctx.close(a, b) for a, b in zip(mine, [self.y, self.flux[it], self.up[it], self.x])):
            return
        self.y, self.flux[it], self.up[it], self.x = mine
        self.pending = mine

    def cut(self):
        self.ctx.cut(self.pending)
        self.pending = []


RS1 = ([0.1, 0.2, 0.25, 0.45], [1.5, 12.0, 200.0])
RB1 = ([0.7, 0.3], [2.5, 30.0])


def pulses(ctx, idtm, custom):
    """the response functions (what they are is decided by another property)"""
    import numpy as np

    rf = ctx.mod("carbon_cycle.rfuns")
    if not custom:
        return (lambda k: rf.rs_function(k, idtm)), (lambda k: rf.rb_function(np.array([k]), idtm)[0])
    rs, rb = (np.array(RS1[0]), np.array(RS1[1])), (np.array(RB1[0]), np.array(RB1[1]))
    return (
        lambda k: np.ravel(rf.rs_function2(np.array([k]), rs_coef=rs[0], rs_tim=rs[1], idtm=idtm))[0],
        lambda k: np.ravel(rf.rb_function2(np.array([k]), rb_coef=rb[0], rb_tim=rb[1], idtm=idtm))[0],
    )


def parameters(ctx, names):
    rng = {
        "beta_f": (0.1, 0.6), "mixed_carbon": (40.0, 120.0), "ml_fracmax": (0.0, 0.8), "solubility_sens": (0.0, 0.05),
        "solubility_limit": (0.0, 0.8), "ml_depth_min": (5.0, 30.0), "preindustrial_co2_conc": (260.0, 300.0),
    }
    return {n: ctx.real(n, *rng[n]) for n in names}


def trajectory(ctx, years=2, idtm=1, warm=(0.0, 5.0), em=(-5.0, 25.0), pam=None, free=(), custom=False, feedback=True, again=False, y0=2000):
    p = dict(DEFAULT)
    p.update(pam or {})
    p.update(parameters(ctx, free))
    extra = {}
    if custom:
        extra = {"rs_function": {"coeffs": list(RS1[0]), "timescales": list(RS1[1])}, "rb_function": {"coeffs": list(RB1[0]), "timescales": list(RB1[1])}}
    m = default(ctx, (y0, y0 + years - 1), idtm, {**p, **extra})
    if again:
        # an earlier run with this model must not leave a trace
        for y in range(y0, y0 + years):
            m.co2em2conc(y, ctx.real(f"old_{y}", *em), {"dtemp": 1.0})
        m.reset_co2_hold()
    pulse, decay = pulses(ctx, idtm, custom)
    ref = Reference(ctx, m, p, idtm, decay, pulse)
    for y in range(y0, y0 + years):
        e = ctx.real(f"em_{y}", *em)
        t = ctx.real(f"dT_{y}", *warm) if warm else 0.0
        got = m.co2em2conc(y, e, {"dtemp": t}) if feedback else m.co2em2conc(y, e)
        want = ref.year(e, t)
        ctx.eq(f"concentration {y}", got, want, rtol=1e-9, atol=1e-7)
        ref.cut()
    ocean, land = m.get_ocean_carbon_flux(), m.get_biosphere_carbon_flux()
    n = idtm
    for i in range(years):
        s = slice(i * n, (i + 1) * n)
        ctx.eq(f"ocean flux {y0 + i}", ocean[i], sum(ref.flux[s]) / n * PGC * AIRSEA, rtol=1e-9, atol=1e-8)
        ctx.eq(f"land flux {y0 + i}", land[i], sum(ref.land(k) for k in range(i * n, i * n + n)) / n, rtol=1e-9, atol=1e-8)


def cases(tier):
    out = [
        Case("y1", trajectory, dict(years=1)),
        Case("y3", trajectory, dict(years=3)),
        Case("y6-cold", trajectory, dict(years=6, warm=None)),
        Case("y5", trajectory, dict(years=5)),
        Case("y1x2", trajectory, dict(years=1, idtm=2)),
        Case("y1x3", trajectory, dict(years=1, idtm=3, warm=None)),
        Case("extreme", trajectory, dict(years=1, em=(0.0, 5000.0), warm=None)),
        Case("extreme-2", trajectory, dict(years=2, em=(2000.0, 3000.0), warm=None)),
        Case("custom", trajectory, dict(years=4, custom=True)),
        Case("custom-x2", trajectory, dict(years=1, custom=True, idtm=2)),
        Case("no-feedback", trajectory, dict(years=2, warm=None, feedback=False)),
        Case("again", trajectory, dict(years=2, again=True)),
        Case("free-land", trajectory, dict(years=3, free=("beta_f",))),
        Case("free-depth", trajectory, dict(years=2, free=("mixed_carbon",), warm=None)),
        Case("free-preind", trajectory, dict(years=2, free=("preindustrial_co2_conc",), warm=None)),
        Case("free-ocean", trajectory, dict(years=2, free=("solubility_sens",), warm=(-2.0, 5.0))),
        Case("shallow", trajectory, dict(years=3, pam={"mixed_carbon": 14.0, "ml_fracmax": 0.8}, warm=(6.0, 8.0))),
    ]
    if tier == "thorough":
        out += [
            Case("y1x4", trajectory, dict(years=1, idtm=4)),
            Case("y2x2", trajectory, dict(years=2, idtm=2)),
            Case("extreme-x2", trajectory, dict(years=1, idtm=2, em=(0.0, 3000.0))),
            Case("y12", trajectory, dict(years=12)),
            Case("extreme-warm", trajectory, dict(years=3, em=(0.0, 3000.0))),
        ]
    return out

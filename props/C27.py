"""C27: parameter distributions: samples inside their intervals, each under its own name in the set that is read, none lost"""
import os

import numpy as np

from engine.runner import Case

BOUNDS = (
    "distributions over 1 to 7 parameters of every kind and the default distribution, interval ends and draws arbitrary, up to 5 samples (7 in the thorough check) in chunks of every size and up to 125 (250) in some sizes, set values arbitrary; "
    "both sampling methods, forcing and full runs, through files and directly"
)
OUTSIDE = "the random generators (stand-ins that return arbitrary draws); reversed or empty intervals; parameters the model does not know"
ASSUMPTIONS = ["latin hypercube draws lie in [0,1] and are scaled linearly to their interval; normal draws are any numbers in [-6,6]"]

THERMAL = {
    "rlamdo", "akapa", "cpi", "W", "beto", "threstemp", "lambda", "mixed", "foan", "foas", "ebbeta", "lm", "ldtime", "ocean_efficacy", "delta_lambda_aero", "deep", "k",
}
CARBON = {
    "beta_f", "mixed_carbon", "ml_w_sigmoid", "ml_fracmax", "ml_t_half", "t_half", "w_sigmoid", "t_threshold", "w_threshold", "solubility_sens", "solubility_limit", "ml_depth_min",
    "land_temp_sensitivity", "soil_respiration_rate", "ocean_mixed_layer_depth", "ocean_exchange_rate", "vegetation_to_soil_fraction", "ocean_solubility_base",
    "ocean_solubility_temp_coeff",
}
FORCING = {"qbmb", "qo3", "qdirso2", "qindso2", "qbc", "qoc", "qh2o_ch4", "qnmvoc", "qnh3", "qnox", "ref_yr"}


def place(p):
    if p in THERMAL:
        return "pamset_udm"
    if p in CARBON or p.startswith(("rb_coef", "rb_tim", "rs_coef", "rs_tim")):
        return "pamset_carbon"
    return "pamset_emiconc"


class Draws:
    """arbitrary draws in place of the random ones"""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def _fill(self, shape, lo, hi):
        shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
        out = np.empty(shape, dtype=object if self.ctx.symbolic else float)
        for i in np.ndindex(*shape):
            self.n += 1
            out[i] = self.ctx.real(f"draw{self.n}", lo, hi)
        return out

    def unit(self, shape):
        return self._fill(shape, 0.0, 1.0)

    def standard(self, shape):
        return self._fill(shape, -6.0, 6.0)


def exchange(ctx, mod, record):
    """numpy.random and scipy.stats.qmc of the module, with arbitrary draws; what was drawn is recorded"""
    draws = Draws(ctx)

    class LatinHypercube:
        def __init__(self, d, **_):
            self.d = int(d)

        def random(self, n=1, **_):
            u = draws.unit((int(n), self.d))
            record.append(("unit", u))
            return u

    class Qmc:
        LatinHypercube = None

        @staticmethod
        def scale(sample, l_bounds, u_bounds, *, reverse=False):
            lo, hi = list(l_bounds), list(u_bounds)
            out = np.empty(sample.shape, dtype=sample.dtype)
            for i, j in np.ndindex(*sample.shape):
                out[i, j] = sample[i, j] * (hi[j] - lo[j]) + lo[j]
            return out

    Qmc.LatinHypercube = LatinHypercube

    class Random:
        def normal(self, loc=0.0, scale=1.0, size=None):
            z = draws.standard(size if size is not None else np.shape(loc))
            record.append(("normal", z, loc, scale))
            return loc + scale * z

        def default_rng(self, *a):
            return self

    class Np:
        random = Random()

        def __init__(self, real):
            self._real = real

        def __getattr__(self, name):
            return getattr(self._real, name)

    saved = {k: vars(mod).get(k) for k in ("qmc", "np", "print")}
    mod.qmc, mod.np, mod.print = Qmc, Np(saved["np"]), lambda *a, **k: None

    def back():
        mod.qmc, mod.np = saved["qmc"], saved["np"]
        del mod.print

    return back


def distributed(ctx, params=None, sets=None, method="latin", forc=False, num=3, chunk=None, pre="run", file=None, meta=None, default=False, leave=()):
    """leave: options that are not given and take their documented values"""
    mod = ctx.mod("parallel._configdistro")
    record = []
    back = exchange(ctx, mod, record)
    try:
        kw, bounds = {}, None
        if not default:
            bounds = {}
            for p in params:
                lo = ctx.real(f"lo_{p}", -10, 10)
                bounds[p] = (lo, lo + ctx.real(f"width_{p}", 0.001, 20))
            kw["distro_dict"] = {p: list(b) for p, b in bounds.items()}
        else:
            bounds = {p: tuple(b) for p, b in mod.prior_flat.items()}
        if sets is not None:
            kw["setvalues"] = {p: ctx.real(f"set_{p}", -10, 10) for p in sets}
            fixed = dict(kw["setvalues"])
        else:
            fixed = dict(mod.set_values_default)
        kw["options"] = {k: v for k, v in (("forc", forc), ("method", method)) if k not in leave}
        if "options" in leave:
            del kw["options"]
        d = mod._ConfigDistro(**kw)
        path = os.path.join(ctx.scratch(), "configs.json") if file else None
        chunked = chunk is not None and chunk <= num
        out = d.make_config_lists(num, json_fname=path, indexer_pre=pre, max_chunk_size=chunk, meta_info=meta)
        lists = out if chunked else [out]
        if chunked:
            ctx.true("chunks no larger than asked", all(len(c) <= chunk for c in lists))
        configs = [c for part in lists for c in part]
        ctx.same("number of configurations", len(configs), num)
        ctx.same("every configuration has an index of its own", len({c["Index"] for c in configs}), num)
        ctx.true("indices begin as asked", all(str(c["Index"]).startswith(pre) for c in configs))
        sampled = [p for p in bounds if p not in fixed and not (forc and p not in THERMAL)]
        rows = samples(ctx, record, len(sampled), num)
        for i, c in enumerate(configs):
            ctx.same("the parts of a configuration", sorted(c), ["Index", "pamset_carbon", "pamset_emiconc", "pamset_udm"])
            where = {}
            for s in ("pamset_udm", "pamset_emiconc", "pamset_carbon"):
                for p in c[s]:
                    where.setdefault(p, []).append(s)
            ctx.same(f"parameters of configuration {i}", sorted(where), sorted(set(sampled) | set(fixed)))
            for p, s in where.items():
                ctx.same(f"{p} is where it is read", s, [place(p)])
            for p, v in fixed.items():
                ctx.eq(f"set value {p} {i}", c[place(p)].get(p, 1e9), v, atol=1e-12)
            for p in sampled:
                lo, hi = bounds[p]
                v = c[place(p)].get(p, 1e9)
                draw = rows[i][sorted(sampled).index(p)]
                if method == "latin":
                    ctx.true(f"{p} {i} inside its interval", inside(ctx, lo, v, hi))
                    ctx.eq(f"{p} {i} from its draw", v, lo + (hi - lo) * draw, rtol=1e-9, atol=1e-9)
                else:
                    mid = (lo + hi) / 2
                    ctx.eq(f"{p} {i} from its draw", v, mid + (hi - mid) * draw, rtol=1e-9, atol=1e-9)
        if file:
            written(ctx, mod, path, lists if chunked else None, configs, meta, pre)
    finally:
        back()


def inside(ctx, lo, v, hi):
    return ctx.both(lo <= v + 1e-9, v <= hi + 1e-9)


def samples(ctx, record, dims, num):
    """draws by sample and, in the order of the names, parameter"""
    if record and record[0][0] == "unit":
        u = np.concatenate([r[1] for r in record], axis=0)
        return [[u[i, j] for j in range(dims)] for i in range(num)]
    z = [np.asarray(r[1]).reshape(-1) for r in record if r[0] == "normal"]
    if len(z) == dims:
        return [[z[j][i] for j in range(dims)] for i in range(num)]
    z = np.asarray(record[0][1])
    return [[z[i, j] for j in range(dims)] for i in range(num)]


def same_configs(ctx, tag, a, b):
    ctx.same(f"{tag}: number", len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.same(f"{tag}: index {i}", x["Index"], y["Index"])
        for s in ("pamset_udm", "pamset_emiconc", "pamset_carbon"):
            ctx.same(f"{tag}: names {s} {i}", sorted(x[s]), sorted(y[s]))
            for p in y[s]:
                if p in x[s]:
                    ctx.eq(f"{tag}: {p} {i}", x[s][p], y[s][p], rtol=1e-12, atol=1e-12)


def written(ctx, mod, path, lists, configs, meta, pre):
    """the files hold what was returned, and runs made from them use it"""
    dr = ctx.mod("parallel.distributionrun")
    files = [path] if lists is None else [path.replace(".json", f"chunk_{i}.json") for i in range(len(lists))]
    parts = [configs] if lists is None else lists
    for n, (f, part) in enumerate(zip(files, parts)):
        run = dr.DistributionRun(None, f)
        same_configs(ctx, f"from file {n}", run.cfgs, part)
        ctx.same(f"information about the configurations {n}", run.meta_info, meta)
    os.remove(files[0])


def saved(ctx, num=2, first=None, second=None, params=("lambda", "qbc", "beta_f")):
    """configurations drawn, saved, read, saved again and read again"""
    mod, dr = ctx.mod("parallel._configdistro"), ctx.mod("parallel.distributionrun")
    record = []
    back = exchange(ctx, mod, record)
    try:
        d = mod._ConfigDistro({p: [ctx.real(f"lo_{p}", 0, 1), ctx.real(f"hi_{p}", 2, 3)] for p in params}, {"lm": 40, "qo3": ctx.real("qo3", 0, 1)}, {"forc": False, "method": "latin"})
        one = os.path.join(ctx.scratch(), "one.json")
        two = os.path.join(ctx.scratch(), "two.json")
        a = dr.DistributionRun(d, one, indexer_pre="p", numvalues=num)
        ctx.same("as many as asked", len(a.cfgs), num)
        ctx.true("index", [c["Index"] for c in a.cfgs] == [f"p{i}" for i in range(num)])
        a.write_configs_to_json(one, meta_info=first)
        b = dr.DistributionRun(d, one, indexer_pre="other", numvalues=num + 3)
        same_configs(ctx, "read", b.cfgs, a.cfgs)
        ctx.same("information", b.meta_info, first)
        b.write_configs_to_json(two, meta_info=second)
        c = dr.DistributionRun(None, two)
        same_configs(ctx, "read again", c.cfgs, a.cfgs)
        ctx.same("information kept", c.meta_info, second if second is not None else first)
    finally:
        back()


def strange(ctx):
    """a file that holds no configurations is refused, and no run is made of something else"""
    dr = ctx.mod("parallel.distributionrun")
    what = ctx.choose("contents", ['{"meta_info": null}', '{}', '"configurations"', '3', 'null', '{"configuration": [{"Index": "a"}]}'])
    path = os.path.join(ctx.scratch(), "strange.json")
    with open(path, "w", encoding="utf-8") as f:
        f.write(what)
    try:
        dr.DistributionRun(None, path)
        ctx.true("refused", False)
    except ValueError:
        ctx.true("refused", True)


def cases(tier):
    few = ("lambda", "beta_f", "qbc")
    many = ("rb_coef0", "W", "qo3", "mixed_carbon", "rs_tim1", "delta_lambda_aero", "ml_t_half")
    out = [
        Case("default", distributed, dict(default=True, num=2)),
        Case("default-gaussian", distributed, dict(default=True, num=2, method="gaussian")),
        Case("default-forcing", distributed, dict(default=True, num=2, forc=True, sets=("threstemp", "lm"))),
        Case("no-options", distributed, dict(params=few, sets=(), leave=("options",))),
        Case("empty-options", distributed, dict(params=few, sets=("qo3",), leave=("forc", "method"))),
        Case("no-method", distributed, dict(params=few, sets=(), leave=("method",), forc=True)),
        Case("no-kind", distributed, dict(params=few, sets=(), leave=("forc",), method="gaussian")),
        Case("other-method", distributed, dict(params=few, sets=(), method="anything")),
        Case("few", distributed, dict(params=few, sets=())),
        Case("few-gaussian", distributed, dict(params=few, sets=("lambda", "qo3"), method="gaussian", num=4)),
        Case("many", distributed, dict(params=many, sets=("threstemp", "qbmb", "t_half"))),
        Case("many-forcing", distributed, dict(params=many, sets=("ldtime",), forc=True)),
        Case("thermal", distributed, dict(params=("foan", "foas", "ebbeta", "ocean_efficacy", "deep", "k"), sets=("mixed",), num=2)),
        Case("thermal-forcing", distributed, dict(params=("foan", "qo3", "ebbeta", "deep", "k", "beta_f"), sets=("foas",), num=2, forc=True)),
        Case("thermal-set", distributed, dict(params=("W",), sets=("foan", "foas", "ebbeta", "deep", "k"), num=2)),
        Case("box", distributed, dict(params=("beta_f", "land_temp_sensitivity", "ocean_exchange_rate", "ocean_solubility_base"), sets=("soil_respiration_rate",), num=2)),
        Case("functions-set", distributed, dict(params=("rb_tim0", "qnox"), sets=("rb_coef0", "rs_coef0", "rs_coef1", "rs_tim0", "beta_f"), num=2)),
        Case("overlap", distributed, dict(params=few + ("qoc",), sets=("beta_f", "qoc", "k"), num=2)),
        Case("file", distributed, dict(params=few, sets=("qo3",), file=True)),
        Case("file-meta", distributed, dict(params=few, sets=("qo3",), file=True, meta={"version": "1", "n": 3}, method="gaussian")),
        Case("saved", saved),
        Case("saved-meta", saved, dict(first={"a": 1})),
        Case("saved-metas", saved, dict(first={"a": 1}, second={"b": [2, 3]})),
        Case("strange-file", strange),
        Case("saved-meta-late", saved, dict(second={"b": [2, 3]})),
    ]
    for num in (1, 3, 4, 5) if tier == "quick" else range(1, 8):
        for chunk in range(1, num + 2):
            out.append(Case(f"chunks-{num}-{chunk}", distributed, dict(params=("lambda", "qbc"), sets=("beta_f",), num=num, chunk=chunk, method="latin" if (num + chunk) % 2 else "gaussian")))
    # indices of two and three digits
    for num, chunk in ((23, 1), (23, 2), (125, 11), (24, 30)) if tier == "quick" else ((23, 1), (23, 2), (125, 11), (136, 12), (112, 110), (24, 30), (240, 2), (230, 21), (250, 11)):
        out.append(Case(f"chunks-{num}-{chunk}", distributed, dict(params=("lambda", "qbc")[:1 + chunk % 2], sets=("beta_f",), num=num, chunk=chunk)))
    out.append(Case("chunks-file", distributed, dict(params=few, sets=("qo3",), num=5, chunk=2, file=True, meta={"x": 1})))
    return out

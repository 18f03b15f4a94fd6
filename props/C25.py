"""C25: parallel runs over scenarios and configurations: every combination exactly once, each result under its own labels"""
import concurrent.futures
import copy
import os

import numpy as np
import pandas as pd

from engine.runner import Case
from props.C21 import compare
from props.C22 import gas_file
from props.C23 import data
from props.common import Scenario, gaspam, put

BOUNDS = (
    "split into jobs: any number of configurations up to 1,000,000, 1 to 9 scenarios, 2 to 8 workers; whole parallel runs: 1 to 3 scenarios, 1 to 5 configurations, 1 to 6 workers, jobs "
    "finishing in any of the stated orders, numbers of the model arbitrary; process lists: up to 4 jobs, any split between serial, front and rest, every finishing order, any one job failing"
)
OUTSIDE = "the operating system's process pool itself (replaced by a pool in the process that isolates its jobs by copying and finishes them in a symbolic order); timeouts; no configurations or no scenarios"
ASSUMPTIONS = ["a job run in another process sees a copy of its arguments and nothing else of its caller"]


# ---------------------------------------------------------------- a pool with symbolic schedule
class LazyFuture(concurrent.futures.Future):
    """runs its job when it is its turn or when it is asked for"""

    def __init__(self, pool, job):
        super().__init__()
        self.pool, self.job = pool, job

    def _go(self):
        if self.job is not None:
            fn, a, k = self.job
            self.job = None
            self.pool.finished.append(self)
            try:
                self.set_result(fn(*a, **k))
            except Exception as e:  # as a pool does
                self.set_exception(e)

    def result(self, timeout=None):
        self._go()
        return super().result(timeout)

    def exception(self, timeout=None):
        self._go()
        return super().exception(timeout)


def make_pool(schedule, made):
    class Pool:
        def __init__(self, max_workers=None, **_):
            self.max_workers = max_workers
            self.finished, self.jobs = [], []
            made.append(self)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def shutdown(self, *a, **k):
            pass

        def submit(self, fn, *a, **k):
            f = LazyFuture(self, (fn, copy.deepcopy(a), copy.deepcopy(k)))
            self.jobs.append((a, k))
            return f

        def map(self, fn, *its, timeout=None, chunksize=1):
            fs = [self.submit(fn, *a) for a in zip(*its)]
            return iter([f.result() for f in fs])

    def as_completed(fs, timeout=None):
        fs = list(fs)
        while fs:
            f = fs.pop(schedule(len(fs)))
            f._go() if isinstance(f, LazyFuture) else None
            yield f

    def wait(fs, timeout=None, return_when=None):
        done = list(as_completed(fs))
        return concurrent.futures._base.DoneAndNotDoneFutures(set(done), set())

    return Pool, as_completed, wait


class Silent:
    """time and tqdm seen by the module under test"""

    @staticmethod
    def sleep(_):
        pass


def install(ctx, schedule, made, also=None):
    """the two modules of the parallel machinery with the pool exchanged; returns them and a function that puts all back"""
    par, proc = ctx.mod("parallel.cscmparwrapper"), ctx.mod("parallel._parallel_process")
    Pool, as_completed, wait = make_pool(schedule, made)
    saved = []
    for m in (par, proc):
        for name, new in {
            "ProcessPoolExecutor": Pool, "ThreadPoolExecutor": Pool, "as_completed": as_completed, "wait": wait, "time": Silent, "sleep": Silent.sleep,
            "tqdm": lambda it, *a, **k: it, "print": lambda *a, **k: None, **(also or {}),
        }.items():
            if name in vars(m) or name == "print":
                saved.append((m, name, vars(m).get(name)))
                setattr(m, name, new)

    def back():
        for m, name, old in saved:
            if old is None:
                delattr(m, name)
            else:
                setattr(m, name, old)

    return par, proc, back


def in_turn(ctx, tag="order"):
    """any order of finishing, one choice per job"""
    count = [0]

    def schedule(n):
        count[0] += 1
        return ctx.choose(f"{tag}{count[0]}", list(range(n)))

    return schedule


def rotated(ctx, tag="order"):
    """first, last or middle one next, always"""
    pick = ctx.choose(tag, ["first", "last", "middle"])
    return lambda n: {"first": 0, "last": n - 1, "middle": n // 2}[pick]


# ---------------------------------------------------------------- how the work is divided
def divided(ctx, workers=4, scenarios=1, most=1000000):
    """configuration k of scenario j is in exactly one job, for every k and j"""
    n = ctx.int("configurations", 1, most)
    k = ctx.int("k", 0, most - 1)
    ctx.assume(k < n)
    made, jobs = [], []
    result = pd.DataFrame({"x": [1.0]})

    class Recorder:
        """takes every job of the parallel machinery and does nothing"""

        def __init__(self, *a, **kw):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def submit(self, fn, *a, **kw):
            jobs.append(list(a) + list(kw.values()))
            f = concurrent.futures.Future()
            f.set_result(result)
            return f

    par, proc, back = install(ctx, lambda n_: 0, made, {"ProcessPoolExecutor": Recorder})
    try:
        scens = [{"scenname": f"s{j}", "number": j} for j in range(scenarios)]
        cfgs = ctx.sequence(n, lambda i: i)
        par.run_ciceroscm_parallel(scens, cfgs, ["Surface Air Temperature Change"], max_workers=workers)
    finally:
        back()
    for j in range(scenarios):
        times, size = 0, 0
        for args in jobs:
            if not any(isinstance(a, dict) and a.get("number") == j for a in args):
                continue
            chunk = [a for a in args if hasattr(a, "start") or isinstance(a, list) and (not a or not isinstance(a[0], str))]
            ctx.true("a job has one set of configurations", len(chunk) == 1)
            c = chunk[0]
            if isinstance(c, list):
                times, size = times + c.count(k), size + len(c)
            else:
                times, size = times + ctx.ite(ctx.both(c.start <= k, k < c.stop), 1, 0), size + (c.stop - c.start)
        ctx.eq(f"scenario {j}: jobs with configuration k", times, 1)
        ctx.eq(f"scenario {j}: configurations in all", size, n)


# ---------------------------------------------------------------- the list of processes
def processed(ctx, n=3, pool=True, kwargs=False, fail=False):
    """result i is that of configuration i and every configuration is run once"""
    made, calls = [], []
    par, proc, back = install(ctx, in_turn(ctx), made)
    a, b = ctx.real("a", -10, 10), ctx.real("b", -10, 10)
    xs = [ctx.real(f"x{i}", -10, 10) for i in range(n)]
    serial = ctx.choose("front_serial", list(range(n + 2)))
    front = ctx.choose("front_parallel", list(range(n + 2))) if pool else 2
    bad = ctx.choose("bad", list(range(n))) if fail else None

    class Refused(Exception):
        pass

    def job(x, i=None):
        if i is None:
            x, i = x
        calls.append(i)
        if i == bad:
            raise Refused(i)
        return a * x + b + 1000 * i

    conf = [{"x": x, "i": i} for i, x in enumerate(xs)] if kwargs else [(x, i) for i, x in enumerate(xs)]
    kw = {}
    if pool:
        cls, _, _ = make_pool(lambda n_: 0, made)
        kw["pool"] = cls()
    try:
        out = proc._parallel_process(job, conf, config_are_kwargs=kwargs, front_serial=serial, front_parallel=front, **kw)
    except Refused:
        ctx.true("an error of a job is raised, and only then", fail)
        return
    finally:
        back()
    ctx.true("an error of a job is raised", not fail)
    ctx.same("each configuration once", sorted(calls), list(range(n)))
    ctx.same("as many results", len(out), n)
    for i in range(n):
        ctx.eq(f"result {i}", out[i], a * xs[i] + b + 1000 * i, atol=1e-9)


# ---------------------------------------------------------------- whole runs
def model(ctx, kinds):
    """stands for the climate model: results tell scenario, configuration and year apart"""

    class Model:
        def __init__(self, cfg):
            self.y0, self.y1, self.x = cfg["nystart"], cfg["nyend"], cfg["own"]
            self.results = {}

        def _run(self, cfg, pamset_udm=None, pamset_emiconc=None, pamset_carbon=None, make_plot=False):
            if pamset_udm["lambda"] is None:
                raise kinds["error"]
            n = self.y1 - self.y0 + 1
            base = 10 * pamset_udm["lambda"] + self.x + 3 * pamset_emiconc["qo3"] - 2 * pamset_carbon["beta_f"]
            self.results = {
                "dT_glob": ctx.array([base + 100 * i for i in range(n)]),
                "OHCTOT": ctx.array([7 * base - i for i in range(n)]),
                "RIB_glob": ctx.array([base for i in range(n)]),
            }

    return Model


VARIABLES = {"Surface Air Ocean Blended Temperature Change": ("dT_glob", "K"), "Heat Content|Ocean": ("OHCTOT", "ZJ")}


def whole(ctx, workers=2, scenarios=(1, 2, 3), configs=(1, 2, 3), fail=False, single=False):
    ns, nc = ctx.choose("scenarios", list(scenarios)), ctx.choose("configs", list(configs))
    made = []
    kinds = {"error": ZeroDivisionError("refused")}
    par, proc, back = install(ctx, rotated(ctx), made, {"CICEROSCM": model(ctx, kinds)})
    gas = gaspam("v1")
    scens = [
        {"scenname": f"scen{j}", "nystart": 1998 + j, "nyend": 2000 + j, "emstart": 1999, "gaspam_data": gas, "own": ctx.real(f"own{j}", -50, 50)} for j in range(ns)
    ]
    cfgs = [
        {
            "pamset_udm": {"lambda": ctx.real(f"lam{i}", 0.1, 3)}, "pamset_emiconc": {"qo3": ctx.real(f"qo3{i}", 0.1, 1)}, "pamset_carbon": {"beta_f": ctx.real(f"bf{i}", 0.1, 1)},
            "Index": f"cfg{i}",
        }
        for i in range(nc)
    ]
    if fail:
        cfgs[ctx.choose("bad", list(range(nc)))]["pamset_udm"]["lambda"] = None
    before = copy.deepcopy(cfgs)
    try:
        if single:
            runner = ctx.mod("parallel.distributionrun").DistributionRun.__new__(ctx.mod("parallel.distributionrun").DistributionRun)
            runner.cfgs, runner.meta_info = cfgs, None
            out = runner.run_over_distribution(scens[0] if ns == 1 else scens, list(VARIABLES) + ["Not a variable"], max_workers=workers)
        else:
            out = par.run_ciceroscm_parallel(scens, cfgs, list(VARIABLES) + ["Not a variable"], max_workers=workers)
    except ZeroDivisionError:
        ctx.true("an error of a run is raised, and only then", fail)
        return
    finally:
        back()
    ctx.true("an error of a run is raised", not fail)
    ctx.true("configurations as given", before == cfgs)
    ctx.same("number of results", len(out), ns * nc * len(VARIABLES))
    for j, s in enumerate(scens):
        for i, c in enumerate(cfgs):
            base = 10 * c["pamset_udm"]["lambda"] + s["own"] + 3 * c["pamset_emiconc"]["qo3"] - 2 * c["pamset_carbon"]["beta_f"]
            for v, (k, unit) in VARIABLES.items():
                rows = out[(out["scenario"] == s["scenname"]) & (out["run_id"] == c["Index"]) & (out["variable"] == v)]
                ctx.same(f"results for {s['scenname']} {c['Index']} {v}", len(rows), 1)
                if len(rows) != 1:
                    continue
                ctx.same("unit", rows["unit"].iloc[0], unit)
                for y in range(3):
                    want = base + 100 * y if k == "dT_glob" else (7 * base - y) * 10
                    ctx.eq(f"{s['scenname']} {c['Index']} {v} {s['nystart'] + y}", rows[s["nystart"] + y].iloc[0], want, rtol=1e-9, atol=1e-9)


# ---------------------------------------------------------------- with the model itself
NAMES = {
    "Surface Air Ocean Blended Temperature Change": lambda r: list(r["dT_glob"]),
    "Effective Radiative Forcing|Anthropogenic": lambda r: list(r["forcing"]["Total_forcing"]),
    "Effective Radiative Forcing|Anthropogenic|CH4": lambda r: list(r["forcing"]["CH4"]),
    "Atmospheric Concentrations|N2O": lambda r: list(r["concentrations"]["N2O"]),
    "Emissions|CH4": lambda r: list(r["emissions"]["CH4"]),
}


def real_model(ctx, workers=2, thermal="twolayer", carbon="box", ny=(1998, 2000), configs=3, scenarios=2, conc_run=False, mixed=False, gasfile=False):
    made = []
    folder = ctx.scratch() if gasfile else None
    par, proc, back = install(ctx, lambda n: n - 1, made)
    # the mixed case is a known finding; few variables keep its counterexample easy to find
    lam = [1.0 if mixed else ctx.real(f"lambda{i}", 0.3, 2.0) for i in range(configs)]
    q = [0.03 if mixed else ctx.real(f"qbc{i}", 0.0, 0.06) for i in range(configs)]

    def scens():
        out = []
        for j in range(scenarios):
            s = Scenario(ctx, ny=ny, emstart=ny[1] - 1, carbon=carbon)
            put(ctx, s.em, ny[0] + 1, "SO2", ctx.real(f"so2_{j}", 10.0, 90.0))
            if not mixed:
                s.extra.update(data(ctx, s, 1, (f"sun{j}_0",)))
            s.extra.update(sunvolc=1, conc_run=conc_run, thermal_model=thermal, idtm=2, scenname=f"s{j}")
            s.objectify()
            c = s.cfg()
            if gasfile:
                c["gaspam_file"] = gas_file(ctx, os.path.join(folder, f"gases{j}.txt"), c.pop("gaspam_data"))
            out.append(c)
        return out

    cfgs = [
        {"pamset_udm": {"lambda": lam[i]}, "pamset_emiconc": {"qbc": q[i], "ref_yr": ny[1] - 1, "idtm": 2}, "pamset_carbon": {"beta_f": 0.2 + 0.1 * i}, "Index": f"c{i}"} for i in range(configs)
    ]
    if mixed:
        del cfgs[-1]["pamset_carbon"]
    try:
        out = par.run_ciceroscm_parallel(scens(), copy.deepcopy(cfgs), list(NAMES), max_workers=workers)
    finally:
        back()
    ctx.same("number of results", len(out), scenarios * configs * len(NAMES))
    for j, s in enumerate(scens()):
        for i, c in enumerate(copy.deepcopy(cfgs)):
            m = ctx.mod("ciceroscm").CICEROSCM(dict(s))
            m._run({"results_as_dict": True}, **{k: v for k, v in c.items() if k != "Index"})
            for v, want in NAMES.items():
                rows = out[(out["scenario"] == f"s{j}") & (out["run_id"] == f"c{i}") & (out["variable"] == v)]
                ctx.same(f"results for s{j} c{i} {v}", len(rows), 1)
                if len(rows) == 1:
                    for y, x in zip(range(ny[0], ny[1] + 1), want(m.results)):
                        ctx.eq(f"s{j} c{i} {v} {y}", rows[y].iloc[0], x, rtol=1e-9, atol=1e-9)


def cases(tier):
    out = []
    for w in range(2, 9):
        for s in (1, 2, 3) if tier == "quick" else range(1, 10):
            out.append(Case(f"divided-{w}-{s}", divided, dict(workers=w, scenarios=s)))
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for kwargs in (False, True):
            k = "-kw" if kwargs else ""
            out.append(Case(f"processed-{n}{k}", processed, dict(n=n, kwargs=kwargs), max_paths=6000))
            out.append(Case(f"processed-none-{n}{k}", processed, dict(n=n, pool=False, kwargs=kwargs)))
    out.append(Case("processed-fail", processed, dict(n=3, fail=True), max_paths=6000))
    out.append(Case("processed-fail-none", processed, dict(n=2, pool=False, fail=True)))
    for w in (1, 2, 3, 4, 6):
        out.append(Case(f"whole-{w}", whole, dict(workers=w, configs=(1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)), max_paths=2000))
    out.append(Case("whole-many-4", whole, dict(workers=4, scenarios=(1,), configs=(4, 5, 7)), max_paths=2000))
    out.append(Case("whole-fail-1", whole, dict(workers=1, fail=True)))
    out.append(Case("whole-fail-3", whole, dict(workers=3, fail=True)))
    out.append(Case("whole-single", whole, dict(workers=2, scenarios=(1, 2), single=True)))
    out.append(Case("model-2", real_model, dict()))
    out.append(Case("model-1", real_model, dict(workers=1, configs=2, thermal="default", conc_run=True, scenarios=1)))
    out.append(Case("model-5", real_model, dict(workers=5, configs=4, scenarios=1)))
    out.append(Case("model-gas-file", real_model, dict(workers=2, configs=2, scenarios=1, gasfile=True)))
    out.append(Case("model-mixed", real_model, dict(workers=1, configs=2, scenarios=1, mixed=True)))
    return out

"""
Runs the cases of a property: explore, query, replay, validate, report.
"""

import functools
import hashlib
import importlib
import inspect
import json
import logging
import multiprocessing
import os
import random
import re
import signal
import sys
import threading
import time
import traceback
import warnings

import numpy as np

from . import explore, loader, smt
from . import terms as T
from .explore import ConcreteCtx, Explorer, Infeasible, PathLimit, StopPath
from .terms import Sym, Unsupported

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEADLINE = [float("inf")]
KNOWN = os.path.join(ROOT, "known_findings.json")


class Case:
    """One harness with a fixed structural configuration"""

    def __init__(
        self,
        name,
        fn,
        config=None,
        tier="quick",
        max_paths=200,
        time_limit=100,
        timeout_ms=20000,
        validate=3,
        batch=250,
        degrade_points=60,
        concrete_only_reason=None,
    ):
        self.name = name
        self.fn = fn
        self.config = config or {}
        self.tier = tier
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.timeout_ms = timeout_ms
        self.validate = validate
        self.batch = batch
        self.degrade_points = degrade_points


class HarnessMismatch(Exception):
    """The harness does not fit this tree (internal name or signature changed)"""


def quiet():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")


def run_concrete(case, values, rng=None, style="mid"):
    """(failures, ctx) of the harness on the real code; None if not applicable"""
    ctx = ConcreteCtx(values, rng=rng, style=style)
    try:
        try:
            ctx.fresh()
            case.fn(ctx, **case.config)
        finally:
            ctx.close_files()
    except Infeasible:
        return None, ctx
    except StopPath:
        pass
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        text = str(e)
        if os.path.join(ROOT, "props") in where.filename and (
            isinstance(e, ImportError)
            or (isinstance(e, AttributeError) and "has no attribute" in text)
            or (isinstance(e, TypeError) and ("argument" in text or "not callable" in text))
        ):
            # the harness calls something internal that this tree names or
            # takes differently: no statement about the property
            raise HarnessMismatch(f"{type(e).__name__}: {text[:200]} at {where.name}") from e
        ctx.failures.append(
            f"raised {type(e).__name__}: {str(e)[:200]} at {os.path.basename(where.filename)}:{where.name}"
        )
    return ctx.failures, ctx


class CaseTimeout(BaseException):
    """the symbolic part of a case has used its wall time (not an Exception: nothing on the way may swallow it)"""


class wall_limit:
    """raise CaseTimeout in the code inside once the seconds are over"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.old = signal.signal(signal.SIGALRM, self._fire)
            signal.setitimer(signal.ITIMER_REAL, max(self.seconds, 1.0))

    @staticmethod
    def _fire(signum, frame):
        raise CaseTimeout()

    def __exit__(self, *exc):
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
        return False


class CaseResult:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.obligations = 0
        self.trivial = 0
        self.violations = []  # (label, values, message)
        self.known = []
        self.inconclusive = []
        self.degraded = None
        self.witness = False
        self.validated = 0
        self.concrete_runs = 0
        self.wall = 0.0
        self.stats = {}
        self.functions = []
        self.variables = {}
        self.samples = []
        self.decisions = 0


def match_known(prop, case, message, known):
    for k in known:
        if k.get("property") == prop and k.get("case") in (None, case) and re.search(
            k["match"], message
        ):
            return k
    return None


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN, encoding="utf-8") as f:
        return json.load(f).get("known", [])


def _trace_functions(case, values):
    """Functions of the package the harness reaches (measured on a real run)"""
    seen = set()
    src = os.path.join(loader.REPO_SRC, "ciceroscm")

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(src):
                seen.add(f"{os.path.relpath(f, src)}:{frame.f_code.co_qualname}")

    sys.setprofile(prof)
    try:
        run_concrete(case, values)
    finally:
        sys.setprofile(None)
    return sorted(seen)


def run_case(prop, case, seed, tier):
    quiet()
    t0 = time.time()
    smt.STATS.__init__()
    res = CaseResult(case.name)
    known = load_known()
    rng = random.Random(f"{seed}/{prop}/{case.name}")
    reported = set()

    def report(message, values):
        k = match_known(prop, case.name, message, known)
        if k:
            if k["id"] not in [x[0] for x in res.known]:
                res.known.append((k["id"], k["what"], message, values))
            return "known"
        key = message.split(":")[0]
        if key not in reported:
            reported.add(key)
            res.violations.append((message, values))
        return "new"

    def try_replay(values):
        """True if the real code fails the harness at these inputs"""
        res.concrete_runs += 1
        fails, ctx = run_concrete(case, values)
        if not fails:
            return False
        new = False
        for f in fails:
            if report(f, ctx.used) == "new":
                new = True
        return "new" if new else "known"

    try:
        with wall_limit(min(case.time_limit * 2.2, DEADLINE[0] + 20 - time.time())):
            if time.time() > DEADLINE[0]:
                raise Unsupported("global time limit of the check")
            ex = Explorer(case.fn, case.config, max_paths=case.max_paths, time_limit=case.time_limit)
            paths = ex.run()
            res.paths = len(paths)
            res.decisions = ex.decisions_total
            res.variables = {k: v for k, v in ex.variables.items()}
            if not paths:
                raise Unsupported("no feasible path: vacuous harness")
            for path in paths:
                if time.time() - t0 > case.time_limit * 2:
                    res.inconclusive.append("case time limit")
                    break
                _decide_path(case, ex, path, res, try_replay, rng, t0)
                if res.violations:
                    break
            if not res.violations:
                _witness(case, ex, paths, res, try_replay, rng)
            if not res.violations and res.obligations == 0:
                raise Unsupported("no obligation reached")
    except CaseTimeout:
        res.degraded = "CaseTimeout: the symbolic part of the case used up its time"
    except (Unsupported, PathLimit, HarnessMismatch) as e:
        res.degraded = f"{type(e).__name__}: {e}"
    except RecursionError as e:
        res.degraded = f"RecursionError: {e}"
    except Exception as e:  # engine trouble, never silently a pass
        res.degraded = f"engine {type(e).__name__}: {e} | " + traceback.format_exc()[-800:]

    if (res.degraded or res.inconclusive) and not res.violations:
        # Symbolic decision not available for all of this case: fall back to
        # running the real code, and say so.
        for i in range(case.degrade_points):
            if time.time() - t0 > case.time_limit * 2.5 or time.time() > DEADLINE[0] + 60:
                break
            style = ["mid", "lo", "hi"][i] if i < 3 else "random"
            try:
                fails, ctx = run_concrete(case, {}, rng=rng, style=style)
            except HarnessMismatch as e:
                res.degraded = f"{res.degraded} | real code: {e}"
                break
            res.concrete_runs += 1
            if fails:
                new = [f for f in fails if report(f, ctx.used) == "new"]
                if new:
                    break
    elif not res.violations:
        # translator validation / real arithmetic vs floats: a few real runs
        for i in range(case.validate):
            style = ["random", "mid", "lo", "hi"][i] if i < 4 else "random"
            try:
                fails, ctx = run_concrete(case, {}, rng=rng, style=style)
            except HarnessMismatch as e:
                res.degraded = f"real code: {e}"
                break
            res.concrete_runs += 1
            if fails:
                for f in fails:
                    report(f, ctx.used)
    try:
        res.functions = _trace_functions(case, {})
    except Exception:  # noqa: BLE001
        pass
    res.stats = smt.STATS.as_dict()
    res.wall = time.time() - t0
    return res


def _query(ex, path, obls):
    viol = []
    for o in obls:
        if o.kind == "bool":
            viol.append(("bool", T.bool_not(o.cond)))
        else:
            viol.append(("eq", o.pd, o.pb, o.atol, o.rtol))
    viol = [("bool", T.bconst(v[1])) if v[0] == "bool" and not isinstance(v[1], T.SymBool) else v for v in viol]
    return smt.Query(path.pctx, path.pc, path.relations, viol)


def _decide_path(case, ex, path, res, try_replay, rng, t0):
    timeout = case.timeout_ms
    if path.error is not None:
        # did the real code raise here, or is it our encoding?
        q = smt.Query(path.pctx, path.pc, smt.cone(path.pctx, path.relations, path.pc), [("bool", T.bconst(True))])
        ans, model, _ = q.solve(timeout_ms=timeout)
        if ans == "unsat":
            return
        hit = False
        for values in _candidates(case, ex, path, None, model, rng):
            hit = try_replay(values)
            if hit:
                break
        if not hit:
            raise Unsupported(f"path raised {type(path.error).__name__}: {path.error} | {path.trace[-600:]}")
        return
    obls = path.obligations
    res.obligations += len(obls)
    queue = [obls[i : i + case.batch] for i in range(0, len(obls), case.batch)]
    while queue:
        if time.time() - t0 > case.time_limit * 2:
            res.inconclusive.append("case time limit")
            return
        chunk = queue.pop(0)
        q = _query(ex, path, chunk)
        many = len(chunk) > 1
        if not many:
            ans, model, how = q.solve(full=False, lin_timeout=timeout, quick_relaxed=True)
            if ans != "unsat":
                # cheap look on the real code before the expensive query
                hit = False
                for values in _candidates(case, ex, path, None, model, rng, 6):
                    hit = try_replay(values)
                    if hit:
                        break
                if hit == "new":
                    return
                if hit == "known":
                    continue
        if many or ans != "unsat":
            ans, model, how = q.solve(
                timeout_ms=timeout if not many else min(timeout, 8000),
                full=not many,
                lin_timeout=timeout if not many else min(timeout, 8000),
            )
        if ans == "unsat":
            if os.environ.get("VERIF_TIER") == "thorough" and smt.STATS.cross < 40 and hasattr(q, "last"):
                r = smt.cross_check(q.last)
                smt.STATS.cross += 1
                if r == "sat":
                    smt.STATS.cross_disagree += 1
                    raise Unsupported("cvc5 disagrees with z3 on a query")
            continue
        if many:
            # a quick look at the candidate before splitting
            if model is not None and ans == "sat":
                if try_replay(model) == "new":
                    return
            mid = len(chunk) // 2
            queue.insert(0, chunk[mid:])
            queue.insert(0, chunk[:mid])
            continue
        o = chunk[0]
        hit = False
        for values in _candidates(case, ex, path, q, model, rng):
            hit = try_replay(values)
            if hit:
                break
        if hit == "new":
            return
        if not hit:
            res.inconclusive.append(f"{o.label}: solver says {ans} ({how}), not reproduced on the real code")
            if len(res.inconclusive) > 12:
                raise Unsupported("too many undecided obligations: " + res.inconclusive[0])


def _candidates(case, ex, path, q, model, rng, limit=12):
    """Concrete inputs worth replaying for a possibly violated obligation"""
    if model:
        yield _fill(ex, model)
    if q is not None:
        for factor in (1000000, 1000, 10):
            ans, m, _ = q.solve(timeout_ms=4000, factor=factor, lin_timeout=4000)
            if m and ans != "unsat":
                yield _fill(ex, m)
    # random points that follow this path
    tries = 0
    found = 0
    while tries < 400 and found < limit:
        tries += 1
        env = {}
        for name, (lo, hi, isint) in ex.variables.items():
            if model and name in model and rng.random() < 0.5:
                env[name] = model[name]
            elif isint:
                env[name] = rng.randint(int(lo), int(hi))
            elif lo > 0 and rng.random() < 0.5:
                env[name] = float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
            else:
                env[name] = rng.uniform(lo, hi)
        try:
            ok = explore.eval_path(path, env)
        except Exception:  # noqa: BLE001
            ok = None
        if ok is not None:
            found += 1
            yield env


def _fill(ex, model):
    return {k: v for k, v in model.items() if k in ex.variables}


def _witness(case, ex, paths, res, try_replay, rng):
    """Reachability twin and validation of the translation"""
    for path in sorted(paths, key=lambda p: len(p.pc)):
        if path.error is not None or not path.obligations:
            continue
        q = smt.Query(path.pctx, path.pc, smt.cone(path.pctx, path.relations, path.pc), [("bool", T.bconst(True))])
        ans, model, _ = q.solve(full=False, lin_timeout=10000, quick_relaxed=True)
        if model is None and ans != "unsat":
            model = {}
        points = [] if model is None else [_fill(ex, model)]
        for _ in range(2):
            points.append(
                {
                    n: (rng.randint(int(lo), int(hi)) if isint else rng.uniform(lo, hi))
                    for n, (lo, hi, isint) in ex.variables.items()
                }
            )
        for env in points:
            full = {n: 0.5 * (lo + hi) for n, (lo, hi, _) in ex.variables.items()}
            full.update(env)
            full = {
                n: (int(round(v)) if ex.variables[n][2] else float(v)) for n, v in full.items()
            }
            try:
                ev = explore.eval_path(path, full)
            except Exception:  # noqa: BLE001
                ev = None
            if ev is None:
                continue
            env2, cache = ev
            res.concrete_runs += 1
            fails, ctx = run_concrete(case, full)
            if fails is None:
                continue
            if fails:
                try_replay(full)
                return
            obs = {}
            for lab, x, y in ctx.observed:
                obs.setdefault(lab, (x, y))
            ok = 0
            for o in path.obligations:
                if o.kind != "eq" or o.label not in obs:
                    continue
                x, _y = obs[o.label]
                v = T.evaluate(o.a, env2, cache)
                if not explore._close(v, float(x), 1e-7, max(1e-9, 10 * o.atol)):
                    raise Unsupported(
                        f"translation mismatch at {o.label}: encoding {v!r}, real code {x!r}"
                    )
                ok += 1
            res.validated += 1
            if not res.samples:
                res.samples.append(
                    {
                        "case": case.name,
                        "inputs": {k: full[k] for k in list(full)[:12]},
                        "obligations_compared": ok,
                        "path_conditions": len(path.pc),
                    }
                )
            if path.obligations:
                res.witness = True
        if res.witness:
            return
    if not res.witness:
        raise Unsupported("no concrete witness reaches the assertions")


def _job(args):
    prop, name, seed, tier = args
    mod = importlib.import_module(f"props.{prop}")
    case = [c for c in mod.cases(tier) if c.name == name][0]
    try:
        return run_case(prop, case, seed, tier)
    except BaseException as e:  # noqa: BLE001
        r = CaseResult(name)
        r.degraded = f"fatal {type(e).__name__}: {e}"
        r.stats = smt.STATS.as_dict()
        return r


def write_replay(prop, case, message, values):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(f"{case}{message}".encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{re.sub('[^A-Za-z0-9_.-]', '_', case)}-{h}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "case": case, "message": message, "values": values}, f, indent=1)
    return path


def replay(path):
    quiet()
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    mod = importlib.import_module(f"props.{d['property']}")
    case = [c for c in mod.cases("thorough") if c.name == d["case"]][0]
    fails, _ = run_concrete(case, d["values"])
    print(f"property {d['property']} case {d['case']}")
    print("inputs:", json.dumps(d["values"])[:2000])
    if fails:
        for f in fails:
            print("FAILS:", f)
        return 1
    print("does not fail on this tree")
    return 0


def main(prop, tier, only=None, jobs=None, verbose=False):
    quiet()
    sys.path.insert(0, ROOT)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    DEADLINE[0] = t0 + (420 if tier == "quick" else 3000)
    mod = importlib.import_module(f"props.{prop}")
    cases = [c for c in mod.cases(tier) if only is None or re.search(only, c.name)]
    for c in cases:  # fail early on duplicate names
        assert sum(1 for d in cases if d.name == c.name) == 1, c.name
    loader.sym_module("ciceroscm")
    loader.real_module("ciceroscm")
    jobs = jobs or min(8, os.cpu_count() or 1)
    args = [(prop, c.name, seed, tier) for c in cases]
    results = []
    ctx = multiprocessing.get_context("fork")
    if jobs == 1:
        results = [_job(a) for a in args]
    else:
        with ctx.Pool(jobs, maxtasksperchild=4) as pool:
            for r in pool.imap_unordered(_job, args, chunksize=1):
                results.append(r)
                if verbose:
                    show(r)
    order = {c.name: i for i, c in enumerate(cases)}
    results.sort(key=lambda r: order[r.name])
    if verbose and jobs == 1:
        for r in results:
            show(r)
    return report(prop, tier, seed, mod, cases, results, time.time() - t0)


def _stress_job(args):
    prop, name, tier, n, scale = args
    quiet()
    mod = importlib.import_module(f"props.{prop}")
    case = [c for c in mod.cases(tier) if c.name == name][0]
    explore.TOLERANCE[0] = scale
    bad = {}
    rng = random.Random(f"stress/{prop}/{name}")
    t0 = time.time()
    for i in range(n):
        fails, _ = run_concrete(case, {}, rng=rng, style="random")
        for f in fails or []:
            bad.setdefault(f.split(":")[0], []).append(f)
        if time.time() - t0 > 120:
            break
    return name, i + 1, bad


def stress(prop, tier, n, only=None, scale=0.05):
    """Self-test: how far rounding stays from the tolerances, on random points"""
    sys.path.insert(0, ROOT)
    mod = importlib.import_module(f"props.{prop}")
    loader.sym_module("ciceroscm")
    loader.real_module("ciceroscm")
    args = [(prop, c.name, tier, n, scale) for c in mod.cases(tier) if only is None or re.search(only, c.name)]
    rc = 0
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for name, k, bad in pool.imap(_stress_job, args):
            print(f"{prop} {name}: {k} points, {len(bad)} labels beyond {scale} of the tolerance")
            for lab in list(bad)[:5]:
                rc = 1
                print("   ", len(bad[lab]), bad[lab][0])
    return rc


def show(r):
    print(
        f"  {r.name}: paths={r.paths} obl={r.obligations} q={r.stats.get('queries')} "
        f"nl={r.stats.get('nonlinear')} solver={r.stats.get('time', 0):.1f}s wall={r.wall:.1f}s "
        f"viol={len(r.violations)} incon={len(r.inconclusive)} wit={r.witness} "
        f"{'DEGRADED ' + r.degraded.splitlines()[0][:160] + ' ... ' + r.degraded.splitlines()[-1][:160] if r.degraded else ''}",
        flush=True,
    )
    for m in r.inconclusive[:3]:
        print("     inconclusive:", m)
    for m, v in r.violations[:3]:
        print("     violation:", m)


def report(prop, tier, seed, mod, cases, results, wall):
    total = smt.Stats()
    funcs = set()
    for r in results:
        total.merge({k: v for k, v in r.stats.items()})
        funcs.update(r.functions)
    viol = [(r.name, m, v) for r in results for m, v in r.violations]
    known = [(r.name,) + k for r in results for k in r.known]
    degraded = {r.name: r.degraded for r in results if r.degraded}
    incon = {r.name: r.inconclusive[:5] for r in results if r.inconclusive}
    obligations = sum(r.obligations for r in results)
    explanation = (
        f"Symbolic execution of the real code, {len(cases)} harness configuration(s), "
        f"{sum(r.paths for r in results)} feasible path(s), {obligations} assertion(s) put to the solver "
        f"in {total.queries} SMT queries ({total.unsat} unsat, {total.linear} linear, {total.nonlinear} non-linear), "
        f"{total.time:.1f} s solver time. Every variable ranges over its whole stated interval."
    )
    if degraded or incon:
        explanation += (
            f" NOT decided symbolically on this tree: {len(degraded)} configuration(s), "
            f"{sum(len(v) for v in incon.values())} assertion(s); for those only concrete runs of the real code were made."
        )
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": explanation,
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "functions_encoded": sorted(funcs),
            "source_digests": {
                os.path.relpath(k, loader.REPO_SRC): v for k, v in sorted(loader.ENCODED_FILES.items())
            },
            "configurations": [c.name for c in cases],
            "paths": sum(r.paths for r in results),
            "branch_decisions": sum(r.decisions for r in results),
            "assertions": obligations,
            "queries": total.queries,
            "queries_unsat": total.unsat,
            "queries_linear": total.linear,
            "queries_nonlinear": total.nonlinear,
            "feasibility_queries": total.feas,
            "solver_time_s": round(total.time, 3),
            "cvc5_cross_checks": total.cross,
            "reachability_witnesses": sum(1 for r in results if r.witness),
            "translator_validation_points": sum(r.validated for r in results),
            "concrete_runs_of_real_code": sum(r.concrete_runs for r in results),
            "not_decided_symbolically": degraded,
            "inconclusive": incon,
            "known_findings_seen": sorted({k[1] for k in known}),
            "samples": [s for r in results for s in r.samples][:4],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", [])
        + [
            "floating-point arithmetic is read as exact real arithmetic; equalities are checked up to a stated tolerance",
            "exp, log and fractional powers are represented by true bounds (tangents, chords, monotonicity), not exactly",
        ],
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    print(explanation)
    for name, d in degraded.items():
        print(f"NOTE case {name} not decided symbolically: {d.splitlines()[0][:200]}")
    for name, d in incon.items():
        print(f"NOTE case {name} inconclusive: {d[0]}")
    for kid in sorted({(k[1], k[2]) for k in known}):
        print(f"KNOWN-FINDING: property={prop} {kid[1]}")
    if viol:
        for name, m, v in viol[:10]:
            p = write_replay(prop, name, m, v)
            print(f"case {name}: {m}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    print(f"property {prop} held on everything explored ({wall:.1f} s)")
    return 0

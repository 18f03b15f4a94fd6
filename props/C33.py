"""C33: plots show the results of the run, each series once and under its own name"""
import contextlib
import os

import matplotlib.pyplot as pyplot
import numpy as np
import pandas as pd

from engine.runner import Case
from props.C29 import TEMPERATURES, model

BOUNDS = (
    "every picture of a run with plots, every panel and line in it; emission-, concentration- and forcing-driven runs, both thermal models, both carbon cycles, 3 years, emissions, "
    "concentrations, solar, volcanic and other forcing arbitrary; tables of 1 to 61 species with arbitrary numbers and every position of species without unit on the page"
)
OUTSIDE = "what matplotlib does with the lines it is given (colours, layout, pixels): the drawing library is replaced by one that records axes, lines, titles and the file each figure is saved to"
ASSUMPTIONS = []
NOT_DRAWN = ["NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"]


class Anything:
    """takes any call and attribute"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()


class Axes(Anything):
    def __init__(self):
        self.lines, self.title, self.ylabel = [], "", ""

    def plot(self, x, y, *a, label=None, **k):
        self.lines.append((label, list(x), list(y)))
        return [Anything()]

    def set_title(self, label, *a, loc="center", **k):
        if loc in (None, "center"):
            self.title = label

    def set_ylabel(self, label, *a, **k):
        self.ylabel = label

    def set(self, **k):
        self.title = k.get("title", self.title)
        self.ylabel = k.get("ylabel", self.ylabel)


class Figure(Anything):
    def __init__(self, shelf):
        self.shelf, self.panels = shelf, []

    def grid(self, nrows=1, ncols=1, *, squeeze=True, **k):
        out = np.empty((nrows, ncols), dtype=object)
        for i in np.ndindex(nrows, ncols):
            out[i] = Axes()
            self.panels.append(out[i])
        if squeeze:
            return out.item() if out.size == 1 else out.squeeze()
        return out

    def subplots(self, *a, **k):
        return self.grid(*a, **k)

    def add_subplot(self, *a, **k):
        self.panels.append(Axes())
        return self.panels[-1]

    def delaxes(self, ax):
        self.panels = [p for p in self.panels if p is not ax]

    def savefig(self, path, *a, **k):
        if path in self.shelf.saved and self.shelf.saved[path][0] is not self:
            self.shelf.twice.append(path)
        # as it looks when it is saved
        self.shelf.saved[path] = (self, [(p.title, p.ylabel, list(p.lines)) for p in self.panels])


class Shelf:
    def __init__(self):
        self.saved, self.twice, self.now = {}, [], None

    def figure(self, *a, **k):
        self.now = Figure(self)
        return self.now

    def subplots(self, *a, figsize=None, sharex=None, sharey=None, **k):
        f = self.figure()
        return f, f.grid(*a, **{x: y for x, y in k.items() if x in ("nrows", "ncols", "squeeze")})

    def savefig(self, path, *a, **k):
        self.now.savefig(path)


@contextlib.contextmanager
def recorder():
    shelf = Shelf()
    own = {n: getattr(shelf, n) for n in ("figure", "subplots", "savefig")}
    own["gcf"] = lambda: shelf.now
    own["close"] = lambda *a: None
    old = {n: getattr(pyplot, n) for n in own}
    try:
        for n, f in own.items():
            setattr(pyplot, n, f)
        yield shelf
    finally:
        for n, f in old.items():
            setattr(pyplot, n, f)


def show(ctx, tag, line, years, values):
    """one line over all years"""
    _, x, y = line
    ctx.same(f"{tag}: years", [int(v) for v in x], years)
    ctx.same(f"{tag}: length", len(y), len(years))
    for t, a, b in zip(years, y, values):
        ctx.eq(f"{tag} {t}", a, b, rtol=1e-9, atol=1e-12)


def thermal_pictures(ctx, shelf, folder, results, years):
    by = {os.path.relpath(p, folder): v[1] for p, v in shelf.saved.items()}
    heat = {t: l for t, _, l in by.get("ohc.png", [])}
    ctx.same("heat content panels", sorted(heat), ["OHC700", "OHCTOT"])
    for t, lines in sorted(heat.items()):
        ctx.same(f"{t} lines", len(lines), 1)
        show(ctx, t, lines[0], years, results[t])
    for pic, names in (("rib.png", ["RIB_glob", "RIB_N", "RIB_S"]), ("temp.png", TEMPERATURES)):
        names = [n for n in names if n in results]
        ctx.same(f"{pic} series", sorted({l[0] for _, _, lines in by.get(pic, []) for l in lines}), sorted(names))
        for k, (_, _, lines) in enumerate(by.get(pic, [])):
            ctx.same(f"{pic} panel {k}: once each", len({l[0] for l in lines}), len(lines))
            for l in lines:
                if l[0] in results:
                    show(ctx, f"{pic} panel {k} {l[0]}", l, years, results[l[0]])


def species_pictures(ctx, shelf, folder, start, frame, units, left_out):
    """every species has its panel in one of the pictures"""
    years = [int(y) for y in frame["Year"]]
    cols = [c for c in frame.columns if c != "Year" and c not in left_out]
    panels = {}
    for p, (_, saved) in shelf.saved.items():
        if os.path.dirname(p) == folder and os.path.basename(p).startswith(start + "_"):
            for title, ylabel, lines in saved:
                if lines:
                    panels.setdefault(title, []).append((ylabel, lines))
    names = {("Total anthropogenic" if c == "Total_forcing" else c): c for c in cols}
    ctx.same(f"{start} panels", sorted(panels), sorted(names))
    for title, c in names.items():
        for ylabel, lines in panels.get(title, []):
            ctx.same(f"{start} {c}: one panel with one line", (len(panels[title]), len(lines)), (1, 1))
            show(ctx, f"{start} {c}", lines[0], years, list(frame[c]))
            if units is not None:
                ctx.same(f"{start} {c}: unit", ylabel, f"[{units[c]}]")


def run(ctx, driven="emissions", thermal="default", carbon="box", ny=(1999, 2001), relative=False):
    folder = os.path.join(ctx.scratch(), "output")
    os.makedirs(folder)
    pams = {"pamset_udm": {"lm": 8, "ldtime": 2} if thermal == "default" else None}
    if driven != "forcing":
        pams["pamset_emiconc"] = {"ref_yr": ny[1], "lifetime_mode": "CONSTANT_12"}
    m = model(ctx, driven, thermal, carbon, ny)
    m._run({"results_as_dict": True}, **pams)
    want = dict(m.results)
    n = model(ctx, driven, thermal, carbon, ny)
    where = os.getcwd()
    with recorder() as shelf:
        try:
            os.chdir(os.path.dirname(folder))
            # the folder given, or the default one
            n._run({} if relative else {"output_folder": folder}, make_plot=True, **pams)
        finally:
            os.chdir(where)
    here = os.path.join(folder, "plots")
    real = os.path.realpath(here)
    shelf.saved = {os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p)): v for p, v in shelf.saved.items()}
    ctx.same("pictures saved twice", shelf.twice, [])
    ctx.same("pictures elsewhere", [p for p in shelf.saved if os.path.dirname(p) != real], [])
    ctx.true("folder of the pictures", os.path.isdir(here))
    years = list(range(ny[0], ny[1] + 1))
    thermal_pictures(ctx, shelf, real, want, years)
    for k in sorted(x for x in want if not isinstance(want[x], pd.DataFrame)):
        for i, y in enumerate(years):
            ctx.eq(f"{k} {y} with plots", n.results[k][i], want[k][i])
    if driven == "forcing":
        return
    gas = n.ce_handler.df_gas
    for start, kind, unit in (("em", "emissions", "EM_UNIT"), ("conc", "concentrations", "CONC_UNIT"), ("forc", "forcing", None)):
        units = None if unit is None else dict(gas[unit])
        out = NOT_DRAWN if unit is None else [c for c, u in units.items() if u == "X"]
        species_pictures(ctx, shelf, real, start, want[kind], units, out)


def table(ctx, kind="conc", sizes=(1,), none=(), year_at=0):
    """tables with any number of species"""
    m = ctx.mod("make_plots")
    years = [1990, 1991]
    for k in sizes:
        names = [f"S{i}" for i in range(k)]
        if kind == "forc":
            names = names[:-1] + ["Total_forcing"]
            names = names + NOT_DRAWN
        cols = {c: ctx.array([ctx.real(f"v{k}_{c}_{y}", -5, 5) for y in years]) for c in names}
        frame = pd.DataFrame(cols, index=years)
        frame.insert(min(year_at, k), "Year", years)
        unit = pd.Series({c: ("X" if i in none else f"u{i}") for i, c in enumerate(names)})
        unit["other"] = "X"
        with recorder() as shelf:
            m.plot_output2(kind, frame, "somewhere", None if kind == "forc" else unit)
        ctx.same(f"{k}: pictures saved twice", shelf.twice, [])
        start = {"emis": "em"}.get(kind, kind)
        out = NOT_DRAWN if kind == "forc" else [c for c in names if unit[c] == "X"]
        with_k = Tagged(ctx, k)
        species_pictures(with_k, shelf, os.path.join("somewhere", "plots"), start, frame, None if kind == "forc" else dict(unit), out)


class Tagged:
    def __init__(self, ctx, k):
        self.ctx, self.k = ctx, k

    def __getattr__(self, name):
        f = getattr(self.ctx, name)
        return lambda tag, *a, **kw: f(f"{self.k} species, {tag}", *a, **kw)


def cases(tier):
    out = []
    for t in ("default", "twolayer"):
        for d in ("emissions", "concentrations", "forcing"):
            out.append(Case(f"{d}-{t}", run, dict(driven=d, thermal=t)))
    out.append(Case("default-carbon", run, dict(carbon="default")))
    out.append(Case("default-folder", run, dict(thermal="twolayer", relative=True)))
    out.append(Case("other-years", run, dict(ny=(1998, 2001))))
    for kind in ("emis", "conc", "forc"):
        out.append(Case(f"table-{kind}-few", table, dict(kind=kind, sizes=(1, 2, 3, 4, 5, 8, 13))))
        out.append(Case(f"table-{kind}-page", table, dict(kind=kind, sizes=(15, 16, 17, 20, 31))))
        out.append(Case(f"table-{kind}-third", table, dict(kind=kind, sizes=(32, 33, 36, 37))))
        out.append(Case(f"table-{kind}-many", table, dict(kind=kind, sizes=(47, 48, 49, 61))))
        out.append(Case(f"table-{kind}-year-later", table, dict(kind=kind, sizes=(1, 17, 34), year_at=1)))
        out.append(Case(f"table-{kind}-year-last", table, dict(kind=kind, sizes=(2, 16, 33), year_at=99)))
    out.append(Case("table-conc-none", table, dict(kind="conc", sizes=(18, 35), none=(0, 15, 16))))
    out.append(Case("table-emis-none", table, dict(kind="emis", sizes=(18, 35), none=(0, 15, 16, 17, 34))))
    if tier == "thorough":
        for kind in ("emis", "conc", "forc"):
            for lo in range(1, 65, 8):
                out.append(Case(f"table-{kind}-from{lo}", table, dict(kind=kind, sizes=tuple(range(lo, lo + 8)))))
    return out

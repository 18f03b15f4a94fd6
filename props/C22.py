"""C22: inputs read from files mean what the same inputs passed as data mean, each number in its year and species"""
import os

import numpy as np
import pandas as pd

from engine.runner import Case
from props.C21 import compare
from props.common import Scenario, emissions, concentrations, put

BOUNDS = (
    "runs of 3 and 4 years from files covering 1750-2500 or some years more than the run on either side; cells of the run's years of every file arbitrary (solar, land use, "
    "volcanic of each hemisphere and column, natural emissions, some emissions, concentrations, gas parameters and perturbations); files of the shipped formats, species in any order"
)
OUTSIDE = "malformed files; solar, volcanic and land use data passed as objects that do not begin with the first year of the run; default paths that depend on the working directory"
ASSUMPTIONS = ["numbers in the files are read by pandas as they stand there"]
UNITS = {"CO2": "Pg_C"}


def lines(path, rows):
    with open(path, "w", encoding="utf-8") as f:
        f.write("".join(r + "\n" for r in rows))
    return path


def year_rows(ctx, path, y0, df, cols, first=1750, last=2500, sep=" "):
    """a file without header, one row per year from 1750; other years hold other numbers"""
    rows = []
    for y in range(first, last + 1):
        if y in df.index:
            rows.append(sep.join(ctx.text(v) for v in df.loc[y]) + " ")
        else:
            rows.append(sep.join(repr(-7.0 - 0.01 * (y - 1700) - j) for j in range(cols)) + " ")
    return lines(path, rows)


def species_file(ctx, path, df, units, kind, years, order):
    head = {"CO2_FF": "CO2", "CO2_AFOLU": "CO2"}
    cols = list(df.columns)
    if order == "reversed":  # the two CO2 columns stay in their order
        cols = cols[::-1]
        if "CO2_FF" in cols:
            i, j = sorted((cols.index("CO2_FF"), cols.index("CO2_AFOLU")))
            cols[i], cols[j] = "CO2_FF", "CO2_AFOLU"
    rows = [
        "Component\t" + "\t".join(head.get(c, c) for c in cols),
        "Unit\t" + "\t".join(units[head.get(c, c)] for c in cols),
        "Description\t" + "\t".join("total" for _ in cols),
        "Reference\t" + "\t".join("made" for _ in cols),
    ]
    for y in years:
        if y in df.index:
            rows.append(f"{y} \t" + "\t".join(ctx.text(v) for v in df.loc[y, cols]))
        else:
            rows.append(f"{y} \t" + "\t".join(repr(3.0 + 0.01 * (y - 1700) + 0.1 * i) for i in range(len(cols))))
    return lines(path, rows)


def gas_file(ctx, path, df):
    cols = list(df.columns)
    names = {"TAU1": "TAU1(YEARS)", "NAT_EM": "NATURAL_EMISSIONS"}
    rows = ["GAS\t" + "\t".join(names.get(c, c) for c in cols)]
    for g in df.index:
        rows.append(f"{g}\t" + "\t".join(v if isinstance(v, str) else ctx.text(v) for v in df.loc[g]))
    return lines(path, rows)


def perturb_file(ctx, path, df, what):
    rows = [f"component,unit,source,year,{what}"]
    for i in df.index:
        rows.append(f"{df.loc[i, 'component']},unit,src,{df.loc[i, 'year']},{ctx.text(df.loc[i, what])}")
    return lines(path, rows)


def same_run(
    ctx, files=(), ny=(1998, 2001), emstart=1999, conc_run=False, volc="split", ncol=2, margin=(5, 4), order="given", sunvolc=1, wide_data=False, gas="v1", flat=False,
    thermal="twolayer", rows="given", standard=False,
):
    """a run from files and a run from the same data"""

    def scenario():
        s = Scenario(ctx, gas=gas, ny=ny, emstart=emstart)
        yrs, n = list(s.years), ny[1] - ny[0] + 1

        def frame(tag, k, lo, hi):
            df = pd.DataFrame(np.zeros((n, k)), index=yrs)
            for i, y in enumerate(yrs):
                for j in range(k):
                    put(ctx, df, y, j, ctx.real(f"{tag}{i}_{j}", lo, hi))
            return df

        s.f = {"rf_sun": frame("sun", 1, -1, 1), "rf_luc": frame("luc", 1, -1, 1)}
        if volc == "common":
            s.f["rf_volc"] = frame("v", ncol, -3, 0)
        elif volc == "split":
            s.f["rf_volc_n"], s.f["rf_volc_s"] = frame("vn", ncol, -3, 0), frame("vs", ncol, -3, 0)
        s.f["perturb_em"] = pd.DataFrame({"component": ["SO2", "CFC-11", "CO"], "year": [ny[1], ny[1], ny[0] + 1], "emission": [0.0, 0.0, 4.0]})
        s.f["perturb_forc"] = pd.DataFrame({"component": ["OTHER", "CFC-11", "BC"], "year": [ny[1], ny[0] + 1, ny[1]], "forcing": [0.0, 0.5, 0.0]})
        put(ctx, s.f["perturb_em"], 0, "emission", ctx.real("pe0", -1, 3))
        put(ctx, s.f["perturb_em"], 1, "emission", ctx.real("pe1", -1, 3))
        put(ctx, s.f["perturb_forc"], 0, "forcing", ctx.real("pf0", -1, 1))
        put(ctx, s.f["perturb_forc"], 2, "forcing", ctx.real("pf2", -1, 1))
        if conc_run or emstart > ny[1]:
            put(ctx, s.conc, ny[1], "CFC-12", ctx.real("c12", 100, 900))
        put(ctx, s.conc, ny[0], "CFC-11", ctx.real("c11", 50, 500))
        put(ctx, s.em, ny[1], "CFC-11", ctx.real("e11", 0, 500))
        put(ctx, s.em, ny[1], "SO2", ctx.real("eso2", 1, 100))
        put(ctx, s.gas, "CFC-12", "ALPHA", ctx.real("a12", 0.0001, 0.001))
        for i, y in enumerate(yrs):
            put(ctx, s.natch4, y, "CH4", 200.0 + 7 * i)
        if flat == "free":
            put(ctx, s.gas, "CH4", "NAT_EM", ctx.real("natural_ch4", 100, 400))
            put(ctx, s.gas, "N2O", "NAT_EM", ctx.real("natural_n2o", 5, 15))
        s.f.update(gaspam=s.gas, emissions=s.em, concentrations=s.conc, nat_ch4=s.natch4, nat_n2o=s.natn2o)
        return s

    def cfg(s):
        c = dict(nystart=ny[0], nyend=ny[1], emstart=emstart, carbon_cycle_model="box", thermal_model=thermal, sunvolc=sunvolc, conc_run=conc_run, idtm=2)
        for k, v in s.f.items():
            c[k + "_data"] = v
        if flat:
            del c["nat_ch4_data"], c["nat_n2o_data"]
        if not sunvolc:
            for k in list(c):
                if k.startswith(("rf_sun", "rf_volc")):
                    del c[k]
        return c

    a, b = scenario(), scenario()
    if rows == "reversed":  # the gas table in another order
        a.gas = a.f["gaspam"] = a.gas.loc[["CO2"] + [g for g in a.gas.index[::-1] if g != "CO2"]]
    c = cfg(a)
    if wide_data:  # the frames cover more years than the run
        for k, make in (("emissions", emissions), ("concentrations", concentrations)):
            wide = make(a.gas, ny[0] - margin[0], ny[1] + margin[1])
            if ctx.symbolic:
                wide = wide.astype(object)
            for y in a.years:
                wide.loc[y] = a.f[k].loc[y, wide.columns]
            c[k + "_data"] = wide
    years = range(ny[0] - margin[0], ny[1] + margin[1] + 1)
    d = ctx.scratch() if files else None
    for k in files:
        path = os.path.join(d, k + ".txt")
        c.pop(k + "_data", None)
        c[k + "_file"] = path
        if standard:  # the file named is not there, the one at the standard place is taken
            path = os.path.join(d, "input_OTHER", "NATEMIS", f"natemis_{k[4:]}.txt")
            os.makedirs(os.path.dirname(path), exist_ok=True)
        if k.startswith("rf_"):
            year_rows(ctx, path, ny[0], a.f[k], a.f[k].shape[1])
        elif k.startswith("nat_"):
            year_rows(ctx, path, ny[0], a.f[k], 1)
        elif k == "gaspam":
            gas_file(ctx, path, a.gas)
        elif k == "emissions":
            species_file(ctx, path, a.em, a.gas["EM_UNIT"].to_dict(), k, years, order)
        elif k == "concentrations":
            species_file(ctx, path, a.conc, a.gas["CONC_UNIT"].to_dict(), k, years, order)
        else:
            perturb_file(ctx, path, a.f[k], "emission" if k == "perturb_em" else "forcing")
    drv = ctx.mod("ciceroscm")
    pam = {"ref_yr": ny[1] - 1, "idtm": 2}
    runs = []
    ref = cfg(b)
    if volc == "common" and sunvolc:
        v = ref.pop("rf_volc_data")
        ref["rf_volc_n_data"], ref["rf_volc_s_data"] = v.copy(), v.copy()
    if not sunvolc:  # nothing given, nothing applied
        zero = lambda k: pd.DataFrame(np.zeros((ny[1] - ny[0] + 1, k)), index=list(b.years))  # noqa: E731
        ref.update(sunvolc=1, rf_sun_data=zero(1), rf_volc_n_data=zero(12), rf_volc_s_data=zero(12))
    if flat:  # the constants of the gas table
        for k, g in (("nat_ch4", "CH4"), ("nat_n2o", "N2O")):
            ref[k + "_data"] = pd.DataFrame({g: [b.gas.loc[g, "NAT_EM"]] * (ny[1] - ny[0] + 1)}, index=list(b.years))
    where = os.getcwd()
    for conf in (c, ref):
        try:
            if standard:
                os.chdir(d)
            m = drv.CICEROSCM(conf)
        finally:
            os.chdir(where)
        m._run({"results_as_dict": True}, pamset_udm={}, pamset_emiconc=dict(pam))
        runs.append(m.results)
    compare(ctx, "from files" if files else "from data", *runs)


def tables(ctx, ny=(1998, 2000), what="emissions", order="given", margin=(3, 3)):
    """what the reader hands out, by year and species"""
    s = Scenario(ctx, ny=ny)
    df = s.em if what == "emissions" else s.conc
    for c in df.columns:
        if ctx.symbolic:
            df[c] = df[c].astype(object)
        for y in s.years:
            df.loc[y, c] = ctx.real(f"{c}_{y}", -10, 1000)
    path = os.path.join(ctx.scratch(), "table.txt")
    species_file(ctx, path, df, s.gas["EM_UNIT" if what == "emissions" else "CONC_UNIT"].to_dict(), what, range(ny[0] - margin[0], ny[1] + margin[1] + 1), order)
    conf = dict(nystart=ny[0], nyend=ny[1], emstart=ny[0] + 1, gaspam_data=s.gas)
    conf[what + "_file"] = path
    got = ctx.mod("input_handler").InputHandler(conf).get_data(what)
    ctx.true("years of the run and no others", list(got.index) == list(s.years))
    for c in df.columns:
        for y in s.years:
            ctx.eq(f"{c} {y}", got.loc[y, c], df.loc[y, c])


def reader(ctx, first, last, **kw):
    """the reader by itself: all years, or those asked for; 1750 to 2100 where not told"""
    years = list(range(first, last + 1))
    df = pd.DataFrame(0.0, index=years, columns=["CO2_FF", "CFC-11", "SO2"], dtype=object if ctx.symbolic else float)
    for c in df.columns:
        for y in years:
            df.loc[y, c] = ctx.real(f"{c}_{y}", -10, 1000)
    path = os.path.join(ctx.scratch(), "table.txt")
    species_file(ctx, path, df, {"CO2": "Pg_C", "CFC-11": "Gg", "SO2": "Tg_S"}, "emissions", years, "given")
    got = ctx.mod("input_handler").read_inputfile(path, **kw)
    want = years
    if kw.get("cut_years"):
        want = [y for y in want if kw.get("year_start", 1750) <= y <= kw.get("year_end", 2100)]
    ctx.true("years", [int(y) for y in got.index] == want)
    for c, name in zip(df.columns, ("CO2", "CFC-11", "SO2")):
        for y in want:
            ctx.eq(f"{c} {y}", got.loc[y, name], df.loc[y, c])


def units(ctx, what="emissions"):
    """a table in other units is refused, whichever species it is about"""
    s = Scenario(ctx, ny=(1998, 2000))
    df = s.em if what == "emissions" else s.conc
    u = s.gas["EM_UNIT" if what == "emissions" else "CONC_UNIT"].to_dict()
    names = sorted({("CO2" if c.startswith("CO2_") else c) for c in df.columns})
    bad = ctx.choose("which", names + [None])
    missing = ctx.choose("missing", [None, "CFC-115"]) if what == "concentrations" else None
    table = dict(u)
    if bad is not None:
        table[bad] = "Other_unit"
    if missing:
        df = df.drop(columns=[missing])
    path = os.path.join(ctx.scratch(), "table.txt")
    species_file(ctx, path, df, table, what, range(1998, 2001), "given")
    conf = dict(nystart=1998, nyend=2000, gaspam_data=s.gas)
    conf[what + "_file"] = path
    ih = ctx.mod("input_handler")
    try:
        ih.InputHandler(conf)
        refused = False
    except ValueError:
        refused = True
    ctx.true(f"refused: {bad}", refused == (bad is not None and bad != missing))


def nothing(ctx, what="concentrations"):
    """files that are not there and data that is missing are reported"""
    s = Scenario(ctx, ny=(1998, 2000))
    ih = ctx.mod("input_handler")
    key = ctx.choose("file", ["concentrations", "emissions", "gaspam", "rf_sun", "rf_luc", "perturb_em", "perturb_forc", "rf_volc_n", "forc"])
    conf = dict(nystart=1998, nyend=2000)
    if key != "gaspam":
        conf["gaspam_data"] = s.gas
    conf[key + "_file"] = os.path.join(ctx.scratch(), "not there.txt")
    try:
        ih.InputHandler(conf)
        ctx.true(f"missing {key} reported", False)
    except FileNotFoundError:
        ctx.true(f"missing {key} reported", True)
    try:
        ih.InputHandler({"gaspam_data": s.gas}).get_data("emissions")
        ctx.true("missing data reported", False)
    except KeyError:
        ctx.true("missing data reported", True)


RF = ("rf_sun", "rf_luc", "rf_volc_n", "rf_volc_s")


def cases(tier):
    return [
        Case("forcing-files", same_run, dict(files=RF)),
        Case("forcing-files-monthly", same_run, dict(files=RF, ncol=12, conc_run=True)),
        Case("forcing-files-1750", same_run, dict(files=RF, ny=(1750, 1752), emstart=1790, conc_run=True)),
        Case("volcanic-common-file", same_run, dict(files=("rf_volc", "rf_sun"), volc="common")),
        Case("volcanic-common-data", same_run, dict(volc="common", conc_run=True)),
        Case("no-sun-no-volcanoes", same_run, dict(sunvolc=0, files=("rf_luc",), conc_run=True)),
        Case("natural-files", same_run, dict(files=("nat_ch4", "nat_n2o"))),
        Case("natural-standard-place", same_run, dict(files=("nat_ch4", "nat_n2o"), standard=True)),
        Case("natural-standard-place-ch4", same_run, dict(files=("nat_ch4",), standard=True)),
        Case("natural-flat", same_run, dict(flat=True)),
        Case("natural-flat-free", same_run, dict(flat="free", emstart=2001)),
        Case("natural-flat-rows", same_run, dict(flat="free", emstart=2001, rows="reversed")),
        Case("gas-file-rows", same_run, dict(files=("gaspam",), flat=True, rows="reversed")),
        Case("species-files-rows", same_run, dict(files=("emissions", "concentrations"), rows="reversed")),
        Case("gas-file", same_run, dict(files=("gaspam",))),
        Case("gas-file-flat", same_run, dict(files=("gaspam",), flat=True, conc_run=True)),
        Case("species-files", same_run, dict(files=("emissions", "concentrations"))),
        Case("species-files-reversed", same_run, dict(files=("emissions", "concentrations"), order="reversed", margin=(0, 3))),
        Case("species-files-conc", same_run, dict(files=("emissions", "concentrations"), conc_run=True, margin=(7, 0))),
        Case("perturbation-files", same_run, dict(files=("perturb_em", "perturb_forc"))),
        Case("all-files", same_run, dict(files=RF + ("nat_ch4", "nat_n2o", "gaspam", "emissions", "concentrations", "perturb_em", "perturb_forc"), thermal="default")),
        Case("wide-data", same_run, dict(wide_data=True)),
        Case("wide-data-conc", same_run, dict(wide_data=True, conc_run=True, margin=(0, 6))),
        Case("emissions-table", tables, dict(what="emissions")),
        Case("emissions-table-reversed", tables, dict(what="emissions", order="reversed", margin=(0, 0))),
        Case("concentrations-table", tables, dict(what="concentrations", order="reversed", margin=(10, 0))),
        Case("reader-all", reader, dict(first=1998, last=2002)),
        Case("reader-cut", reader, dict(first=1998, last=2003, cut_years=True, year_start=1999, year_end=2001)),
        Case("reader-cut-end", reader, dict(first=2097, last=2104, cut_years=True)),
        Case("reader-cut-start", reader, dict(first=1746, last=1753, cut_years=True)),
        Case("reader-cut-from", reader, dict(first=1746, last=1753, cut_years=True, year_start=1751)),
        Case("reader-cut-to", reader, dict(first=2098, last=2104, cut_years=True, year_end=2102)),
        Case("emission-units", units, dict(what="emissions")),
        Case("concentration-units", units, dict(what="concentrations")),
        Case("missing", nothing, {}),
    ]

"""C32: atom counts follow from the names of compounds, regional aerosols from the table they are given in"""
import pandas as pd

from engine.names import SymText, symint
from engine.runner import Case
from props.common import Scenario, put

BOUNDS = (
    "every compound number of the industry naming of (hydro)chlorofluorocarbons with one to ten carbon atoms, with or without double bond and isomer letter, every Halon number, and "
    "every count in the sum formulas written with Cl or Br; regional efficiencies, emissions and further parameters arbitrary for one to three aerosols and all regions, default and own mapping and "
    "conversion; runs of 3 years with the tables made"
)
OUTSIDE = "compounds with both bromine and chlorine written as sum formulas, names that follow no convention"
ASSUMPTIONS = []


def name(ctx, *parts):
    """a compound name from text and digits"""
    if not ctx.symbolic:
        return "".join(str(p) for p in parts)
    chars = []
    for p in parts:
        chars += list(p) if isinstance(p, str) else [p]
    return SymText(chars)


def pub(ctx):
    mod = ctx.mod("pub_utils")
    if ctx.symbolic:
        mod.__dict__["int"] = symint
    return mod


def cfc(ctx, prefix="HCFC-", double=False, suffix=""):
    """C(a+1) H(b-1) F(c): what is left of the valences is chlorine"""
    m = pub(ctx)
    a, b, c = ctx.int("carbon", 0, 9), ctx.int("hydrogen", 1, 9), ctx.int("fluorine", 0, 9)
    tracer = name(ctx, prefix, *((1,) if double else ()), a, b, c, suffix) if double else name(ctx, prefix, a, b, c, suffix)
    if ctx.symbolic and double:
        tracer = SymText([*prefix, "1", a, b, c, *suffix])
    left = 2 * (a + 1) + 2 - (2 if double else 0) - (b - 1) - c
    ctx.eq("chlorine atoms", m.find_num_cl_in_hcfc(tracer), left)
    chlor, brom = m.make_cl_and_br_dictionaries([tracer])
    ctx.same("only this compound", [len(chlor), len(brom)], [1, 0])
    ctx.eq("chlorine atoms in the table", chlor[tracer], left)


def short(ctx, prefix="CFC-", suffix=""):
    """one carbon atom: the number has two digits"""
    m = pub(ctx)
    b, c = ctx.int("hydrogen", 1, 5), ctx.int("fluorine", 0, 4)
    tracer = name(ctx, prefix, b, c, suffix)
    chlor, brom = m.make_cl_and_br_dictionaries([tracer])
    ctx.same("only this compound", [len(chlor), len(brom)], [1, 0])
    ctx.eq("chlorine atoms", chlor[tracer], 4 - (b - 1) - c)


def halon(ctx):
    """the digits of a Halon are the numbers of its carbon, fluorine, chlorine and bromine atoms"""
    m = pub(ctx)
    c, f, cl, br = ctx.int("carbon", 1, 9), ctx.int("fluorine", 0, 9), ctx.int("chlorine", 0, 9), ctx.int("bromine", 1, 9)
    tracer = name(ctx, "H-", c, f, cl, br)
    chlor, brom = m.make_cl_and_br_dictionaries(["SF6", tracer, "CO2"])
    ctx.same("only this compound has bromine", len(brom), 1)
    ctx.eq("bromine atoms", brom[tracer], br)
    ctx.eq("chlorine atoms", chlor[tracer] if tracer in chlor else 0, cl)
    ctx.true("no other compound has chlorine", len(chlor) <= 1)


def formula(ctx, before="C", element="Cl", after="", bound=4):
    m = pub(ctx)
    k = ctx.int("atoms", 2, bound)
    tracer = name(ctx, before, element, k, after)
    one = before + element + after
    got = dict(zip(("Cl", "Br"), m.make_cl_and_br_dictionaries([tracer, "HFC134a", "CF4", one])))
    other = got["Br" if element == "Cl" else "Cl"]
    ctx.same("compounds", [len(got[element]), len(other)], [2, 0])
    ctx.eq("atoms", got[element][tracer], k)
    ctx.eq("one atom where no number is written", got[element][one], 1)


REGIONS = {"ASIA": "EAS", "LAM": "SAM", "MAF": "NAF", "OECD": "NAM", "REF": "RBU"}


def regional(ctx, aerosols=("SO2", "BC"), mapping=None, conversion=None, gas="v1"):
    """an entry per aerosol and region, with the region's efficiency and everything else as the aerosol has it"""
    m = pub(ctx)
    s = Scenario(ctx, gas=gas)
    for g in aerosols:
        put(ctx, s.gas, g, "SARF_TO_ERF", ctx.real(f"erf_{g}", 0.5, 1.5))
        put(ctx, s.gas, g, "ALPHA", ctx.real(f"alpha_{g}", -0.1, 0.1))
    s.objectify()
    where = mapping or REGIONS
    forc = sorted(set(REGIONS.values()) | set(where.values()))
    table = pd.DataFrame({g: ctx.array([ctx.real(f"eff_{g}_{r}", -1e-10, 1e-10) for r in forc]) for g in aerosols}, index=forc)
    before = s.gas.copy()
    kw = {}
    if mapping:
        kw["reg_mapping"] = dict(mapping)
    if conversion is not None:
        kw["unit_conversion"] = conversion
    new = m.make_regional_aerosol_gaspamdata(s.gas, table, **kw)
    scale = 1e9 if conversion is None else conversion
    ctx.same("entries", sorted(new.index), sorted(list(before.index) + [f"{g}_{r}" for g in aerosols for r in where]))
    for g in before.index:
        for c in before.columns:
            same(ctx, f"{g} {c}", new.loc[g, c], before.loc[g, c])
            same(ctx, f"{g} {c} of the table given", s.gas.loc[g, c], before.loc[g, c])
    for g in aerosols:
        for r, f in where.items():
            for c in before.columns:
                if c == "ALPHA":
                    ctx.eq(f"{g}_{r} efficiency", new.loc[f"{g}_{r}", c], table.loc[f, g] * scale, rtol=1e-9, atol=1e-12)
                else:
                    same(ctx, f"{g}_{r} {c}", new.loc[f"{g}_{r}", c], before.loc[g, c])


def same(ctx, tag, x, y):
    if isinstance(y, str):
        ctx.same(tag, x, y)
    else:
        ctx.eq(tag, x, y)


def driven(ctx, aerosols=("SO2",), ny=(1998, 2000), thermal="twolayer"):
    """runs with such a table: regional emissions force with their region's efficiency and global ones not again"""
    m = pub(ctx)
    s = Scenario(ctx, ny=ny, emstart=1999)
    forc = sorted(REGIONS.values())
    table = pd.DataFrame({g: ctx.array([ctx.real(f"eff_{g}_{r}", 0.5e-11, 6e-11) * (1 if g == "BC" else -1) for r in forc]) for g in aerosols}, index=forc)
    s.objectify()
    s.gas = m.make_regional_aerosol_gaspamdata(s.gas, table)
    for g in aerosols:
        for k, r in enumerate(REGIONS):
            s.em[f"{g}_{r}"] = [3.0 + k + 0.1 * i for i in range(ny[1] - ny[0] + 1)]
            s.objectify()
            put(ctx, s.em, ny[1], f"{g}_{r}", ctx.real(f"em_{g}_{r}", 0.0, 40.0))
    s.extra.update(conc_run=True, thermal_model=thermal, sunvolc=0)
    em = s.em.copy()
    model = ctx.mod("ciceroscm").CICEROSCM(s.cfg())
    model._run({"results_as_dict": True}, pamset_emiconc={"ref_yr": ny[1] - 1, "idtm": 2})
    res = model.results["forcing"]
    for g in aerosols:
        for y in s.years:
            ctx.eq(f"{g} global {y}", res.loc[y, "SO4_DIR" if g == "SO2" else g], 0.0)
            for r, f in REGIONS.items():
                want = table.loc[f, g] * 1e9 * (em.loc[y, f"{g}_{r}"] - em.loc[ny[0], f"{g}_{r}"])
                ctx.eq(f"{g}_{r} {y}", res.loc[y, f"{g}_{r}"], want, rtol=1e-9, atol=1e-9)


def cases(tier):
    out = [
        Case("hcfc", cfc, dict()),
        Case("cfc", cfc, dict(prefix="CFC-")),
        Case("hcfc-isomer", cfc, dict(suffix="b")),
        Case("hcfc-double", cfc, dict(double=True)),
        Case("cfc-double-isomer", cfc, dict(prefix="CFC-", double=True, suffix="a")),
        Case("cfc-short", short, dict()),
        Case("hcfc-short-isomer", short, dict(prefix="HCFC-", suffix="a")),
        Case("halon", halon, dict()),
        Case("formula-cl", formula, dict()),
        Case("formula-ccl", formula, dict(before="CH3C")),
        Case("formula-cl-h", formula, dict(before="CH2", bound=9)),
        Case("formula-br", formula, dict(before="CH2", element="Br")),
        Case("formula-chbr", formula, dict(before="CH", element="Br", bound=9)),
        Case("regional", regional, dict()),
        Case("regional-one", regional, dict(aerosols=("OC",), gas="ar6")),
        # own names that are also names of other rows of the regional data
        Case("regional-crossed", regional, dict(aerosols=("SO2", "BC"), mapping={"NAM": "EAS", "EAS": "NAM", "SAM": "SAM", "ASIA": "RBU"})),
        Case("regional-mapping", regional, dict(aerosols=("SO2", "OC", "BC"), mapping={"NORTH": "NAM", "SOUTH": "SAM", "HERE": "EAS", "THERE": "EAS"}, conversion=2.5e8)),
        Case("regional-conversion", regional, dict(conversion=1.0, gas="wmo")),
        Case("driven", driven, dict()),
        Case("driven-two", driven, dict(aerosols=("BC", "OC"))),
        Case("driven-udm", driven, dict(aerosols=("SO2", "BC", "OC"), ny=(1998, 1999), thermal="default")),
    ]
    return out

"""C26: output variables asked for by name are the quantities of the run the names stand for, in the stated units"""
import numpy as np
import pandas as pd

from engine.runner import Case
from props.C23 import data
from props.common import Scenario, gaspam

BOUNDS = (
    "every variable name the reader lists, all numbers of the results of 3 to 5 years arbitrary; gas tables of the shipped kinds, with and without the added gases and regional aerosols; "
    "gas tables read from file and given as data"
)
OUTSIDE = "variables of forcing-driven runs and of species the run does not have; tropospheric ozone as a concentration; spelling of units for gas tables given as data"
ASSUMPTIONS = []
FGAS_PFC = ("C2F6", "C3F8", "C4F10", "C5F12", "C6F14", "C7F16", "C8F18", "cC4F8", "CF4")
AEROSOLS = ("SO4_DIR", "SO4_IND", "BC", "OC", "NOx", "NMVOC", "NH3", "BMB_AEROS")
NOT_GHG = AEROSOLS + ("LANDUSE", "OTHER", "Total_forcing", "Year")


def aerosol(c):
    return c in AEROSOLS or ("_" in c and c.split("_")[0] in ("SO2", "SO4", "BC", "OC", "BMB"))


def public(gas):
    """family and public name of a halogenated gas"""
    if gas.startswith("HFC"):
        return "F-Gases|HFC|" + gas
    if gas in FGAS_PFC:
        return "F-Gases|PFC|" + gas
    if gas in ("SF6", "NF3", "SO2F2"):
        return "F-Gases|" + gas
    if gas.startswith("CFC-"):
        return "Montreal Gases|CFC|CFC" + gas[4:]
    if gas.startswith("HCFC-"):
        return "Montreal Gases|HCFC" + gas[5:]
    if gas.startswith("H-"):
        return "Montreal Gases|Halon" + gas[2:]
    return "Montreal Gases|" + gas


DIRECT = {
    "Effective Radiative Forcing|Anthropogenic": "Total_forcing",
    "Effective Radiative Forcing|Anthropogenic|CO2": "CO2",
    "Effective Radiative Forcing|Anthropogenic|CH4": "CH4",
    "Effective Radiative Forcing|Anthropogenic|N2O": "N2O",
    "Effective Radiative Forcing|Anthropogenic|Aerosol|Aerosol-radiation Interactions|BC": "BC",
    "Effective Radiative Forcing|Anthropogenic|Aerosol|Aerosol-radiation Interactions|OC": "OC",
    "Effective Radiative Forcing|Anthropogenic|Aerosol|Aerosol-radiation Interactions|Sulfate": "SO4_DIR",
    "Effective Radiative Forcing|Aerosols|Direct Effect|SOx": "SO4_DIR",
    "Effective Radiative Forcing|Anthropogenic|Aerosol|Aerosol-cloud Interactions": "SO4_IND",
    "Effective Radiative Forcing|Anthropogenic|Other|Stratospheric H2O": "STRAT_H2O",
    "Effective Radiative Forcing|Anthropogenic|Ozone|Stratospheric Contribution": "STRAT_O3",
    "Effective Radiative Forcing|Anthropogenic|Ozone|Tropospheric Contribution": "TROP_O3",
}


def results(ctx, gas, ny, conc_run, regional=()):
    """a results dictionary with a number of its own everywhere"""
    years = list(range(ny[0], ny[1] + 1))
    halogens = [g for g in gas.index if gas.loc[g, "CONC_UNIT"] not in ("-",) and g not in ("CO2", "CH4", "N2O")]
    count = [0]

    def col(tag, lo, hi):
        count[0] += 1
        return ctx.array([ctx.real(f"{tag}_{y}", lo, hi) for y in years])

    def frame(kind, cols, lo, hi):
        df = pd.DataFrame({c: col(f"{kind}_{c}", lo, hi) for c in cols}, index=years)
        df.insert(0, "Year", years)
        return df

    forc = ["CO2", "CH4", "N2O", "SO4_DIR", "SO4_IND", "NOx", "NMVOC", "NH3", "BMB_AEROS", "LANDUSE", "BC", "OC", "OTHER", "TROP_O3", "STRAT_O3", "STRAT_H2O", "Total_forcing"]
    forc += list(regional) + halogens
    res = {
        "forcing": frame("forcing", forc, -5, 5),
        "concentrations": frame("conc", ["CO2", "CH4", "N2O"] + halogens, 0, 2000),
        "emissions": frame("em", ["CO2", "CH4", "N2O", "SO2", "BC"] + halogens, -10, 500),
    }
    carbon = {"Biosphere carbon flux": (-5, 5), "Ocean carbon flux": (-5, 5), "Airborne fraction CO2": (-1, 2)}
    if conc_run:
        carbon["Emissions"] = (-20, 20)
    res["carbon cycle"] = pd.DataFrame({c: col("cc_" + c.replace(" ", ""), *b) for c, b in carbon.items()}, index=years)
    for k in ("dT_glob", "dT_glob_air", "dT_glob_sea", "RIB_glob", "OHCTOT", "OHC700", "Volcanic_forcing_NH", "Volcanic_forcing_SH", "Solar_forcing"):
        res[k] = col(k, -5, 5)
    return years, halogens, res


def gas_table(ctx, gas, how):
    if how == "data":
        return gas
    import os

    path = os.path.join(ctx.scratch(), "gases.txt")
    with open(path, "w", encoding="ascii") as f:
        f.write("\t".join(["GAS"] + list(gas.columns)) + "\n")
        for g in gas.index:
            f.write("\t".join([g] + [str(v) for v in gas.loc[g]]) + "\n")
    return path


def unit_of(gas, g, how):
    """yearly emissions: mass and, for tables from files, the species"""
    u = gas.loc[g, "EM_UNIT"]
    if how == "data":
        return None
    if g == "N2O" and u == "Tg_N":
        return "TgN2ON / yr"
    if "_" in u:
        return u.replace("_", "") + " / yr"
    return u + g.replace("-", "") + " / yr"


def read(ctx, kind="v1", ny=(1998, 2000), conc_run=False, how="file", regional=(), only=None):
    gas = gaspam(kind)
    years, halogens, res = results(ctx, gas, ny, conc_run, regional)
    writer = ctx.mod("formattingtools.reformat_inputdata_to_cscm_format").COMMONSFILEWRITER(gas_table(ctx, gas, how), ny[0], ny[1])
    reader = ctx.mod("formattingtools.reformat_cscm_results").CSCMREADER(*ny)
    forc, conc, em, cc = res["forcing"], res["concentrations"], res["emissions"], res["carbon cycle"]

    def check(name, want, unit=None):
        if only and only not in name:
            return
        yrs, series, u = reader.get_variable_timeseries(res, name, writer)
        ctx.same(f"{name}: years", [int(y) for y in yrs], years)
        ctx.same(f"{name}: length", len(series), len(years))
        if unit is not None:
            ctx.same(f"{name}: unit", u, unit)
        for i, v in enumerate(list(series)):
            ctx.eq(f"{name} {years[i]}", v, want(i), rtol=1e-9, atol=1e-9)

    at = lambda df, c: (lambda i: df[c].iloc[i])  # noqa: E731

    def total(cols):
        def f(i):
            s = 0
            for c in cols:
                s = s + forc[c].iloc[i]
            return s

        return f

    for name, c in DIRECT.items():
        check(name, at(forc, c), "W/m^2")
    aer = [c for c in forc.columns if aerosol(c)]
    check("Effective Radiative Forcing|Anthropogenic|Aerosol", total(aer), "W/m^2")
    check("Effective Radiative Forcing|Anthropogenic|Aerosol|Aerosol-radiation Interactions", total([c for c in aer if c != "SO4_IND"]), "W/m^2")
    check("Effective Radiative Forcing|Anthropogenic|F-Gases", total([h for h in halogens if public(h).startswith("F-Gases")]), "W/m^2")
    check("Effective Radiative Forcing|Greenhouse Gases", total([c for c in forc.columns if c not in NOT_GHG and not aerosol(c)]), "W/m^2")
    natural = lambda i: (res["Volcanic_forcing_NH"][i] + res["Volcanic_forcing_SH"][i]) / 2 + res["Solar_forcing"][i]  # noqa: E731
    check("Effective Radiative Forcing", lambda i: forc["Total_forcing"].iloc[i] + natural(i), "W/m^2")
    for h in halogens:
        check("Effective Radiative Forcing|Anthropogenic|" + public(h), at(forc, h), "W/m^2")
        check("Atmospheric Concentrations|" + public(h), at(conc, h), "ppt")
    for g, u in (("CO2", "ppm"), ("CH4", "ppb"), ("N2O", "ppb")):
        check(f"Atmospheric Concentrations|{g}", at(conc, g), u)
        check(f"Emissions|{g}", at(cc, "Emissions") if g == "CO2" and conc_run else at(em, g), unit_of(gas, g, how))
        if how == "data":
            mass = {"CO2": ("PgC",), "CH4": ("Tg", "TgCH4"), "N2O": ("TgN2ON",)}[g]
            u = reader.get_variable_timeseries(res, f"Emissions|{g}", writer)[2]
            ctx.true(f"Emissions|{g}: mass unit", u.replace("_", "") in {f"{m} / yr" for m in mass})
    for name, k in (("Surface Air Temperature Change", "dT_glob_air"), ("Surface Air Ocean Blended Temperature Change", "dT_glob"), ("Surface Air Ocean Temperature Change", "dT_glob_sea")):
        check(name, lambda i, k=k: res[k][i], "K")
    check("Heat Uptake", lambda i: res["RIB_glob"][i] * 3.61e14 * 86400 * 365 / 1e21, "ZJ / yr")
    check("Heat Content|Ocean", lambda i: 10 * res["OHCTOT"][i], "ZJ")
    check("Heat Content|Ocean|0-700m", lambda i: 10 * res["OHC700"][i], "ZJ")

    def upto(c):
        def f(i):
            s = 0
            for j in range(i + 1):
                s = s + cc[c].iloc[j]
            return s

        return f

    check("Carbon Flux|Land", at(cc, "Biosphere carbon flux"), "Pg C / yr")
    check("Carbon Flux|Ocean", at(cc, "Ocean carbon flux"), "Pg C / yr")
    check("Carbon Pool|Land", upto("Biosphere carbon flux"), "Pg C")
    check("Carbon Pool|Ocean", upto("Ocean carbon flux"), "Pg C")
    check("Airborne fraction CO2", at(cc, "Airborne fraction CO2"), "Unitless")
    check("Net Flux to Atmosphere|CO2", lambda i: -cc["Biosphere carbon flux"].iloc[i] - cc["Ocean carbon flux"].iloc[i], "Pg C / yr")
    _, _, u = reader.get_variable_timeseries(res, "No such variable", writer)
    ctx.same("an unknown name has no unit", u, "NoUnit")
    _, _, u = reader.get_variable_timeseries(res, "Effective Radiative Forcing|Anthropogenic|No such gas", writer)
    ctx.same("an unknown forcing has no unit", u, "NoUnit")


def from_run(ctx, thermal="default", ny=(1998, 2000), regional=False):
    """names against what a run reports"""
    s = Scenario(ctx, ny=ny, emstart=ny[1] - 1)
    if regional:
        rf = pd.DataFrame({"SO2": [-4e-12, -3e-12], "BC": [9e-12, 8e-12]}, index=["EAS", "SAM"])
        s.gas = ctx.mod("pub_utils").make_regional_aerosol_gaspamdata(s.gas, rf, {"ASIA": "EAS", "LAM": "SAM"})
        for k, c in enumerate(("SO2_ASIA", "SO2_LAM", "BC_ASIA", "BC_LAM")):
            s.em[c] = [3.0 + k + (k + 1) * i for i in range(ny[1] - ny[0] + 1)]
    s.extra.update(data(ctx, s, 2, None))
    s.extra.update(sunvolc=1, conc_run=False, thermal_model=thermal, idtm=2)
    s.objectify()
    m = ctx.mod("ciceroscm").CICEROSCM(s.cfg())
    m._run({"results_as_dict": True, "carbon_cycle_outputs": True}, pamset_udm={"lm": 9, "ldtime": 2} if thermal == "default" else {}, pamset_emiconc={"ref_yr": ny[1] - 1, "idtm": 2, "qbmb": 0.02, "qnox": -0.01})
    res = m.results
    writer = ctx.mod("formattingtools.reformat_inputdata_to_cscm_format").COMMONSFILEWRITER(gaspam("v1"), ny[0], ny[1])
    reader = ctx.mod("formattingtools.reformat_cscm_results").CSCMREADER(*ny)
    get = lambda name: list(reader.get_variable_timeseries(res, name, writer)[1])  # noqa: E731
    parts = {c: list(res["forcing"][c]) for c in res["forcing"].columns if c != "Year"}
    erf = "Effective Radiative Forcing|Anthropogenic"
    whole, aer, ghg = get(erf), get(erf + "|Aerosol"), get("Effective Radiative Forcing|Greenhouse Gases")
    natural = get("Effective Radiative Forcing")
    for i, y in enumerate(range(ny[0], ny[1] + 1)):
        rest = parts["LANDUSE"][i] + parts["OTHER"][i]
        ctx.eq(f"aerosols, greenhouse gases, land use and other make the total {y}", aer[i] + ghg[i] + rest, whole[i], rtol=1e-9, atol=1e-9)
        ctx.eq(f"forcing with sun and volcanoes {y}", natural[i], whole[i] + (res["Volcanic_forcing_NH"][i] + res["Volcanic_forcing_SH"][i]) / 2 + res["Solar_forcing"][i], rtol=1e-9, atol=1e-9)


def anomalous(ctx, ny=(1998, 1999)):
    """a listed name can be asked for"""
    s = Scenario(ctx, ny=ny, emstart=ny[1])
    s.extra.update(data(ctx, s, 2, None))
    s.extra.update(sunvolc=1, conc_run=True, thermal_model="default", idtm=2)
    s.objectify()
    m = ctx.mod("ciceroscm").CICEROSCM(s.cfg())
    m._run({"results_as_dict": True, "carbon_cycle_outputs": True}, pamset_udm={"lm": 9, "ldtime": 2}, pamset_emiconc={"ref_yr": ny[1], "idtm": 2})
    try:
        ctx.mod("formattingtools.reformat_cscm_results").CSCMREADER(*ny).get_variable_timeseries(m.results, "Anomalous Radiation", None)
    except KeyError:
        ctx.true("Anomalous Radiation can be read", False)
        return
    ctx.true("Anomalous Radiation can be read", True)


def cases(tier):
    out = [
        Case("v1-file", read),
        Case("v1-data", read, dict(how="data", conc_run=True)),
        Case("wmo-file", read, dict(kind="wmo", ny=(1999, 2003), conc_run=True)),
        Case("ar6-file", read, dict(kind="ar6", ny=(2000, 2001))),
        Case("regional", read, dict(regional=("SO2_ASIA", "BC_OECD", "OC_REF", "SO2_LAM"), ny=(2001, 2002))),
        Case("run", from_run),
        Case("run-twolayer", from_run, dict(thermal="twolayer")),
        Case("run-regional", from_run, dict(thermal="twolayer", regional=True)),
        Case("anomalous-radiation", anomalous),
    ]
    return out

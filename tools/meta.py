#!/opt/venv/bin/python
"""
Metadata of every property; writes properties.jsonl and MANIFEST.json

Run after adding a property; both files are committed.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = "symbolic execution of the real Python code + SMT (z3/cvc5), counterexamples replayed on the real code"
CEH = "src/ciceroscm/concentrations_emissions_handler.py"
UDM = "src/ciceroscm/thermal_model/upwelling_diffusion_model.py"
TWO = "src/ciceroscm/thermal_model/two_layer_ocean.py"
ABS = "src/ciceroscm/thermal_model/abstract_thermal_model.py"
PERT = "src/ciceroscm/perturbations.py"
SCM = "src/ciceroscm/ciceroscm.py"
INP = "src/ciceroscm/input_handler.py"
BOX = "src/ciceroscm/carbon_cycle/carbon_cycle_mod_box.py"
CCM = "src/ciceroscm/carbon_cycle/carbon_cycle_mod.py"
CABS = "src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py"
CCOM = "src/ciceroscm/carbon_cycle/common_carbon_cycle_functions.py"
RF = "src/ciceroscm/carbon_cycle/rfuns.py"
PUB = "src/ciceroscm/pub_utils.py"
UTL = "src/ciceroscm/_utils.py"
PAR = "src/ciceroscm/parallel/_parallel_process.py"
WRAP = "src/ciceroscm/parallel/cscmparwrapper.py"
DIST = "src/ciceroscm/parallel/_configdistro.py"
DRUN = "src/ciceroscm/parallel/distributionrun.py"
REF = "src/ciceroscm/formattingtools/reformat_cscm_results.py"
RIN = "src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py"

PROPS = []
NOT_APPLICABLE = []


def prop(pid, title, statement, over, text, why, files, mech, observe=()):
    PROPS.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": list(over), "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": list(files),
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Upwelling-diffusion ocean conserves energy",
    "For the upwelling-diffusion thermal model without direct air exchange between the hemispheres and with ocean efficacy 1, the heat gained over a simulated year by "
    "all ocean layers of both hemispheres (thickness x ocean fraction x temperature change x heat capacity) equals the year's forcing, with last year's and this year's "
    "hemispheric forcing interpolated over the sub-steps plus the volcanic forcing of each sub-step, minus the feedback parameter times the reported air temperatures. "
    "This holds also when upwelling depends on temperature and for any physical parameters. With an efficacy other than 1 the only extra term is (efficacy - 1) times the "
    "diffusive flux out of the mixed layer.",
    ("inputs", "histories", "configurations"),
    "every ocean temperature state, every forcing of either sign per hemisphere, every parameter choice, every number of sub-steps and volcanic columns",
    "the tests compare a handful of concrete temperatures with stored numbers for default parameters; none states a heat budget, and a leak that depends on the state or a parameter is invisible to them",
    [UDM],
    [("tri-diagonal system for both hemispheres", UDM + ": setup and solution of the banded system"), ("yearly stepping", UDM + ": energy_budget")],
    ["temperature profiles, air temperatures returned per year"],
)
prop(
    "C02",
    "Two-layer ocean conserves energy and reports heat consistently",
    "In the two-layer ocean model, each year the mixed layer gains exactly the global mean forcing plus the mean volcanic forcing (counted once) minus feedback times its "
    "temperature minus efficacy x exchange x temperature difference to the deep layer, and the deep layer gains exactly exchange x temperature difference, both evaluated at "
    "the start of the year. The reported heat contents (mixed, deep, total, top 700 m), radiative imbalance (forcing minus feedback minus the efficacy term, from the new "
    "temperatures) and surface temperature (ocean fraction blend of the mixed layer and the land equilibrium) follow from these two layers.",
    ("inputs", "histories", "configurations"),
    "every forcing history, every two-layer state and every parameter choice",
    "the tests run a constant forcing with few parameter sets and look at signs and stored values; a term counted twice or a parameter mixed up for unequal hemispheres stays unseen",
    [TWO, ABS],
    [("explicit yearly step", TWO + ": energy_budget"), ("unit conversion of heat", TWO)],
    ["per-year outputs of the thermal model"],
)
prop(
    "C03",
    "Thermal response is linear, starts at rest, treats hemispheres alike",
    "Without temperature-dependent upwelling every reported temperature, heat content and imbalance of either thermal model responds linearly to the forcing history "
    "(superposition and scaling), and stays zero without forcing. With equal ocean fractions, swapping the forcing of the hemispheres swaps the hemispheric outputs and leaves "
    "the global ones unchanged, also with temperature-dependent upwelling.",
    ("inputs", "histories", "configurations"),
    "every pair of forcing histories, every scale factor, every swap of hemispheric forcing",
    "linearity and symmetry relate several runs; the tests compare single runs with stored numbers",
    [UDM, TWO],
    [("coefficients of the linear system", UDM), ("explicit yearly step", TWO)],
    ["per-year outputs of the thermal models"],
)
prop(
    "C04",
    "Upwelling-diffusion diagnostics agree with the ocean state",
    "For every simulated year of the upwelling-diffusion model, global temperatures (surface, air, sea) are the means of the hemispheric ones, each hemisphere's surface "
    "temperature is the ocean-fraction blend of its sea and air temperatures, and each hemisphere's imbalance is its forcing plus mean volcanic forcing minus feedback times its "
    "surface temperature minus (efficacy - 1) times the heat taken up below the mixed layer in that year. Total heat content is the sum over all layers of thickness times the "
    "ocean-fraction-weighted temperatures, and the 700 m heat content is the same sum cut at 700 m, for every mixed-layer depth.",
    ("inputs", "histories", "configurations"),
    "every state and forcing, every mixed-layer depth below 700 m, every ocean fraction, efficacy and step count",
    "tests check stored outputs of default runs; errors that appear only for other mixed-layer depths, unequal hemispheres or an efficacy other than 1 pass them",
    [UDM],
    [("heat content and imbalance diagnostics", UDM + ": ocean heat content, radiative imbalance, yearly averages")],
    ["per-year outputs"],
)
prop(
    "C05",
    "Aerosol pattern effect sets feedback to base plus sensitivity x weight",
    "When a year's aerosol weight is given to a thermal model, the feedback parameter in effect (W/m2/K) is the configured base plus the pattern sensitivity times this weight, "
    "whatever weights were given before, and the year's temperatures, imbalance and air-sea balance all use it. With sensitivity zero the weights change nothing.",
    ("inputs", "histories", "configurations"),
    "every sequence of weights, every sensitivity and base feedback, every forcing",
    "tests set one or two weights on a fresh model; drift over a sequence of weights or a stale derived coefficient needs histories",
    [UDM, TWO, ABS, SCM],
    [("feedback update", ABS + ": set_feedback_gregory"), ("recomputed coefficients", UDM)],
    ["feedback parameter, per-year outputs"],
)
prop(
    "C06",
    "Gases relax exponentially to the level their emissions sustain",
    "In an emission-driven year every gas with a single lifetime (N2O, halocarbons and the like) moves from its previous level towards (emissions + natural emissions of that "
    "year) x lifetime / conversion factor, keeping the fraction exp(-1/lifetime) of the distance. The emissions, natural emissions, lifetime and factor used are those of that "
    "very gas and year; N2O uses its yearly natural emissions, the other gases the tabulated constant.",
    ("inputs", "histories", "configurations"),
    "every emission history, every start level, every gas, lifetime and conversion factor",
    "tests check a few gases and years of one scenario against stored values",
    [CEH],
    [("vectorised pre-calculation", CEH + ": precalculation of concentrations"), ("yearly update", CEH + ": emi2conc")],
    ["concentrations in the results"],
)
prop(
    "C07",
    "Methane loss follows the configured lifetime mode",
    "In an emission-driven year methane relaxes exponentially towards (emissions + that year's natural emissions) / factor / loss rate, with a loss rate of the inverse main "
    "lifetime plus the two other inverse lifetimes. The inverse main lifetime is multiplied by 1 - 0.32 x (ln previous level - ln 1751) + 0.0042 dNOx - 0.000105 dCO - "
    "0.000315 dNMVOC (differences to year 2000) in the TAR mode, by (previous level / 1700)^-0.238 in the Wigley mode, and replaced by 1/12 in the constant mode.",
    ("inputs", "histories", "configurations"),
    "every methane level, every emission of methane and its precursors, every lifetime mode and parameter",
    "tests check each mode at one point; a changed precursor coefficient for falling emissions or a lifetime taken from the wrong mode passes",
    [CEH],
    [("methane lifetime", CEH + ": methane_lifetime"), ("yearly update", CEH + ": emi2conc")],
    ["methane concentrations"],
)
prop(
    "C08",
    "Prescribed concentrations apply exactly until emissions start",
    "In a concentration-driven run, and in all years before the emission start year of an emission-driven run, the reported concentration of every gas other than CO2 is the "
    "prescribed one of that year (CO2 too in concentration-driven runs). From the emission start year on (including when it is the first, last or a year before the run) the "
    "gas follows its emissions from the last prescribed level, whatever is prescribed later.",
    ("inputs", "histories", "configurations"),
    "every prescribed concentration table, every emission start year relative to the simulated period",
    "tests use one emission start year inside the run; the boundaries (first, last, before, after) were wrong and untested",
    [CEH],
    [("switch at the emission start", CEH + ": emi2conc and the pre-calculation of concentrations")],
    ["concentrations in the results"],
)
prop(
    "C09",
    "CO2, CH4 and N2O forcing follow the published formulas with overlap",
    "For every year the reported forcing of CO2, CH4 and N2O is the Etminan et al. (2016) expression of the three concentrations of that year and of the first year, including "
    "the overlap terms with the mean of both years' concentrations, times that gas's own conversion factor to effective forcing.",
    ("inputs", "configurations"),
    "every triple of concentration histories, rising or falling, every conversion factor",
    "tests evaluate a few concentration values; an overlap with the wrong gas, a sign for falling CO2 or a swapped factor passes",
    [CEH],
    [("forcing of the three main gases", CEH + ": calculate_forc_three_main")],
    ["forcing in the results"],
)
prop(
    "C10",
    "Halocarbon and stratospheric forcing follow the concentrations",
    "Every gas with linear forcing contributes its conversion factor x radiative efficiency x (concentration - first-year concentration). Stratospheric ozone forcing follows the "
    "halogen changes three years earlier (zero in the first three years): for every chlorinated gas (atom count x change)^1.7 with the sign of the change, bromine linearly, and "
    "stratospheric water vapour forcing is the configured fraction of the methane forcing, each times its own conversion factor.",
    ("inputs", "histories", "configurations"),
    "every concentration history of the halogenated gases, every sign of change, every factor",
    "tests check the sum for one scenario in which halogens rise; falling gases, other gas lists and the lag are not settled",
    [CEH, PUB],
    [("precalculated linear forcing and ozone", CEH + ": precalculation of forcing"), ("atom counts from names", PUB), ("water vapour", CEH + ": calculate_strat_quantities")],
    ["forcing in the results"],
)
prop(
    "C11",
    "Tropospheric ozone and aerosol forcing follow emissions since first year",
    "The tropospheric ozone level of a year is 30 + 6.7 x ln methane ratio to the reference year + 0.17 dNOx + 0.0014 dCO + 0.0042 dNMVOC (differences to the reference year), "
    "and its forcing is its conversion factor x the ozone parameter x (level - first-year level) / (30 - first-year level). Each aerosol's forcing is its own forcing factor "
    "(the tabulated efficiency where one is given) times the change of its source emissions since the first year, indirect sulphate with sulphur emissions and biomass burning "
    "with its organic carbon emissions. Where regional entries of SO2, BC or OC are given, they take the place of that aerosol's untabulated global direct factor, which is then zero.",
    ("inputs", "histories", "configurations"),
    "every emission and methane history, every forcing factor of either sign, every reference year in the run",
    "tests check single values with default factors",
    [CEH],
    [("ozone", CEH + ": tropospheric_ozone_forcing"), ("aerosols", CEH + ": calc_aerosol_forcing")],
    ["forcing and concentrations in the results"],
)
prop(
    "C12",
    "Total and hemispheric forcing are sums over the reported agents",
    "Each year's total forcing is the sum of all reported per-agent forcings, land use included, each counted exactly once. The hemispheric forcings handed to the thermal model "
    "are the same sums with the northern share 1.47 for aerosols (sulphate, indirect, BC, OC, biomass burning), 1.45 for tropospheric ozone, 1.42 for land use and 1 otherwise, "
    "the southern share being the complement to 2, plus solar forcing in both hemispheres. In a single-agent run only the chosen agent enters.",
    ("inputs", "histories", "configurations"),
    "every concentration, emission, land-use and solar history, every gas list including regional aerosols, every choice of the single agent",
    "tests compare a few totals with stored numbers and do not relate the total to the parts",
    [CEH, PERT],
    [("yearly forcing loop", CEH + ": conc2forc"), ("hemispheric split", PERT + ": calculate_hemispheric_forcing")],
    ["forcing results, hemispheric forcing returned per year"],
)
prop(
    "C13",
    "Aerosol weight is the aerosol share of summed forcing magnitudes",
    "The aerosol weight of a year is the sum of the absolute forcings of the aerosol agents (sulphate direct and indirect, BC, OC, biomass burning, NMVOC, NH3, NOx and regional "
    "aerosols), forcing perturbations included, divided by the sum of the absolute forcings of all agents; land use counts and solar forcing does not. "
    "It is zero when nothing forces and lies between zero and one.",
    ("inputs", "histories", "configurations"),
    "every forcing mix and sign, every perturbation of aerosols and other agents, every gas list",
    "tests check that the weight is between 0 and 1 in one scenario",
    [CEH],
    [("weight in the yearly forcing loop", CEH + ": conc2forc")],
    ["weight handed to the thermal model per year"],
)
prop(
    "C14",
    "Emission perturbations add once to the right gas and year",
    "A run with an emission perturbation table equals the run whose emissions already contain the listed amounts: every row is added (repeated rows add up, row order does not "
    "matter, CO2 rows go to fossil emissions), to its gas and year and nowhere else. Reported emissions, concentrations and forcings all follow the perturbed emissions.",
    ("inputs", "histories", "configurations"),
    "every perturbation table and size, every base emission, years before and after the emission start",
    "tests perturb one gas in one file and check that something changes",
    [PERT, CEH],
    [("adding the table", PERT + ": perturb_emissions"), ("pre-calculated gases see the change", CEH)],
    ["emissions, concentrations and forcing in the results"],
)
prop(
    "C15",
    "Forcing perturbations add once to the right agent and year",
    "Every row of a forcing perturbation table is added to the reported forcing of its agent in its year, to the total forcing and to both hemispheric forcings with that agent's "
    "hemispheric shares, for yearly-calculated and linear gases alike. Repeated rows add up, no other agent or year changes, and concentrations are untouched; in a single-agent "
    "run only rows of the chosen agent reach the totals.",
    ("inputs", "histories", "configurations"),
    "every perturbation table, size and sign, every kind of agent",
    "tests perturb a few agents once; repeated rows for linear gases were lost without notice",
    [PERT, CEH],
    [("yearly agents", PERT + ": add_forcing_pert"), ("linear gases", PERT + ": add_forcing_pert_for_vanilla")],
    ["forcing in the results, hemispheric forcing returned per year"],
)


# --- more properties are appended by the files below ------------------------
MORE = os.path.join(ROOT, "tools", "meta_more.py")
if os.path.exists(MORE):
    exec(compile(open(MORE).read(), MORE, "exec"))  # pylint: disable=exec-used


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    checks = []
    for p in PROPS:
        pid = p["id"]
        if pid in na:
            continue
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"{PY} check.py {pid} --tier quick",
                "thorough_cmd": f"{PY} check.py {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECH,
                "level": "other",
                "level_note": "Bounded solver-based check: the current source is executed on symbolic inputs, all feasible paths are enumerated by the solver and every assertion is put to "
                "z3/cvc5 over the whole stated input box (real arithmetic, tolerances stated per assertion). Bounds and what lies outside them are in the evidence file. Trusted: the "
                "engine's numpy/pandas semantics (every path is replayed with concrete values on the unmodified code), the SMT solvers, real-for-float arithmetic.",
            }
        )
    man = {
        "version": 1,
        "setup_cmd": f"{PY} tools/selftest.py",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo. All checks share check.py and engine/; see DESIGN.md. Known findings and fixed defects are in known_findings.json.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()

# pylint: disable=undefined-variable
PLT = "src/ciceroscm/make_plots.py"
prop(
    "C16",
    "Box carbon cycle conserves carbon and follows its exchange rules",
    "In the box carbon cycle the total carbon of atmosphere (2.123 PgC per ppm), vegetation, soil, mixed layer and deep ocean grows each year by exactly that year's emissions. "
    "Fluxes use start-of-year values: net primary production max(0, 60 + beta ln(C/278) - s T), litter a fraction of vegetation, respiration a rate times soil carbon, ocean uptake "
    "solubility (1 + coefficient T)(C - 278), ocean exchange a rate times (mixed - deep). A run starts at 278 ppm, 600 PgC vegetation, 3000 PgC soil and no ocean anomaly, a reset "
    "leaves no trace of an earlier run, reported production and ocean flux follow the same rules, and the whole model feeds it fossil plus land-use plus natural CO2 emissions of the "
    "year with last year's warming, from the first year.",
    ("inputs", "histories", "configurations"),
    "every emission and warming history, every parameter choice, every emission start year",
    "the tests compare a few concentrations with stored values; a leak between pools or a flux taken at the wrong time shows only as a slightly different number",
    [BOX, CEH],
    [("yearly pool update", BOX + ": co2em2conc"), ("feeding", CEH + ": emi2conc / co2em2conc call")],
    ["concentrations per year, reported carbon columns"],
)
prop(
    "C17",
    "Default carbon cycle integrates emissions, land uptake and air-sea exchange",
    "In the default carbon cycle each sub-step takes emissions minus net land uptake (growth production x beta_f x ln(C/preindustrial), part of which returns with the decay function "
    "of all earlier growth), solves the trapezoidal air-sea balance with exchange rate 1/9.06 per year, convolves all earlier air-sea fluxes with the ocean pulse response into mixed "
    "layer carbon scaled by the mixed layer depth, converts that to ocean partial pressure (polynomial up to 293.5 umol/kg, logarithmic continuation above, times the solubility "
    "factor) and sets the concentration to flux + mean of old and new ocean pressure + preindustrial. Reported land and ocean fluxes are the yearly means of the same quantities. The "
    "first step has no land uptake, a reset leaves no trace, omitted feedback means no warming, and parameters apply from the first year.",
    ("inputs", "histories", "configurations"),
    "every emission and warming history, land, ocean and preindustrial parameters, default or custom response functions, any number of sub-steps",
    "tests pin a few trajectories with default parameters to three digits; an index shift in a convolution, a stale feedback or a term of the wrong step passes them",
    [CCM],
    [("sub-step loop", CCM + ": co2em2conc"), ("ocean pressure", CCM + ": _calculate_partial_pressure_mixed_layer"), ("fluxes", CCM + ": get_biosphere_carbon_flux, get_ocean_carbon_flux")],
    ["concentration returned per year, yearly carbon fluxes"],
)
prop(
    "C18",
    "Warming feedbacks of the carbon cycle are neutral without warming and bounded",
    "In the default carbon cycle land productivity is 60 PgC/yr times the product of a rising and a falling logistic function of warming, normalised to exactly 60 without warming; the "
    "carbon mixed layer depth is the configured depth scaled by (1 - f s(T))/(1 - f s(0)) with logistic s, equal to the configured depth without warming and never below the configured "
    "minimum; the ocean pressure factor is exp(-sensitivity x T), 1 without warming, positive and never above 1 + limit. The reported depth, solubility and production columns are these "
    "functions of each year's warming.",
    ("inputs", "configurations"),
    "every warming of either sign, every centre, width, fraction, depth, minimum, sensitivity and limit",
    "tests evaluate these functions at a few warmings with default parameters; normalisation and bounds must hold for all of them",
    [CCM],
    [("land", CCM + ": fnpp_from_temp"), ("ocean", CCM + ": mixed_layer_temp_feedback, solubility_temp_feedback"), ("report", CCM + ": get_carbon_cycle_output")],
    ["values of the feedback functions, reported columns"],
)
prop(
    "C19",
    "Carbon response functions are normalised and given in either form alike",
    "Custom ocean pulse responses are 1 at time zero and custom land decay functions 0 at time zero, whatever the (positive, unnormalised) coefficients; both are the stated sums of "
    "exponentials of time in years with normalised coefficients and depend on step and steps-per-year only through time. The default functions are the published sums of exponentials, "
    "with the switch of the ocean one at two years. Giving the functions as dictionaries or as flat names rs_coef0, rs_tim0, rb_coef0, ... in any order, at construction or reset, gives "
    "the same trajectory without changing the given parameters; functions survive a reset that only changes numbers; counts that do not fit and negative coefficients or timescales are refused with ValueError.",
    ("inputs", "configurations"),
    "every coefficient and timescale, any number of pools, any order of names, every time step and resolution",
    "tests try a few coefficient sets; normalisation, order independence and equivalence of the two forms are statements about all of them",
    [RF, CCM, PUB],
    [("functions", RF + ": rs_function, rs_function2, rb_function, rb_function2"), ("flat names", RF + ": _process_flat_carbon_parameters"), ("use", CCM + ": precalc_r_functions, reset_co2_hold")],
    ["function values, concentrations, land flux, raised errors"],
)
prop(
    "C20",
    "Back-calculated emissions reproduce the prescribed concentrations",
    "For a concentration series the carbon cycle back-calculates emissions which, run forward from the initial state with the same warming, give back every year's concentration to the "
    "stated relative tolerance (1e-7), also when the emissions lie outside the first estimate of their span. Each trial of a year starts from the same state, the state afterwards is the "
    "one the returned emissions lead to, the result does not depend on what the instance was used for before, and the search ends after the allowed number of steps. The reported "
    "emissions, ocean flux and airborne fraction belong to each other: airborne fraction times cumulative emissions is the atmospheric growth since preindustrial.",
    ("inputs", "histories", "configurations"),
    "every concentration and warming series, every state the instance is in, every carbon cycle with increasing response",
    "tests back-calculate a few series on fresh instances; a state left over between trials, years or uses shifts results by a fraction of a percent",
    [CABS, CCM, CCOM],
    [("bisection", CABS + ": _guess_emissions_iteration"), ("series", CABS + ": back_calculate_emissions"), ("report", CCM + ": get_carbon_cycle_output"), ("airborne fraction", CCOM + ": calculate_airborne_fraction")],
    ["back-calculated emissions, reported carbon columns"],
)
prop(
    "C21",
    "A run depends on its inputs and parameters, not on earlier runs",
    "Running a model again with other parameters, or running another model made from the same input tables, gives exactly what a fresh model gives: temperatures, forcings, "
    "concentrations and carbon outputs do not depend on what ran before, nor on parameters of the earlier run that the later one sets or leaves at their defaults. The tables, data frames "
    "and parameter values a user passes in hold the same values afterwards, also when emissions or forcings are perturbed.",
    ("histories", "inputs", "configurations"),
    "every earlier run (any parameters, either carbon cycle, either thermal model), every later run, on the same instance or on shared inputs",
    "tests run fresh instances one after another with fixed numbers; leftovers of a run shift the next one without any error",
    [SCM, CEH, CCM, BOX, PERT],
    [("rerun", SCM + ": _run"), ("reset", CEH + ": reset_with_new_pams"), ("carbon state", CCM + ": reset_co2_hold"), ("carbon state, box", BOX + ": reset_co2_hold"), ("perturbations", PERT + ": perturb_emissions")],
    ["results dictionary after a rerun", "input frames after a run"],
)
prop(
    "C23",
    "A run couples its parts year by year and reports each year in its own place",
    "In every simulated year the concentrations are computed with the temperature change of the year before (none in the first), the forcing with that year's land use and solar forcing, "
    "the climate feedback with that year's aerosol weight, and the temperatures with that year's northern and southern forcing and that hemisphere's volcanic forcing of that year. All "
    "reported series (temperatures, imbalance, heat content, total, solar and hemispheric mean volcanic forcing, emissions, concentrations, forcings) hold the values of their year.",
    ("inputs", "histories", "configurations"),
    "every forcing, emission and concentration history, both thermal models with both carbon cycles",
    "integration tests compare stored outputs of a few scenarios with loose tolerances and symmetric volcanic data; a series shifted, swapped or taken from another year can hide there",
    [SCM, CEH, TWO, UDM],
    [("loop", SCM + ": _run"), ("report", SCM + ": add_year_data_to_output"), ("feedback", CEH + ": emi2conc")],
    ["results dictionary of a run"],
)
prop(
    "C22",
    "Inputs mean the same as files or data and stay in their year and species",
    "A run from input files (emissions, concentrations, gas parameters, natural emissions, solar, land use and volcanic forcing for each or both hemispheres, perturbations) gives the results "
    "of a run that is given the same numbers as data. Every number of a file counts for its own year and species whatever the order of the species columns and however many more years than "
    "the run the file or table covers; the units given are those read. Natural emissions without series are the constants of the gas table; without solar and volcanic input the forcings are "
    "zero. Inputs the run cannot do without and that are missing are refused with an error naming them.",
    ("inputs", "configurations"),
    "every number in every file, every file span that contains the run, every species order, every combination of files and data",
    "tests read the shipped files, which all start in 1750 and are in table order; an offset of a row or a swapped column elsewhere shifts results without error",
    [INP, SCM, CEH],
    [("choice of input", INP + ": InputHandler.get_data"), ("readers", INP + ": read_inputfile, read_data_on_year_row, read_components, read_natural_emissions"), ("use", SCM + ": __init__")],
    ["results of runs", "tables read", "raised errors"],
)
prop(
    "C24",
    "Forcing-driven runs use the forcing of their year and report it",
    "With a forcing file, frame or array instead of emissions, the temperatures of every year follow from that year's hemispheric forcing with solar forcing added once, the volcanic forcing "
    "of that year and, if given, the aerosol weight of that year; the same forcing then drives both hemispheres unless hemispheric columns are given. The total is the total column, the mean "
    "of the hemispheres or the sum of the components, each year in its place whatever the order of rows or the span of the file. Components count as aerosols by their name with or "
    "without region, and the aerosol weight is their share of the absolute forcing.",
    ("inputs", "configurations"),
    "every forcing history in every supported layout, both thermal models",
    "tests run one forcing file with a single column; the other layouts are accepted without any check of what is made of them",
    [SCM, INP],
    [("reader", INP + ": read_forc"), ("use", SCM + ": forc_set, _run")],
    ["results dictionary of a forcing-driven run"],
)
prop(
    "C25",
    "Parallel runs: every scenario with every configuration once, rightly labelled",
    "A parallel run over scenarios and configurations returns one result for every scenario with every configuration and every output variable asked for, no more, labelled with the "
    "scenario name and the index of the configuration it was made with, and with the numbers a single run of that scenario with that configuration gives, whatever the number of workers, "
    "the way the work is divided, and the order the jobs finish in. Lists of processes return their results in the order of their inputs; a failing job does not displace or hide the others.",
    ("schedules", "inputs", "configurations"),
    "every number of configurations (division of work), every order in which jobs finish, every serial or parallel split, every model input",
    "tests run two or four configurations with one schedule of the operating system; chunk ends, orders of finishing and mixtures of parameter sets are not varied",
    [WRAP, PAR, DRUN],
    [("division of work", WRAP + ": run_ciceroscm_parallel"), ("job", WRAP + ": CSCMParWrapper.run_over_cfgs"), ("process lists", PAR + ": _parallel_process"), ("distribution runs", DRUN + ": run_over_distribution")],
    ["frame of results", "list of results", "raised errors"],
)
prop(
    "C26",
    "Output variables read by name are what the name says, in the stated unit",
    "Every variable the results reader lists can be read from a run, and the series is the quantity its name stands for: temperatures, heat content, concentrations and emissions of the "
    "species of that name in the unit stated, single forcings of that agent, totals (greenhouse gases, halogenated gases by family, aerosols, anthropogenic, all) the sum of exactly their "
    "members. Years are those of the run and no number is moved to another year.",
    ("inputs", "configurations"),
    "every value in the results of a run, every variable the reader lists, gas tables with and without added species",
    "tests read a few variables and compare lengths or single numbers; a member left out of a total or a wrong unit factor is not seen",
    [REF, PUB],
    [("reader", REF + ": CSCMREADER.get_variable_timeseries"), ("totals", REF + ": get_data_from_forc_common, CSCMREADER.get_data_from_forc"), ("quantities", REF + ": get_data_from_conc, get_data_from_em")],
    ["series, unit and years returned"],
)
prop(
    "C27",
    "Parameter samples: in their intervals, under their own name, none lost",
    "Configurations drawn from a parameter distribution are as many as asked, each with an index of its own, whatever the chunk size; every sampled parameter has exactly one value, inside "
    "its interval and following from its draw, in the parameter set the model reads it from, and never shared or swapped with another parameter; set values are taken as given. Configurations "
    "written to file, read, and written again are the same, with the information stored about them; a file of something else is refused.",
    ("inputs", "configurations"),
    "every draw of the random generators, every interval, every kind of parameter, every chunk size",
    "tests look at the number of configurations and at the names present; which value ends under which name is random there",
    [DIST, DRUN],
    [("samples", DIST + ": get_samples_from_distro_latin, get_samples_from_distro_gaussian"), ("placement", DIST + ": make_config_lists"), ("files", DRUN + ": DistributionRun")],
    ["lists of configurations", "JSON files"],
)
prop(
    "C28",
    "Parameters: defaults where unset, values as given where set",
    "A parameter left out of a parameter set has the documented default, whatever else is set; a parameter given counts with exactly the value given, whatever numeric type carries it (a "
    "Python or numpy float or integer), and changes nothing else; names that are no parameters change nothing, and names of thermal models or carbon cycles that do not exist are refused. The parameters given with one run decide that run, and settings made when the "
    "model was put together (files, years, modes of lifetimes) hold for all its runs.",
    ("inputs", "configurations"),
    "every value of every parameter of both thermal models, both carbon cycles and the emissions and concentrations, given alone, left out alone, all, none",
    "tests compare the default set with stored numbers; a default that depends on another parameter, or a value dropped because of its type, is not seen",
    [UTL, CEH, ABS, CCOM],
    [("defaults", UTL + ": cut_and_check_pamset"), ("thermal", ABS + ": AbstractThermalModel"), ("emissions and concentrations", CEH + ": check_pamset"), ("carbon", CCOM)],
    ["results of runs with and without the parameter"],
)
prop(
    "C29",
    "Output files hold the results of the run, under name and year",
    "The files a run writes hold the numbers of its results: emissions, concentrations, forcing, temperatures, heat content, radiative imbalance, solar and volcanic forcing and carbon cycle, "
    "one row per simulated year with that year, one column per quantity under its name, no number dropped, shifted or under another name; a prefix changes the names of the files only, and "
    "what is not asked for (carbon cycle output) is not written.",
    ("inputs", "configurations"),
    "every run configuration, every row and column of every output file",
    "tests check that files exist, and compare a few columns of one run",
    [SCM, CEH],
    [("thermal and forcing files", SCM + ": write_data_to_file"), ("emissions, concentrations, forcing", CEH + ": write_output_to_files"), ("carbon cycle", CEH + ": add_results_to_dict, write_output_to_files")],
    ["files in the output folder", "results dictionary"],
)

prop(
    "C30",
    "Later years and the end of the run change nothing earlier",
    "Every result of a simulated year (temperatures, heat content, imbalance, forcings, concentrations, emissions, carbon fluxes, back-calculated emissions) is the same whether the run "
    "ends with that year or goes on, and whatever emissions, concentrations, natural emissions, solar, volcanic, land-use or other forcings and perturbations come afterwards, provided the reference year of "
    "ozone is the same and lies in both runs.",
    ("histories", "inputs"),
    "all continuations of a run: any values in any later years, any end year",
    "tests run one fixed period each and never compare runs of different length",
    [SCM, CEH, CABS],
    [("year loop", SCM + ": _run"), ("yearly emissions, concentrations and forcing", CEH + ": emi2conc, conc2forc"), ("linear gases of all years at once", CEH + ": _precalculate_concentrations_vanilla_gases, _precalculate_erf_vanilla_gases"), ("back-calculation", CABS + ": back_calculate_emissions")],
    ["results dictionary"],
)

prop(
    "C31",
    "Gases keep to themselves, and their order in the tables is irrelevant",
    "The order in which gases stand in the gas table (CO2 first) and in the emissions and concentrations changes no result. Leaving one linear gas or aerosol out of the tables "
    "leaves concentrations, emissions and forcing of every other species and agent as they are, for given temperatures; total and hemispheric forcing change by its own forcing only. Halogenated gases may "
    "also act through stratospheric ozone.",
    ("inputs", "configurations"),
    "every order of gases, every gas left out, any levels and emissions",
    "tests use the shipped tables in their order",
    [CEH, INP],
    [("gases with linear forcing", CEH + ": precalculate_concentrations_and_forcing"), ("yearly forcing", CEH + ": conc2forc")],
    ["results dictionary", "forcing handed to the thermal model"],
)

prop(
    "C32",
    "Atom counts follow from names, regional aerosols from their table",
    "The chlorine atoms of a CFC or HCFC are the valences of its carbon chain left over by hydrogen and fluorine as its number gives them, one pair fewer for a double bond; the last two digits of a Halon "
    "are its chlorine and bromine atoms; sum formulas with Cl or Br count the number written, or one. A gas table with regional aerosols has one entry for each aerosol and region, with the mapped region's efficiency "
    "times the unit conversion and all else as the aerosol has it; the given table is unchanged. In a run, each entry forces by its own efficiency and emissions, and "
    "the global direct forcing of that aerosol is zero.",
    ("inputs",),
    "all compound numbers and counts of the naming conventions; any efficiencies, mappings and regional emissions",
    "tests look at a few compounds and one table",
    [PUB, CEH],
    [("atom counts", PUB + ": find_num_cl_in_hcfc, make_cl_and_br_dictionaries"), ("regional table", PUB + ": make_regional_aerosol_gaspamdata"), ("double counting", CEH + ": avoid_regional_double_counting")],
    ["dictionaries of atoms, gas table, regional forcing columns"],
)

prop(
    "C33",
    "Plots show the results of the run, each series under its own name",
    "A run with plots draws its results: heat content, radiative imbalance, temperatures, emissions, concentrations and forcing, every series the run reports exactly over the simulated years, "
    "with its own numbers, under its own name and unit, and every species of a table in exactly one panel of one saved picture however many species there are (species without unit and "
    "emission-only components have none). Both thermal models can be plotted, pictures go to the plots folder of the output, and plotting changes no result.",
    ("inputs", "configurations"),
    "every run configuration, every picture, panel and line; tables of any number of species up to three pages",
    "tests check that the picture files exist",
    [PLT, SCM, CEH],
    [("thermal results", PLT + ": plot_output1"), ("species", PLT + ": plot_output2"), ("tables handed over", CEH + ": add_results_to_dict, write_output_to_files")],
    ["axes, lines, titles and saved figures as given to matplotlib"],
)

prop(
    "C34",
    "Heat moves through the ocean with the configured exchange and mixing",
    "In each step of the upwelling-diffusion ocean every layer of each hemisphere gains the heat its surroundings give it: the mixed layer from the air of its hemisphere through rlamdo, neighbouring layers by "
    "diffusion with akapa (ocean efficacy times that for the mixed layer), upwelling W lifting water and returning it at the bottom at cpi times the mixed layer's temperature, weakened by 30 % per threstemp of warming "
    "within the year (not if 0), layers of the other hemisphere through beto. The air balances forcing, ocean, space and the other hemisphere's air (ebbeta).",
    ("inputs", "histories", "configurations"),
    "every state, forcing, volcanic column and parameter value in the stated ranges",
    "tests compare a few runs with stored numbers; conservation alone does not fix how fast heat moves or where",
    ["src/ciceroscm/thermal_model/upwelling_diffusion_model.py"],
    [("coefficients", "src/ciceroscm/thermal_model/upwelling_diffusion_model.py: coeff, setup_ebud, setup_ebud2"), ("steps", "src/ciceroscm/thermal_model/upwelling_diffusion_model.py: energy_budget")],
    ["layer temperatures at the end of the year, sea and air temperatures"],
)

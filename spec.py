#!/usr/bin/env python
"""Writes properties.jsonl and MANIFEST.json from one description."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
S = "src/pygmm/"

REF = (
    "explicit-state enumeration of scenarios with conformance of the implementation to an "
    "independent reference model in every state"
)
WHY_MODEL = (
    "The tests compare with tabulated values of a handful of scenarios (and compare many of them "
    "only for the median). A branch, limit or coefficient that no tabulated scenario touches can be "
    "wrong for the rest of the range without any test failing."
)
NOTE_MODEL = (
    "Every scenario within the stated deviations from the initial scenarios is evaluated with the "
    "public API, and compared with a reference model written from the publication with its own copy "
    "of the coefficients. Orthogonal arrays cover every combination of 101 levels of any two, 29 of any "
    "three and 11 of any four values (thorough: 211, 53, 17). Trusted: the reference model, numpy, and that values between two members of "
    "an alphabet behave like their neighbours (alphabets hold both sides of every published limit)."
)

PROPS = []


def model(pid, title, statement, files, text, mech):
    PROPS.append(
        dict(
            id=pid, title=title, statement=statement, over=["inputs", "configurations"],
            text=text, why=WHY_MODEL, files=[S + f for f in files], mech=mech,
            technique=REF, note=NOTE_MODEL,
        )
    )  # fmt: skip


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(
        dict(
            id=pid, title=title, statement=statement, over=over, text=text, why=why,
            files=[S + f for f in files], mech=mech, technique=technique, note=note,
        )
    )  # fmt: skip


RANGE = "All scenarios within the published range of applicability, with every combination of given and omitted optional values."

model("M01", "ASK14 predicts the published ground motions",
      "For every scenario, the Abrahamson, Silva & Kamai (2014) model returns the published median PSA, PGA and PGV and the published total standard deviation. This includes the hanging-wall, depth, aftershock, soil-depth and regional terms, nonlinear site response, and the published estimates of omitted depths and widths.",
      ["abrahamson_silva_kamai_2014.py", "data/abrahamson_silva_kamai_2014.csv"], RANGE,
      [("terms of the median", "_calc_ln_resp, _calc_f1, _calc_f4, calc_site_term"), ("standard deviation", "_calc_ln_std"), ("defaults", "_check_inputs")])
model("M02", "BSSA14 predicts the published ground motions",
      "For every scenario, the Boore, Stewart, Seyhan & Atkinson (2014) model returns the published median PSA, PGA and PGV and the published total standard deviation. This includes the magnitude, distance, regional attenuation, nonlinear site and regional basin terms, and the dependence of the deviation on magnitude, distance and site stiffness.",
      ["boore_stewart_seyhan_atkinson_2014.py", "data/boore_stewart_seyhan_atkinson-2014.csv"], RANGE,
      [("median", "_calc_ln_resp, calc_site_term"), ("standard deviation", "_calc_ln_std"), ("defaults", "_check_inputs")])
model("M03", "CB14 predicts the published ground motions",
      "For every scenario, the Campbell & Bozorgnia (2014) model returns the published median PSA, PGA and PGV and the published total standard deviation. This includes the hanging-wall, hypocentral depth, dip, regional attenuation, site and basin terms, and the published estimates of omitted rupture geometry and basin depth.",
      ["campbell_bozorgnia_2014.py", "data/campbell_bozorgnia_2014.csv"], RANGE,
      [("median", "_calc_ln_resp, calc_site_term"), ("standard deviation", "_calc_ln_std"), ("defaults", "_check_inputs, calc_depth_2_5, calc_width, calc_depth_bor, calc_depth_hyp")])
model("M04", "CY14 predicts the published ground motions",
      "For every scenario, the Chiou & Youngs (2014) model returns the published median PSA, PGA and PGV and the published total standard deviation. This includes the hanging-wall, directivity, style-of-faulting, rupture depth, regional attenuation, nonlinear site and basin terms.",
      ["chiou_youngs_2014.py", "data/chiou_youngs_2014.csv"], RANGE,
      [("median", "_calc_ln_resp_ref, _calc_ln_resp_site, calc_site_term"), ("standard deviation", "_calc_ln_std"), ("defaults", "_check_inputs, calc_depth_1_0, calc_depth_tor")])
model("M05", "I14 predicts the published ground motions",
      "For every scenario, the Idriss (2014) model returns the published median PSA and PGA and standard deviation, with the coefficients for the magnitude range of the event, the style of faulting, and the site velocity limited to its published range.",
      ["idriss_2014.py", "data/idriss_2014-small.csv", "data/idriss_2014-large.csv"], RANGE,
      [("median", "_calc_ln_resp"), ("standard deviation", "_calc_ln_std")])
model("M06", "Eastern North America models predict the published ground motions",
      "For every magnitude and distance, the Campbell (2003), Tavakoli & Pezeshk (2005) and Pezeshk et al. (2011) models return the published median spectra in g and the standard deviation in natural logarithm units. This includes the attenuation in the three distance ranges and the dependence of the deviation on magnitude.",
      ["campbell_2003.py", "tavakoli_pezeshk_2005.py", "pezeshk_zandieh_tavakoli_2011.py"], "All magnitudes and distances within the range of applicability.",
      [("median", "_calc_ln_resp"), ("standard deviation", "_calc_ln_std")])
model("M07", "AB06 predicts the published ground motions",
      "For every scenario, the Atkinson & Boore (2006) model returns the published median PSA and PGA in g, PGV in cm/sec and PGD in cm, and the standard deviation in natural logarithm units. This includes the nonlinear site response and the adjustment for the stress drop.",
      ["atkinson_boore_2006.py"], RANGE,
      [("median", "_calc_ln_resp"), ("stress", "_calc_stress_factor"), ("site", "_calc_log10_site")])
model("M08", "ASB14 predicts the published ground motions",
      "For every scenario, the Akkar, Sandikkaya & Bommer (2014) model returns the published median PSA, PGA and PGV and standard deviation for the distance metric that is provided, including style of faulting and nonlinear site response. With several distances, the preferred metric is used.",
      ["akkar_sandikkaya_bommer_2014.py"], RANGE, [("median and deviation", "AkkarSandikkayaBommer2014.__init__")])
model("M09", "DBC14 predicts the published ground motions",
      "For every scenario, the Derras, Bard & Cotton (2014) neural network returns the median PSA, PGA and PGV and standard deviation of the published weights, for all mechanisms, depths, distances, magnitudes and site velocities.",
      ["derras_bard_cotton_2014.py", "data/derras_bard_cotton_2014.json"], RANGE, [("network", "DerrasBardCotton2014.__init__")])
model("M10", "Subduction models predict the published ground motions",
      "For every interface and intraslab scenario, the Abrahamson, Gregor & Addo (2016) and the PNNL model of Coppersmith & Bommer (2014) return the published median PSA and PGA and standard deviation. This includes the magnitude, depth, forearc/backarc and nonlinear site terms, and the optional adjustments of the source and the attenuation.",
      ["abrahamson_gregor_addo_2016.py", "coppersmith_bommer_2014.py"], RANGE,
      [("median", "_calc_ln_resp and the terms"), ("standard deviation", "_calc_ln_std")])
model("M11", "HKR14 returns the tabulated prediction of the nearest event",
      "For every scenario, the Hermkes, Kuehn & Riggelsen (2014) model returns the median and standard deviation that are tabulated for the nearest event of its data, with the mechanism and an omitted depth as documented. PGA and PGV are the tabulated ones.",
      ["hermkes_kuehn_riggelsen_2014.py"], RANGE + " The published table is not in the repository: a synthetic table is used.",
      [("interpolation", "HermkesKuehnRiggelsen2014.__init__")])
model("M12", "GA11 predicts the published V/H ratios",
      "For every scenario, the Gulerce & Abrahamson (2011) model returns the published median vertical-to-horizontal ratio and its standard deviation, at the model periods and interpolated to any other period.",
      ["gulerce_abrahamson_2011.py"], RANGE, [("ratio", "_calc_ln_ratio"), ("standard deviation", "_calc_ln_std"), ("interpolation", "interp_ratio, interp_ln_std")])
model("M13", "AS96 and KS06 predict the published durations",
      "For every scenario, the Abrahamson & Silva (1996) and the Kempton & Stewart (2006) models return the published median durations and standard errors. Durations of other normalized Arias intensities follow the published increments, and are undefined outside of 10% to 95%.",
      ["abrahamson_silva_1996.py", "kempton_stewart_2006.py"], RANGE, [("durations", "the constructors"), ("increments", "calc_ln_dur_incr, interp")])
model("M14", "AS16 predicts the published durations",
      "For every scenario, the Afshari & Stewart (2016) model returns the published median durations D5-75, D5-95 and D20-80 and their standard deviations. This includes the source term by mechanism (that of an unspecified mechanism if the value is not one of the options), the piecewise path term, and the site and basin terms with the published default depth.",
      ["afshari_stewart_2016.py"], RANGE, [("durations", "AfshariStewart2016.__init__, _corner_freq"), ("deviations", "AfshariStewart2016.__init__")])
model("M15", "PR23 predicts the published durations",
      "For every scenario and every fraction of the energy, the Pinilla-Ramos et al. (2023) model returns the published median duration and its plus and minus one standard deviation values, and it rejects fractions that are not supported.",
      ["pinilla_ramos_et_al_2023.py"], RANGE, [("durations", "_calc_duration")])
model("M16", "PR24 predicts the published durations",
      "For every subduction scenario, region, event type and fraction of the energy, the Pinilla-Ramos et al. (2024) model returns the published median duration and its plus and minus one standard deviation values. Combinations that are not supported are rejected, and the function for arrays gives the same values for every element.",
      ["pinilla_ramos_et_al_2024.py"], RANGE, [("durations", "_calc_duration, _calc_d575_median, _calc_d575_sigma, d5x_median, d5x_sigma"), ("arrays", "duration_model")])
model("M17", "BA19 predicts the published Fourier amplitudes",
      "For every scenario, the Bayless & Abrahamson (2019) model returns the published effective amplitude spectrum in g-s from 0.1 to 100 Hz with its standard deviation. This includes nonlinear site response, the basin term, and the extrapolation with kappa above 24 Hz.",
      ["bayless_abrahamson_2019.py"], RANGE, [("median", "_calc_ln_eas, _calc_site_response"), ("deviation", "_calc_ln_std")])
model("M18", "BA18 returns the published inter-frequency correlations",
      "For every set of frequencies, the Bayless & Abrahamson (2018) correlation matrix has the published values, and the covariance matrix scales it with the given or the published component of the standard deviation.",
      ["bayless_abrahamson_2018.py"], "All sets of frequencies, components and standard deviations.", [("matrix", "corr, cov")])
model("M19", "S17 returns the published inter-frequency correlations",
      "For every set of frequencies and magnitude, the Stafford (2017) between-event, between-site and within-event correlations, the variances, and the total covariance and correlation matrices have the published values. Deviations that the caller gives for any of the three components are used, those not given are the published ones, and those of another length than the frequencies are rejected.",
      ["stafford_2017.py"], "All pairs of frequencies from 0.01 to 100 Hz, and sets of frequencies with and without given variances.", [("components", "between_event_correlation, between_site_correlation, within_event_correlation, compute_variances"), ("matrices", "cov, cor")])
model("M20", "BJ08 returns the published correlations and conditional mean spectra",
      "For every pair of periods, the Baker & Jayaram (2008) correlation has the published value of its period range. For every spectrum, conditioning period and conditioning amplitude, the conditional mean and standard deviation follow from these correlations.",
      ["baker_jayaram_2008.py"], "All pairs of periods, spectra, conditioning periods and amplitudes.", [("correlation", "calc_correls"), ("spectrum", "calc_cond_mean_spectrum")])
model("M21", "Conditional spectra for a vector of periods match the closed form",
      "For every spectrum and every subset of conditioning periods, the conditional mean spectrum vector and its standard deviation equal the conditional multivariate normal distribution with the Baker & Jayaram correlations, in the order of the given periods. Periods that do not increase are rejected.",
      ["kishida_2017.py"], "All subsets of the periods as conditions, and all orders of periods.", [("spectrum", "calc_cond_mean_spectrum_vector")])
model("M22", "AB20 predicts the published conditional PGV",
      "For every scenario and given PGA or PSA, the Abrahamson & Bhasin (2020) model returns the published conditional median PGV and its standard deviation, including the magnitude-dependent slope and deviation, and the published period that controls PGV.",
      ["abrahamson_bhasin_2020.py"], RANGE, [("median and deviation", "AbrahamsonBhasin2020.__init__")])
model("M23", "Estimators of missing scenario values are the published relations",
      "The public functions that estimate basin depths, rupture widths, depths to the top and bottom of rupture and hypocentral depths return the published relation for every magnitude, mechanism, dip, velocity and region.",
      ["abrahamson_silva_kamai_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py", "afshari_stewart_2016.py", "bayless_abrahamson_2019.py"],
      "All values of the arguments, including omitted ones.", [("estimators", "calc_depth_1_0, calc_depth_2_5, calc_depth_tor, calc_width, calc_depth_bor, calc_depth_hyp")])
model("M24", "Public site terms are the published site response",
      "The public functions that return the site term of the ASK14, BSSA14, CB14 and CY14 models have the published values for every reference motion, site velocity, basin depth and region.",
      ["abrahamson_silva_kamai_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py"],
      "All reference amplitudes, velocities, basin depths and regions.", [("site terms", "calc_site_term")])

prop("C01", "A scenario is a consistent, independent mapping",
     "After any sequence of operations, the attributes and the items of a scenario agree, copies and unions are independent of their source and are scenarios, and copies, pickles and reconstructions have the same contents. Each of the 27 values can be set to anything, also zero, false, empty or None, and is kept as it is. Names that are not scenario values are rejected by the constructor, by unions, and by copies with changes.",
     ["histories"], "All sequences of item, attribute, copy, union and serialization operations on two scenarios up to a depth.",
     "Tests build a scenario and read it once; they contain no sequences of operations.",
     ["model.py"], [("mapping", "Scenario.__getattr__, __setattr__, copy_with, _check_keys")],
     "breadth-first exploration of operation histories of real scenarios against a dictionary model",
     "All histories up to depth 4 (quick) or 5 (thorough) with merged states, and 2 or 3 without merging; all histories of depth 2 (3) on each value with every kind of content. Trusted: dictionaries.")
prop("C02", "Parameters are checked, defaulted and reported for every model",
     "Every model refuses a scenario without a required value, uses the documented default for an omitted value or an option that is not supported, and keeps every other given value. It warns about a value exactly if it is outside of the documented limits or options, and the warning names the parameter, its value and the limit. BSSA14, CB14 and CY14 log a warning exactly if the magnitude is outside of the documented limits of the mechanism.",
     ["inputs", "configurations"], "All combinations of omitted, limiting and unsupported values of up to two (thorough: three) parameters of each model.",
     "Tests check the parameter classes with a few values and never the interaction of the parameters of a model.",
     ["model.py"], [("checks", "Model.__init__, Model._check_inputs, Parameter.check, NumericParameter.check, CategoricalParameter.check")],
     "explicit-state enumeration of parameter states of every model against a table of the documented parameters",
     "Complete within two deviations (quick) of every scenario of the catalogue. Trusted: the committed table of documented parameters. Also arrays that hold every combination of 53 levels of any two and 17 levels of any three values.")
prop("C03", "Data of the caller is never modified",
     "No prediction, interpolation, correlation or conditional spectrum modifies the scenario, lists or arrays which the caller provides, whatever their form (list, tuple, read-only or strided array). Later changes by the caller of what it provided or received do not change results that were already returned.",
     ["inputs", "histories"], "All functions with all combinations of forms of their arguments, all models with all subsets of omitted values, and all sequences of two (thorough: three) models with one shared scenario.",
     "Tests use fresh arrays in every call and do not look at them afterwards.",
     ["model.py", "abrahamson_silva_1996.py", "kishida_2017.py", "baker_jayaram_2008.py", "bayless_abrahamson_2018.py", "stafford_2017.py"],
     [("copies", "Model.__init__ and the array functions")],
     "exhaustive enumeration of call histories over argument forms on the real code",
     "Complete within the listed functions, forms and lengths. Also arrays that hold every combination of 53 levels of any two and 17 levels of any three values.")
prop("C04", "A prediction does not depend on what was evaluated before",
     "A prediction depends only on its scenario: it equals the prediction of a new process whatever models and functions were evaluated before, failed, or warned in the same process. It also does not depend on what a caller does with arrays or scenarios that other predictions handed out.",
     ["histories"], "All histories of two operations over all models and functions, all histories of three (thorough: five) operations of one model, all pairs of scenarios that differ in one or two values, and all histories of two or three calls of one function or queries of one object with arguments that differ by little, in one element, or in one option.",
     "Each test evaluates one scenario and the order of the tests is fixed.",
     ["model.py", "abrahamson_gregor_addo_2016.py", "bayless_abrahamson_2019.py"],
     [("no shared state", "class attributes with coefficients are only read"), ("copies", "properties of the models")],
     "stateful depth-first exploration of operation histories with process snapshots (fork) against baselines of separate processes",
     "Complete within the stated depth and alphabet of operations. Scenarios of an orthogonal array are evaluated in four orders, each in a process of its own.")
prop("C05", "Predictions do not depend on the schedule of threads",
     "Two threads that evaluate models or functions at the same time obtain the same results as one after the other, for independent scenarios, for a shared scenario, and for a shared prediction.",
     ["schedules"], "All schedules with one preemption at any line of the library, each in a process that has not used it before, and all with two preemptions of the small harnesses.",
     "The tests have no threads.",
     ["model.py", "hermkes_kuehn_riggelsen_2014.py"],
     [("no shared state", "predictions are held by the instance"), ("lazy table", "hermkes_kuehn_riggelsen_2014.INTERPOLATOR")],
     "stateless model checking of real threads with a controlled scheduler and bounded preemptions",
     "Scheduling points are the lines executed within the library (the first two executions of a line in quick, eight in thorough); switches within a line are not explored. Other threads than two are not explored.")
prop("C06", "Equivalent forms of a scenario give the same prediction",
     "The prediction does not depend on how the same scenario is written: the order of its values, a dictionary, integers, numpy numbers or zero-dimensional arrays, assignment by attribute or item, copies, explicit missing values, or values that the model does not use.",
     ["inputs"], "All forms of all scenarios of the catalogue, and all subsets of unused values.",
     "Tests always use floats and keyword arguments.",
     ["model.py"], [("selection of the used values", "Model.__init__")],
     "explicit-state enumeration of input forms with equality of all observations",
     "Complete within the listed forms and scenarios. Also arrays that hold every combination of 53 levels of any two and 17 levels of any three values.")
prop("C07", "The reported scenario reproduces the prediction",
     "The scenario that a prediction reports, with all estimated and default values, gives the same prediction and the same scenario when it is evaluated again with the same model.",
     ["inputs", "configurations"], "All subsets of omitted optional values of every scenario and magnitude of the catalogue.",
     "No test reads the reported scenario.",
     ["model.py", "abrahamson_silva_kamai_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py", "boore_stewart_seyhan_atkinson_2014.py"],
     [("estimates", "_check_inputs of the models")],
     "explicit-state enumeration of all subsets of given values with a fixpoint check",
     "Complete for subsets of optional values in the scenarios of the catalogue. Also arrays that hold every combination of 53 levels of any two and 17 levels of any three values.")
prop("C08", "Every model provides consistent accessors",
     "Every ground motion model provides the same number of increasing periods, spectral accelerations and standard deviations; each of PGA, PGV and PGD is a number with a standard deviation, or is reported as not implemented. Reading is repeatable and has no effect on the scenario, and interpolation at the periods of the model returns its values.",
     ["inputs", "configurations"], "All models with up to two deviations from the scenarios of the catalogue.",
     "Tests read the accessors of a few models, and not the ones that are not supported.",
     ["model.py"], [("accessors", "GroundMotionModel properties")],
     "explicit-state enumeration of scenarios with invariants of the public accessors",
     "Complete within the lattice of scenarios. Also arrays that hold every combination of 53 levels of any two and 17 levels of any three values.")
prop("C09", "Interpolation over periods is exact, in logarithmic space and bounded",
     "Interpolated spectral accelerations and standard deviations equal the model at its own periods, follow the requested kind of interpolation over the logarithm of the period in between, and are undefined outside of the range of periods. This holds for scalars, lists and arrays in any order or shape.",
     ["inputs"], "All models, all gaps between periods, all kinds of interpolation.",
     "Tests interpolate one model at a few periods.",
     ["model.py"], [("interpolation", "interp_spec_accels, interp_ln_spec_accels, interp_ln_stds")],
     "explicit-state enumeration of periods, kinds and forms against a reference interpolation",
     "Complete for five points in each gap between periods and the scenarios of the catalogue.")
prop("C10", "Predictions are finite and positive over the range of applicability",
     "For every scenario within the limits of a model, every median is finite and positive, and every standard deviation of ground motion is finite, positive and less than three natural logarithm units.",
     ["inputs", "configurations"], "All scenarios with up to two or three values at the limits or within the range of each model.",
     "Tests evaluate few scenarios, and rarely at the limits.",
     ["model.py"], [("medians and deviations", "all models")],
     "explicit-state enumeration of the lattice of scenarios with an invariant",
     "Complete within the lattice. Durations of KS06 (published as undefined for short source durations) and minus-sigma durations are excluded. Also arrays that hold every combination of 53 levels of any two and 17 levels of any three values.")
prop("C11", "Predictions vary continuously with the scenario",
     "Medians and standard deviations have no jumps when the magnitude, a distance, velocity, depth, dip or width varies, apart from the steps of the published equations.",
     ["inputs"], "All lines along one value through the scenarios of the catalogue, with both sides of every round number.",
     "Isolated values of tests cannot show a jump between them.",
     ["model.py"], [("pieces of the equations", "all models")],
     "explicit-state enumeration of neighbouring states with bisection of suspected jumps",
     "Jumps at round numbers larger than 1e-5 and jumps in between that exceed the local trend by 2e-3 are found. Published steps are listed in the check. Lines start also at a covering array of all pairs of values.")
prop("C12", "Correlation matrices are valid for every set of frequencies or periods",
     "The correlations of the Baker & Jayaram, Bayless & Abrahamson and Stafford models form symmetric, positive semidefinite matrices with a unit diagonal and values of no more than one in magnitude, in any order of any set of frequencies or periods.",
     ["inputs"], "All sets and orders of up to three, and all sets of up to four (thorough: five) values, and one dense set.",
     "Tests compare a few entries of one matrix.",
     ["baker_jayaram_2008.py", "bayless_abrahamson_2018.py", "stafford_2017.py"], [("correlations", "calc_correls, corr, cor")],
     "exhaustive enumeration of sets of values with an invariant of the matrices",
     "Complete within the alphabets of values. Repeated values are excluded.")
prop("C13", "Ground motion attenuates with distance",
     "Away from the hanging wall and on stiff sites, the median ground motion never increases, and the duration never decreases, when the distance increases. Excepted are the published reflections between 70 and 150 km in eastern North America, and the published corrections of BSSA14 for China and Turkey and magnitudes of 7.2 and more.",
     ["inputs"], "All lines along the distance through the lattice of scenarios of every model.",
     "Tests evaluate few distances of a scenario.",
     ["model.py"], [("path terms", "all models")],
     "explicit-state enumeration of lines of states with an order invariant of the transitions",
     "Complete for 40 (thorough: 80) distances of every line. Lines start also at a covering array of all pairs of values.")
prop("C14", "Distant ground motion grows with magnitude",
     "At 50 km and beyond (footwall) on stiff sites, the median ground motion and the duration never decrease when the magnitude increases, apart from the published magnitude dependent attenuation of CY14 in Italy and Japan and the smallest magnitudes of DBC14.",
     ["inputs"], "All lines along the magnitude through the lattice of scenarios of every model.",
     "Tests evaluate few magnitudes of a scenario.",
     ["model.py"], [("source terms", "all models")],
     "explicit-state enumeration of lines of states with an order invariant of the transitions",
     "Complete for 46 (thorough: 90) magnitudes of every line. Lines start also at a covering array of all pairs of values.")
prop("C15", "Conditional spectra honour their conditions",
     "Conditional spectra equal the given amplitudes at the conditioning periods with no variability there, do not exceed the unconditional variability elsewhere, return the unconditional median if the median is given, and agree between the two methods for one conditioning period.",
     ["inputs"], "All sets of up to six of eight periods (thorough: all) with all subsets of conditions and patterns of amplitudes.",
     "Tests use one spectrum with one or two conditions.",
     ["baker_jayaram_2008.py", "kishida_2017.py"], [("conditional spectra", "calc_cond_mean_spectrum, calc_cond_mean_spectrum_vector")],
     "exhaustive enumeration of all subsets of conditions with invariants of the spectra",
     "Complete within the alphabet of periods.")
prop("C16", "Functions of arrays treat every element on its own",
     "Functions that take arrays of periods, frequencies, intensities or events return, for every subset and order of the elements, the same subset and order of the values, however many there are and also if elements repeat.",
     ["inputs"], "All subsets and orders of six elements for every function, all repetitions, and dense arrays of every listed length up to 513.",
     "Tests use one order of one array.",
     ["model.py", "baker_jayaram_2008.py", "bayless_abrahamson_2018.py", "stafford_2017.py", "abrahamson_silva_1996.py", "gulerce_abrahamson_2011.py", "pinilla_ramos_et_al_2024.py"],
     [("vectorization", "the array functions")],
     "exhaustive enumeration of subsets and permutations with an equivariance check",
     "Complete for six elements: all subsets, all orders of up to four (thorough: six) elements.")

prop("C17", "Durations are ordered by the fraction of energy and the deviation",
     "For every scenario within the range of applicability, the duration of a larger part of the energy is longer: for AS96 and PR23/PR24 (PR23: 1 to 100 km, 200 to 1500 m/s) it never decreases with the fraction of energy between 0.10 and 0.95, for AS16 5-75% and 20-80% are shorter than 5-95%, and for KS06 5-75% are shorter than 5-95% (acceleration and velocity, where the published durations are positive). The duration minus one deviation is positive and less than the median, and the median is less than the duration plus one deviation (PR23, PR24); for AS96 it increases with the number of deviations.",
     ["inputs"], "All scenarios with up to three values from the lattice of the model, and all fractions of energy in steps of 0.01 and on both sides of the middle of published intervals.",
     "Tests compare the median duration of a few scenarios and fractions.",
     ["abrahamson_silva_1996.py", "kempton_stewart_2006.py", "afshari_stewart_2016.py", "pinilla_ramos_et_al_2023.py", "pinilla_ramos_et_al_2024.py"],
     [("fractions of energy", "interp, duration_for_energy, duration"), ("deviations", "std_err, duration_plus_sigma, duration_minus_sigma")],
     "explicit-state enumeration of scenarios and fractions with an order invariant of the transitions",
     "Complete within the lattice of scenarios and fractions.")
prop("C18", "Soft sites amplify weak long-period motion",
     "For weak motion (M 6 or less, at least 60% of the largest distance of the model and no less than 100 km, depth of soil not given), PSA from 0.4 to 5 s (DBC14: M 5 and more, up to 1.8 s), PGV, and effective amplitudes from 0.3 to 8 Hz never increase when v_s30 increases, and durations never increase with v_s30 (KS06: 10 km and more). ASK14 in Japan, published in steps of the velocity, is excepted.",
     ["inputs"], "All lines along v_s30, with both sides of the published velocities, through the lattice of scenarios of every model that has a site term.",
     "Tests evaluate few velocities, and mostly of strong motion.",
     ["model.py"], [("site terms", "all models with v_s30")],
     "explicit-state enumeration of lines of states with an order invariant of the transitions",
     "Complete for 30 (thorough: 80) velocities and both sides of 12 published ones of every line. Lines start also at a covering array of all pairs of values.")
prop("C19", "Stronger shaking is amplified less",
     "The site terms of ASK14, BSSA14, CB14 and CY14 (calc_site_term) never increase with the reference motion, for all velocities from 150 to 1500 m/s, depths and regions, and for 180 m/s and more the motion at the surface never decreases with the reference motion. In the predictions of AB06, ASB14, AGA16, PNNL, ASK14, BSSA14, CB14, CY14 and BA19, the ratio of a soft site (180 to 520 m/s, depth not given) to rock never decreases with distance (CB14: for PSA the eight shortest periods, limited by PGA, are excepted). Changes of less than 1e-4 are rounding of the published coefficients.",
     ["inputs"], "All lines along the reference motion (0.001 to 1.5 g) for all velocities, depths and regions; all lines along the distance through the lattice of scenarios.",
     "Tests compare the total motion of a few scenarios, not how the site responds to a range of shaking.",
     ["abrahamson_silva_kamai_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py", "atkinson_boore_2006.py", "akkar_sandikkaya_bommer_2014.py", "abrahamson_gregor_addo_2016.py", "coppersmith_bommer_2014.py", "bayless_abrahamson_2019.py"],
     [("nonlinear site response", "calc_site_term, _calc_ln_resp")],
     "explicit-state enumeration of lines of states with an order invariant of the transitions",
     "Complete for 30 (thorough: 60) reference motions and 14 (24) distances of every line. Lines start also at a covering array of all pairs of values.")
prop("C20", "The hanging wall has no lower ground motion than the footwall",
     "For ASK14, CB14 and CY14, sites with v_s30 of 760 m/s and more, and ruptures of which dist_rup is larger than the distance to the rupture that dist_jb and depth_tor imply: PSA, PGA and PGV on the hanging wall are no less than those of the mirrored site on the footwall (on_hanging_wall for ASK14 and CY14, the sign of dist_x for CB14).",
     ["inputs"], "All combinations of 15 (thorough: 27) magnitudes, eight dips, six depths, four widths, two mechanisms and 13 places, and all scenarios with up to two (three) deviations from the catalogue at these places.",
     "Tests contain a handful of scenarios on the hanging wall, of common dips and magnitudes.",
     ["abrahamson_silva_kamai_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py"], [("hanging wall terms", "_calc_f4, _calc_ln_resp")],
     "explicit-state enumeration of pairs of states with an order invariant",
     "Complete within the grid of magnitudes, geometries and places. Lines start also at a covering array of all pairs of values.")
prop("C21", "Standard deviations are consistent across periods, magnitudes and sites",
     "The standard deviations of PSA and of Fourier amplitudes are smooth functions of the period: no value is isolated by more than 0.05 from both neighbours. For weak motion they do not increase with the magnitude (by more than 0.01; PSA up to 1 s, PGA, PGV, Fourier amplitudes). For ASK14 and CY14, a measured v_s30 has no larger deviation than an inferred one, and does not change the median.",
     ["inputs"], "All lines along the magnitude through the lattice of scenarios, and all scenarios with both sources of the velocity.",
     "Many tables of the tests hold the median only.",
     ["model.py"], [("standard deviations", "_calc_ln_std of all models")],
     "explicit-state enumeration of lines of states with invariants of the transitions",
     "Complete for 20 (thorough: 40) magnitudes of every line. Lines start also at a covering array of all pairs of values.")
prop("C22", "Intensity measures of one prediction are consistent",
     "In every prediction, PSA at the shortest period is 0.97 to 1.08 PGA (AB06: 0.85 to 1.9, hard rock 3.0; Pea11: 0.98 to 1.5; TP05 and C03 have no such period), the largest PSA is 1.0 to 13 PGA, PGV is 25 to 1400 cm/s for a PSA(1 s) of one g, PGD is 0.3 to 4 times the spectral displacement at the longest period, and spectral displacements increase over all periods, with no drop of more than 0.8 natural logarithm units (PNNL: M 4.5 and more).",
     ["inputs"], "All scenarios with up to two (models of few parameters: three) values from the lattice.",
     "Tests compare every measure with a table of its own, for a few scenarios.",
     ["model.py"], [("indices of intensity measures", "INDICES_PSA, INDEX_PGA, INDEX_PGV, INDEX_PGD"), ("units", "PGV_SCALE, PGD_SCALE")],
     "explicit-state enumeration of the lattice of scenarios with an invariant",
     "Complete within the lattice. Scenarios of CY14 that are closer than the rupture are excluded. Also arrays that hold every combination of 53 levels of any two and 17 levels of any three values.")
prop("C23", "Predictions survive pickling and copying",
     "Copies of models and scenarios, with copy.copy, copy.deepcopy, any pickle protocol (also read by another process) or as part of a container, in any sequence, have the class and give the predictions of the original, and using one of them changes none of the others. Deep and pickled copies share no arrays with the original.",
     ["histories"], "All sequences of up to three (thorough: four) of seven operations for every scenario of the catalogue, and single operations for all scenarios of the lattice.",
     "Tests do not pickle or copy models, as is done whenever predictions are distributed over processes.",
     ["model.py"], [("attributes", "Scenario.__getattr__, Model.__init__")],
     "exhaustive enumeration of operation sequences on the real code with an equality oracle",
     "Complete within the depth. Also arrays that hold every combination of 53 levels of any two and 17 levels of any three values.")
prop("C24", "Predictions do not depend on the process that computes them",
     "The predictions, and which scenarios are rejected, are the same in every process: whichever module is imported first, with optimization (-O, -OO), any hash seed, locale, time zone, home or working directory, number of threads, with or without standard streams, with files of the same names as those of the library in the home or working directory, from any (also read-only) location of the package, and in threads or processes that are forked or spawned.",
     ["configurations"], "All processes with one deviation from the default process, and all pairs of flags, directory, location and method (thorough: all pairs).",
     "Tests run in one process of one configuration.",
     ["__init__.py", "model.py"], [("loading of data", "COEFF, module level"), ("validation", "_check_inputs")],
     "exhaustive enumeration of process configurations up to two deviations with an equality oracle on the real code",
     "Complete within the listed configurations; one interpreter and platform.")
prop("C25", "Models that users define on the base classes work as documented",
     "A model that is defined on GroundMotionModel provides its periods, accelerations, measures (scaled by PGV_SCALE and PGD_SCALE), deviations and interpolations for every layout of its response, and reports a measure or deviation it does not have as not implemented. Numeric and categorical parameters of any definition check, default and report values the same way in every model, whether it is created from a scenario, a dictionary, or keywords. Coefficients are a read-only mapping that can be read by attribute, copied and pickled.",
     ["inputs", "configurations"], "All layouts of up to three periods and three measures, all definitions of one and two parameters with values of every class, and all sets of up to five coefficients.",
     "Tests define no models, and check a few definitions of parameters.",
     ["model.py"], [("base classes", "Model, GroundMotionModel, NumericParameter, CategoricalParameter, Coefficients")],
     "exhaustive enumeration of definitions and values against a reference model of the base classes",
     "Complete for the layouts; for pairs of parameters, a subset of the definitions (quick).")

prop("C26", "Using the library leaves the process as it was",
     "Importing any module of the library, and predicting, interpolating, rejecting and reporting scenarios, displaying, copying and pickling models, and calling its functions leave everything that belongs to the application alone: NumPy error handling and print options, random number generators, warning filters, the root logger, locale, environment, working directory, search path, files, threads, signals, recursion and garbage collection settings, standard output, the functions of other modules; and also the published tables and parameter definitions of the library. This holds in a process with default settings and in one which configured them.",
     ["inputs", "histories", "configurations"], "Every module imported first, and all histories of one operation and chains of all operations (every pair, thorough), in two initial processes.",
     "Tests do not look at the state of the process, and run within one that pytest configures.",
     ["model.py", "boore_stewart_seyhan_atkinson_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py"],
     [("reports", "Model._check_inputs, logging.warning"), ("imports", "__init__.py, load_data_file"), ("suppressed errors", "np.errstate")],
     "exhaustive enumeration of operation histories of the implementation in forked processes, with a monitor of the state of the process after every operation",
     "Files outside of the working directory, the home directory and the package are not watched.")

NOT_APPLICABLE = []

PY = "/opt/venv/bin/python"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            fp.write(
                json.dumps(
                    dict(
                        id=p["id"],
                        title=p["title"],
                        statement=p["statement"],
                        quantifier=dict(over=p["over"], text=p["text"]),
                        why_tests_cant=p["why"],
                        anchors=dict(
                            files=p["files"],
                            mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                        ),
                    )
                )
                + "\n"
            )
    manifest = dict(
        version=1,
        setup_cmd=f"{PY} check.py --selftest",
        checks=[
            dict(
                property=p["id"],
                quick_cmd=f"{PY} check.py {p['id']}",
                thorough_cmd=f"{PY} check.py {p['id']} --tier thorough",
                technique=p["technique"],
                level="model_checking",
                level_note=p["note"],
            )
            for p in PROPS
        ],
        not_applicable=NOT_APPLICABLE,
        notes="properties.jsonl and this file are written by spec.py. No hooks in the repository are needed.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(manifest, fp, indent=1)
        fp.write("\n")


if __name__ == "__main__":
    main()

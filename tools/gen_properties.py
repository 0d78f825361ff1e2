#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []


def p(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why, "anchors": a})


TS = "echidna/fit/test_statistic.py"
SP = "echidna/core/spectra.py"
PA = "echidna/core/parameter.py"
CF = "echidna/core/config.py"
MI = "echidna/fit/minimise.py"
FR = "echidna/fit/fit_results.py"
FI = "echidna/fit/fit.py"
LI = "echidna/limit/limit.py"
SM = "echidna/core/smear.py"
SC = "echidna/core/scale.py"
SH = "echidna/core/shift.py"
DE = "echidna/calc/decay.py"
DX = "echidna/core/dsextract.py"
FS = "echidna/core/fill_spectrum.py"
ST = "echidna/output/store.py"
NOTEST = "The five tests that run here evaluate only test statistics at hand-picked points; "

p("C01", "Test statistics equal their published formulas summed over the bins",
  "For any two equal-length one-dimensional arrays of non-negative counts, each test statistic's total is the sum over bins of its published formula: Baker-Cousins 2*(e-o+o*ln(o/e)), its log-likelihood version without the factor 2, its upward version (which counts only bins with o<=e), Pearson (o-e)^2/e, Neyman (e-o)^2/o and extended log-likelihood e-o*ln(e). A bin whose observed count is (numerically) zero contributes just e (2e for Baker-Cousins); a zero divisor is taken in the documented limit of 1e-34, and for Neyman a bin with zero expectation contributes its observed count.",
  "every array length and every non-negative observed/expected content",
  "Tests compare each statistic with the formula at one or two pairs of arrays; the claim is for every length and content, including zero bins.",
  [TS], [("the _compute method of every statistic", TS)])
p("C02", "Per-bin test statistics are the bins' formulas and add up to the total",
  "In per-bin mode every test statistic returns one entry per bin, entry i being exactly the value of its formula for bin i alone (in the order of the input), and the entries add up to the total the same statistic reports for the same arrays when not in per-bin mode.",
  "every array length and every non-negative content, all six statistics",
  "Tests check the per-bin path on a handful of arrays; agreement of two separately written loops on all inputs cannot be sampled.",
  [TS], [("the _get_stats method of every statistic", TS)])
p("C03", "Computing a test statistic validates its input and leaves it unchanged",
  "Asking any test statistic to compare arrays that are not both one-dimensional raises TypeError, and arrays of different length raise ValueError. In every case, whether or not per-bin values are requested, the caller's observed and expected arrays have the same content afterwards as before.",
  "every array rank, length and content (zero bins included)",
  "No test looks at the arrays after the call, and the mutation only shows for bins below the zero limit.",
  [TS], [("compute_statistic shape checks", TS), ("in-place limits in the loops over bins", TS)])
p("C04", "Chi-squared type statistics are non-negative and vanish at a perfect fit",
  "For all non-negative observed and expected counts, Baker-Cousins chi-squared (both versions), its log-likelihood form, Pearson and Neyman chi-squared are never negative, in total and in each bin, and they are zero when observed equals expected and all counts are above the zero limit.",
  "every length and every non-negative content",
  "A sign or factor error shows only for particular o/e ratios; tests use a few fixed arrays.",
  [TS], [("formulas in _compute and _get_stats", TS)])
p("C05", "Penalty terms are the quadratic pull of a fit parameter from its prior",
  "Every test statistic's penalty for a parameter is ((value-prior)/sigma)^2 (half of that for the Baker-Cousins log-likelihood), so it is zero exactly at the prior, symmetric about it and increases with the distance from the prior; whole-number sigmas give the same result as the equal floating point number.",
  "every value, prior and non-zero sigma",
  "Not covered by a test at all.",
  [TS], [("get_penalty_term", TS)])
p("C06", "Filling a spectrum changes exactly the one bin containing the point",
  "Filling a spectrum with a value for each of its axes adds the weight to exactly the bin whose half-open interval [low edge, high edge) contains the point on every axis and changes no other bin, binning or scaling information. A value below an axis or at/above its upper bound is rejected with ValueError, and an unknown or a missing axis with an exception, in all of these cases leaving the spectrum unchanged.",
  "every rank, binning, content, weight and point",
  NOTEST + "the spectrum tests fill a fixed set of points (and need packages not present here).",
  [SP, PA], [("fill", SP)], state=[("_data", "histogram content", SP)])
p("C07", "Axis bins partition the range and bin look-ups are mutually consistent",
  "For a spectrum axis with any low < high and any positive number of bins, the bins are equal-width half-open intervals from low to high: the bin of a value is the one whose edges enclose it (the upper bound itself belongs to the last bin), the centre of bin i lies in bin i and is low+(i+1/2)*width, and the lists of centres and boundaries agree with these and have bins and bins+1 entries. Values outside the range, and bin numbers outside 0..bins-1 or that are not integers, are rejected with ValueError and TypeError respectively; rounding a value gives the nearest bin edge.",
  "every low, high, number of bins, value and index",
  NOTEST + "edge values and axes not starting at a multiple of the width are never sampled.",
  [PA], [("get_bin, get_bin_centre, get_bin_centres, get_bin_boundaries, get_width, round", PA)])
p("C08", "Scaling a spectrum multiplies every bin by the ratio of decays",
  "Scaling a spectrum to n decays multiplies every bin by n divided by the number of decays it represented, records n as its new number of decays and changes nothing else; so scaling to n and back to the original number restores the content, scaling twice equals scaling once to the last value, and the total scales by the same ratio.",
  "every rank, shape, content and non-zero numbers of decays",
  NOTEST + "the algebra over all contents and sequences of scalings cannot be sampled.",
  [SP], [("scale", SP)], over=("inputs", "histories"))
p("C09", "Adding spectra is bin-wise and refuses incompatible ones unchanged",
  "Adding one spectrum to another adds its content bin by bin and its raw-event and decay counts, and leaves the added spectrum unchanged. If the two do not have the same dimensions in the same order, or an axis differs in low bound, high bound or number of bins, an exception is raised and neither spectrum is changed.",
  "every rank, binning and content; every kind of mismatch; matching axes may differ in their mc/reco/truth suffix",
  NOTEST + "mismatches in the order of axes or in one bound of a later axis are not sampled.",
  [SP, CF], [("add", SP), ("get_dims, get_dim, get_dim_type", CF)])
p("C10", "Shrinking keeps exactly the requested bins and consistent bookkeeping",
  "Shrinking a spectrum to new bounds on any of its axes keeps, with unchanged content, exactly the bins between the requested bounds (when a bound is not on a bin edge the bin containing it is kept), for every axis at once; afterwards each axis's low, high and number of bins describe exactly the kept bins, with the same bin width as before, and the data shape matches. Unknown axis names, malformed bound names and bounds outside the existing range are rejected with an exception before anything is changed.",
  "every rank, binning (including axes whose low is not a multiple of the width), content and bounds",
  NOTEST + "off-edge bounds, several axes at once and repeated shrinks are not covered.",
  [SP, PA], [("shrink", SP), ("round, get_width, set_par", PA)])
p("C11", "Cuts and regions of interest keep consistent scaling information",
  "Cutting a spectrum keeps the same bins as shrinking and reduces the number of decays it represents by the same fraction as its total content, so events per decay are preserved. Shrinking to a region of interest keeps the number of decays and records for that axis the resulting bounds and the efficiency, the fraction of the previous total that remains.",
  "every rank, binning, non-zero content and bounds",
  NOTEST + "no available test calls either operation.",
  [SP], [("cut, shrink_to_roi, get_roi", SP)])
p("C12", "Rebinning sums whole blocks of bins and preserves the total",
  "Rebinning a spectrum by integer factors makes each new bin the sum of exactly the old bins it covers, preserves the total content and the bounds of every axis, and updates the number of bins so data and binning agree. A request with the wrong number of axes, or in which any axis's bin count is not divisible, raises ValueError and changes neither data nor binning.",
  "every rank, shape, content and target binning",
  NOTEST + "a failure on a later axis after earlier ones were accepted is not sampled.",
  [SP], [("rebin", SP)])
p("C13", "Projections are marginal sums and do not change the spectrum",
  "Projecting a spectrum onto one axis, onto two axes, or onto any set of axes gives the array in which every entry is the sum of the content over all the other axes, indexed by the kept axes in spectrum order; the total is preserved and the spectrum itself is not changed.",
  "every rank up to four, shape, content and choice of axes",
  NOTEST + "for spectra with three or more axes the bookkeeping of axis numbers is untested.",
  [SP], [("project, surface, nd_project", SP)])
p("C14", "Shifting by whole bins moves every bin's content exactly",
  "Shifting a spectrum along one axis by a whole number of bin widths, up or down, returns a spectrum in which every bin holds the content of the bin that many places away along that axis, the content of all other axes being carried along; what would leave the range is dropped, vacated bins are zero, and the original spectrum is unchanged. A shift that is not a multiple of the width is refused with ValueError by the bin-wise shift.",
  "every rank, shape, content and whole-bin shift including those larger than the range",
  NOTEST + "multi-dimensional and negative shifts are not sampled.",
  [SH], [("shift_by_bin, shift", SH)])
p("C15", "Interpolated scaling and shifting conserve the total and the original",
  "Scaling the axis of a spectrum by a positive factor, or shifting it by an amount that is not a whole number of bins, returns a new spectrum with the same binning, number of decays and total content (as long as any content remains in range), without negative bins when the content is non-negative, and leaves the original spectrum, including its configuration, unchanged. A scale factor of zero or below is refused with ValueError.",
  "every content and binning, every positive factor and every shift that leaves content in range; any interpolating function",
  NOTEST + "the interpolation branches near the ends of the axis depend on factor and bin.",
  [SC, SH, SP], [("scale", SC), ("shift", SH), ("interpolate1d", SP)])
p("C16", "Weighted smearing redistributes each bin's entries without loss",
  "Weighted smearing of a spectrum along an axis (by light yield, energy resolution or position resolution) spreads the entries of each bin over a window of bins around it in the same row, in proportion to the smearing function at their centres and normalised over the bins reached, so that every row's and the whole spectrum's content is conserved, no bin becomes negative and empty rows stay empty. The original spectrum is unchanged, the raw-event and decay counts are kept, and an axis the spectrum does not have is refused with IndexError.",
  "every rank, binning (energy and radius axes starting at or above 0), non-negative content and positive resolution",
  NOTEST + "bins near the ends of the axis and narrow resolutions are not sampled.",
  [SM], [("weighted_smear of the three smearing classes", SM), ("get_bounds", SM)])
p("C17", "Smearing resolutions follow their formulas and combine consistently",
  "The width of the smearing is sqrt(E/lightyield) for a light yield, resolution*sqrt(E) for an energy resolution and the resolution itself for positions; the Gaussian weights are the normal density of that width and the Poisson weights the probability of the (whole) number of photons, with the given light yield or the light yield 1/resolution^2 of the same width. The extra light yield or resolution needed to go from a current value to a coarser one is such that the two smearings combine (variances add) to the requested one, asking for a finer one raises ValueError, and non-positive resolutions, light yields and numbers of sigma are refused with ValueError and change nothing.",
  "every positive energy, resolution and light yield",
  NOTEST + "algebraic identities over all values cannot be sampled.",
  [SM], [("get_sigma, calc_gaussian, calc_poisson_energy, calc_smear_ly, calc_smear_resoluton, setters", SM)])
p("C18", "Fit-parameter grids have the documented values and consistent look-ups",
  "The values of a fit parameter are exactly the requested number of points in increasing order from the low to the high limit inclusive: equally spaced, or equally spaced in the logarithm, or (deviation scale) spaced in the logarithm of 1+|deviation from the prior| on each side and containing the prior. Looking up the index of a grid value and the value at an index are inverse to each other, an absent value raises ValueError, and changing limits, bins or scale flags makes the next request return the values for the new settings.",
  "every low < high, prior, number of points and scale flag",
  NOTEST + "even/odd numbers of points and asymmetric ranges are not sampled.",
  [PA], [("get_values, get_value_at, get_value_index, set_par", PA)], over=("inputs", "histories"))
p("C19", "A grid-search fit tests every grid point and finds the global minimum",
  "A grid search evaluates the function at every combination of the parameters' grid values, each exactly once, and stores the statistic and penalty under that combination's indices. It returns the statistic and the penalty at the point where their sum (per-bin statistics being summed first) is smallest over the whole grid, and sets every parameter's best-fit value and penalty term for exactly that point (penalty zero for parameters without a sigma), with either of the two search methods.",
  "every number of parameters up to two, every number of grid values, any function, per-bin and total mode, both search methods",
  NOTEST + "the minimiser tests use fixed functions on fixed grids and do not run here.",
  [MI, PA], [("minimise, _get_fit_par_values, _get_values, get_stats", MI)])
p("C20", "The built-in array minimiser returns the global minimum and its position",
  "Searching an array of any rank returns the smallest value in the whole array together with an index tuple of full length at which the array has that value; when the minimum is repeated, the position with the lowest coordinates (outermost first) is returned. The searched array is not changed.",
  "every rank from one to three, shape and content",
  NOTEST + "coordinate book-keeping across three or more axes and repeated minima are not sampled.",
  [MI], [("find_minimum, _update_coords", MI)])
p("C21", "Stored fit grids return what was stored, with penalties added once",
  "After storing statistics and penalties, point by point or as arrays, a grid search returns exactly the stored value at each index, and combined values are the statistic (summed over spectral bins in per-bin mode) plus the penalty of the same grid point, added once. Whole arrays of the wrong type or shape are refused (TypeError, ValueError) and leave the stored ones unchanged, and resetting gives all-zero grids of the shapes the configuration and mode require.",
  "every grid shape, content and sequence of stores",
  NOTEST + "no available test reads the grids back.",
  [MI], [("set_stat, set_stats, set_penalty_term, set_penalty_terms, get_stat, get_stats, get_penalty_term, reset_grids", MI)],
  over=("inputs", "histories"))
p("C22", "A limit is the first signal scale at which the statistic exceeds the threshold",
  "Setting a limit subtracts the zero-signal (or the supplied) statistic from that of each tested signal scale, adds the penalties, and returns the smallest tested scale, from the scale at which this value is lowest upwards, whose value is strictly above the threshold; from an array, the first scale whose entry is strictly above it. If no tested scale exceeds the threshold a limit error is raised, and an array of the wrong length is refused with a compatibility error.",
  "every number of scales, any statistics, threshold and minimum (a supplied minimum of zero included)",
  NOTEST + "nothing in the available tests sets a limit.",
  [LI, FR], [("get_limit, get_array_limit", LI), ("get_full_stats", FR)])
p("C23", "Configurations survive a dump and reload unchanged",
  "Dumping a spectrum, spectral-fit or global-fit configuration to its dictionary form and loading that dictionary again gives a configuration with the given name, the same parameters in the same order (for a global configuration: the global ones grouped by their dimension, then the per-spectrum ones), and for each parameter the same bounds, number of bins, prior, sigma, scale flags, dimension, current value, best fit and penalty term; per-spectrum parameters stay per-spectrum and global ones global. A dictionary without the expected top-level key or with an unknown fit-parameter kind is refused with KeyError or IndexError.",
  "every set of parameters and every attribute value",
  NOTEST + "no available test round-trips a configuration.",
  [CF, PA], [("dump, load", CF), ("to_dict", PA)])
p("C24", "Configuration look-ups agree with the order of the parameters",
  "In every configuration the list of parameters, look-up by name, look-up by position, the index of a name and the shape all describe the same parameters in insertion order: the parameter at the index of a name is the parameter of that name, the shape holds each one's number of bins in that order, and an unknown name is refused (with IndexError when its index is asked for). Adding a parameter or another configuration keeps the existing ones and makes the new ones available under their (spectrum-prefixed) names with the right kind; the dimension and type of an axis are the parts of its name before and after its last underscore.",
  "every configuration with any parameter names and numbers of bins, every sequence of additions",
  NOTEST + "no available test covers the look-ups.",
  [CF], [("get_index, get_par, get_par_by_index, get_shape, add_par, add_config, get_dims, get_dim, get_dim_type", CF)],
  over=("inputs", "histories"))
p("C25", "Decay conversions follow their formulas and are mutually inverse",
  "For every isotope, the number of atoms is that of the stated loading, abundance and scintillator mass; activity = ln2*N/T, counts = activity*livetime and 1/T = G*M^2*(m/m_e)^2, and each conversion followed by its inverse (half-life and activity, half-life and effective mass, activity and counts, counts and half-life, counts and effective mass) returns the starting value. Abundances and loadings outside 0..1, non-positive outer radius, effective mass and livetime are refused with ValueError, and explicit arguments always take precedence over the isotope's stored values.",
  "every positive physical parameter",
  "The module's own checks need a data file and cover single points; not run here.",
  [DE], [("DBIsotope conversions", DE)])
p("C26", "Event extractors apply the fiducial cut and return the right quantity",
  "For every event, each extractor accepts it exactly when the event passes that quantity's validity conditions (Monte Carlo present, or reconstruction succeeded with valid energy) and, when a fiducial radius is set, lies strictly inside it according to the position the extractor is configured to use; the value returned is the energy, the radius, (radius/outer radius)^3, or that with the sign of z (z = 0 counts as positive). The file formats (event objects and flat tuples) agree for the same triggered, reconstructed event, a fiducial cut on the reconstructed position of a Monte Carlo event with several triggers raises ValueError, and the factory builds the extractor matching the name, passing on fiducial radius, outer radius and external flag.",
  "every event content, fiducial and outer radius and option",
  "Extractors need RAT and ROOT, so no test here touches them.",
  [DX], [("function_factory and the extractor classes", DX)])
p("C27", "Filling from event files counts exactly the accepted events",
  "Filling a spectrum from a file fills once for every event accepted by the extractors of all its axes and inside its range, with that event's values, and increases the raw-event count by the number of such fills; other events change nothing, and the number of decays grows by the number of entries in the file. With the coincidence cut only event-object entries with exactly one triggered event, and flat-tuple entries that are the only triggered event of their decay (event index 0 and not followed by a later index, including the last entry of the file), are used, and the spectrum is flagged accordingly. A new spectrum without a name or configuration raises ValueError, and an axis no extractor exists for IndexError.",
  "every sequence of events and every acceptance pattern",
  "Needs RAT and ROOT; no test here touches it.",
  [FS], [("fill_from_root, fill_from_ntuple and the loops they use", FS)], over=("inputs", "histories"))
p("C28", "The fit compares data with fixed plus floating plus signal at the trial values",
  "At any trial parameter values the fit compares the data, projected on the region-of-interest axes, with the sum of the fixed background as given, every floating background at its trial rate and the signal, the floating backgrounds and the signal each after all global systematics have been applied at their trial values, and adds the penalty of every parameter that has a sigma, once. The spectra given to the fit may be restricted to the data's range and binning when the fit is set up but keep their content there and their scaling, so the result at given trial values does not depend on what was evaluated before.",
  "any number of backgrounds and parameters (up to two of each in the proofs), any content and trial values",
  "No available test runs a fit.",
  [FI, PA], [("_funct, _fit and the spectra setters", FI), ("apply_to", PA)], over=("inputs", "histories"))
p("C29", "Limit results return what was stored for each scale and parameter",
  "Best fits, penalties and statistics stored for a signal scale and parameter are returned for exactly that scale and parameter and leave all others unchanged; the full statistic of a scale is its statistic plus the penalties of all parameters at that scale, for one scale and for all scales alike, and a summary lists each parameter's best fit and penalty.",
  "every number of scales and parameters, every content, every sequence of stores",
  NOTEST + "results objects are not covered.",
  [FR], [("LimitResults and FitResults getters and setters", FR)], over=("inputs", "histories"))
p("C30", "Saved spectra and results load back unchanged",
  "Saving a spectrum, fit results or limit results to file and loading the file gives an object with the same names, configurations, content arrays, numbers of decays and raw events, coincidence flag, style and regions of interest. The string form of a dictionary of strings, integers and floats parses back to the same dictionary, and other value types are refused with TypeError.",
  "every content and configuration (text values without the separator characters)",
  "The storage tests need h5py and do not run here.",
  [ST], [("dump, load, dump_fit_results, load_fit_results, dump_limit_results, load_limit_results, dict_to_string, string_to_dict", ST)])
p("C31", "Names of pre-convolved spectra encode each parameter's current value",
  "The directory and file name of a pre-convolved spectrum append the systematic's directory once per dimension and put the current value with the systematic's suffix into the name, replacing an existing entry of the same systematic and appending otherwise, keeping all other parts; different current values always give different names (for a file with at most one entry of the systematic).",
  "every current value, directory and file name of the documented form",
  NOTEST + "no available test builds such names.",
  [PA], [("get_pre_convolved of the resolution, scale and shift parameters", PA)])
p("C32", "YAML configuration files keep the order of their entries",
  "Dumping an ordered dictionary to YAML and loading it again gives the same entries in the same order, at every nesting level.",
  "every nested dictionary of plain values",
  "No test round-trips a file; order is only visible with several entries.",
  ["echidna/util/yaml_loader.py"], [("ordered_load, ordered_dump", "echidna/util/yaml_loader.py")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))

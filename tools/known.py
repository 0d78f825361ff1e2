#!/usr/bin/env python3
"""source of /verif/known_findings.json"""
import json
F, X = [], []


def find(prop, harness, checks, what):
    F.append({"property": prop, "harness": harness, "checks": checks, "what": what})


for n in ("BakerCousinsLL", "Pearson", "Neyman"):
    find("C01", "integers_" + n, ["integer arrays with an empty bin"],
         "%s on integer arrays with an empty bin: the 1e-34 limit is written into the integer array and truncated to 0" % n)
    a = "observed" if n == "Neyman" else "expected"
    find("C03", "unchanged_" + n, [a + " unchanged in bins below the limit"],
         "%s writes 1e-34 into the caller's %s array wherever it is below 1e-34" % (n, a))
find("C02", "excess_BakerCousinsChiUp", ["per-bin values with an excess"],
     "BakerCousinsChiUp(per_bin=True) raises ValueError whenever a bin has observed > expected (_get_stats does not skip it)")


def fixed(prop, commit, what):
    X.append("fixed: property=%s %s %s" % (prop, commit, what))


fixed("C07", "394e477", "get_bin of a value equal to the upper bound returned the bin past the end")
fixed("C07", "0dda6b5", "round() rounded to multiples of the width instead of the bin edges when low is not a multiple of the width")
fixed("C10", "48f71ae", "shrink with an upper bound in the last bin but one etc. computed a float upper bin and failed when slicing")
fixed("C10", "9d0e439", "shrink extended an axis beyond its bounds for requests within the tolerance of a bound")
fixed("C10", "a9a6c0d", "shrink accepted a lower bound above the upper bound and left an empty spectrum")
fixed("C13", "6ba3774", "nd_project (and surface) summed over wrong axes when several dimensions are projected out")
fixed("C12", "e7e9d74", "a refused rebin left the bins of the first axes changed in the configuration")
fixed("C09", "4a3472b", "add accepted spectra with the same dimensions in a different order and added bins of different dimensions")
fixed("C14", "7ad8367", "whole-bin shifts whose floating point remainder is one width (such as 0.3 with width 0.1) were interpolated or refused")
fixed("C14", "390deeb", "bin-wise shift dropped slices whose content does not add up to more than zero")
fixed("C23", "97e6a50", "a fit parameter's dictionary did not hold its penalty term, so a reload lost it")
fixed("C23", "0744f7d", "loading a global fit configuration ignored the given name")
fixed("C23", "f81526a", "a global fit configuration without per-spectrum parameters could not be reloaded from its own dictionary")
fixed("C25", "55b91e9", "explicit zeros for loading, radius or density were replaced by the defaults in DBIsotope")
fixed("C17", "6c97499", "calc_smear_ly / calc_smear_resoluton replaced an explicit current value of 0 by the smearer's own")
fixed("C17", "6a9192e", "EnergySmearRes ignored the resolution in its (default) Poisson weights and always used 200 photons per MeV")
fixed("C16", "b75aaef", "weighted smearing never reached the last bin of the axis, losing its content when the width is small")
fixed("C31", "9d8130c", "names of pre-convolved spectra dropped zeros of whole-number and exponent values (200 -> 2, 1e-10 -> 1e-1), so different values shared a name")
fixed("C20", "1b0f4c8", "find_minimum of arrays of three or more dimensions failed (float multiplier in an index)")
fixed("C19", "1611f25", "grid search indices were floats, so the statistic could not be stored at them")
fixed("C19", "b1c8495", "minimise never checked the shape of per-bin results (the check was in the branch that raises for non-arrays)")
fixed("C21", "d4cdf18", "a grid search without a name had no name at all (the default was overwritten)")
fixed("C21", "4d5906b", "reset_grids gave the grids the per-bin shape whatever the mode of the grid search")
fixed("C21", "66ab5c1", "get_raw_stats at given parameter values looked parameters up by a non-existent method")
fixed("C21", "1ed93ba", "get_raw_stats_at failed when the search is not per bin (no axes left to strip)")
fixed("C29", "c5c3c9e", "get_limit_stat read an attribute that does not exist")
fixed("C29", "209ab25", "get_full_stats repeated the total over the bins when the stored statistics are per bin")
fixed("C18", "9742555", "get_value_index of an absent value raised TypeError (broken message) instead of ValueError")
fixed("C18", "b432809", "set_par failed on settings that are None (scale flags, sigma) and on unknown settings")
fixed("C18", "ce7b431", "set_par made the number of points a float, so get_values failed")
fixed("C18", "30a256d", "logscale_deviation gave a wrong number of values for most ranges, and not at all with a float count")
fixed("C26", "4cf631a", "events without a trigger or Monte Carlo particle were not rejected: the extractors compared the counting method itself with 0")
fixed("C26", "3be8a63", "the signed-radius extractors could not be created by the factory (and did not take the external flag)")
fixed("C26", "93d830a", "the reconstructed signed radius of an event object failed (misspelt methods) and took its sign from the wrong place")
fixed("C27", "0558001", "the last entry of a flat tuple was never filled with coincidence cuts, even when the only event of its decay")
fixed("C28", "5091df0", "shrinking or rebinning a copy changed the configuration object it shares with other spectra")
fixed("C28", "d8614f5", "RateParameter.apply_to scaled the given spectrum in place: after a rate of 0 its content was lost")
fixed("C28", "718cd9f", "only the last global parameter was applied to the signal")
fixed("C28", "3e0e411", "convolved spectra were remembered per background name, so spectra sharing a name got each other's")
fixed("C28", "96c0615", "convolved spectra were remembered under str() of the value (12 digits in Python 2): close values shared one")
fixed("C22", "1b874f3", "storing a limit imported a module that does not exist, so the limit module could not be used")
fixed("C22", "29af426", "a supplied minimum statistic of zero was recomputed and an array refused (truth value)")
fixed("C22", "1f8a344", "setting a limit failed in the log text of a parameter without sigma")
fixed("C22", "88ab952", "the search started at the scale of the minimum before penalties (of the flattened per-bin statistics)")
fixed("C30", "f91979f", "an empty plotting style was saved as no style, so a spectrum with one came back with the default style")
json.dump({"findings": F, "fixed": X}, open("/verif/known_findings.json", "w"), indent=1)

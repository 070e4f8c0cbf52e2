#!/usr/bin/env python3
"""Write /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe}})
RF = "py_fatigue/cycle_count/rainflow.py"; CC = "py_fatigue/cycle_count/cycle_count.py"
AG = "py_fatigue/cycle_count/utils.py"; HT = "py_fatigue/cycle_count/histogram.py"; UT = "py_fatigue/utils.py"
SN = "py_fatigue/material/sn_curve.py"; PC = "py_fatigue/material/crack_growth_curve.py"
SL = "py_fatigue/damage/stress_life.py"; CG = "py_fatigue/damage/crack_growth.py"
MS = "py_fatigue/mean_stress/corrections.py"; CY = "py_fatigue/geometry/cylinder.py"
CU = "py_fatigue/cycle_count/utils.py"

p("P01", "Turning points are exactly the reversals of the signal",
  "For every finite signal with at least two interior reversals, the turning-point positions start at the first sample, end at the last one, increase strictly, and in between list every sample where the signal changes direction (for a flat extremum or a flat start: its last sample) and no other. A signal with fewer than two such reversals has no turning points. A signal of two or more samples containing NaN is rejected with ValueError.",
  ["inputs"], "every 1-D signal of any length and any values, plateaus and repeated values included",
  "a reversal lost or invented depends on the pattern of ties and plateaus around it; tests compare a handful of recorded signals",
  [RF], [("crossing scan over the sign of the differences", "_findcross"), ("extrema and end points", "findextrema, findtp")], ["rainflow.findtp", "rainflow.findextrema"])
p("P02", "Rainflow cycles are those of the ASTM three-point rule",
  "For every sequence of turning points, the cycles returned (amplitude, mean, half or full, start time and period) are, in this order, exactly those the ASTM three-point rule extracts: while the last range is not smaller than the one before it, the earlier range is taken out as a full cycle, or as a half cycle if it contains the starting point; what remains is counted as half cycles; ranges of zero are no cycles. The counts without and with times agree.",
  ["inputs"], "every sequence of turning points and times, of any length",
  "the rule is a loop over an unbounded stack; which branch runs depends on the whole history of the signal",
  [RF], [("three-point stack machine", "_findrfc3_astm, _findrfc5_astm"), ("row trimming", "findrfc_astm")], ["rainflow.findrfc_astm", "rainflow.rainflow"])
p("P03", "Rainflow counting conserves the signal's variation",
  "For every signal, twice the count-weighted sum of the cycle ranges equals the total variation along the turning points, and the largest cycle range equals the difference between the largest and the smallest turning point. Every cycle has a positive range, a count of one half or one, and spans exactly two values of the signal, the first of them at the reported start position.",
  ["inputs"], "every signal with at least two interior reversals",
  "a conservation law over all signals; a lost or doubled cycle shows only for particular nestings",
  [RF], [("three-point stack machine", "_findrfc5_astm"), ("row trimming", "findrfc_astm")], ["rainflow.rainflow"])
p("P04", "The residual sequence joins the half cycles",
  "For every signal, the residual sequence returned with the cycles is the signal read at the returned positions and ends at the last sample; its consecutive differences are, in order, exactly the ranges of the half cycles. The returned times, when sampled times are given, are those of the same positions. A signal with fewer than two reversals has no cycle, and its last sample is left over.",
  ["inputs"], "every non-empty signal, with or without sampled times",
  "depends on the order in which half cycles leave the stack over an unbounded history",
  [RF], [("residual extraction", "rainflow"), ("half cycles of the stack machine", "_findrfc5_astm")], ["rainflow.rainflow"])
p("P05", "A counted time series carries its rainflow cycles",
  "For every time series, the cycle count built from it holds one entry per rainflow cycle with that cycle's full range (twice the amplitude), mean and count, in order, and the rainflow residual sequence. Its unit, name, timestamp and bin settings are those given; a lower bound of the means that is not given lies at most one bin below the smallest mean and not above it. Its minimum, maximum and amplitude stresses are the mean minus, the mean plus and half the range.",
  ["inputs", "configurations"], "every time series with at least one cycle and every combination of settings",
  "fixtures use one signal and mostly default settings",
  [CC], [("construction from a time series", "CycleCount.from_timeseries"), ("derived stresses", "CycleCount.stress_amplitude, min_stress, max_stress")], ["CycleCount.from_timeseries"])
p("P06", "Adding cycle counts loses nothing",
  "For every two cycle counts of the same unit in time order, the sum holds the cycles of the first followed by those of the second, with counts, ranges and means unchanged, the sum of their small cycles, their residual sequences and sequences of minima and maxima (the extremes of the residuals where a count has none) joined in order, their unit, all their timestamps, the smaller lower bounds and larger widths of their bins and the mean of their stress concentration factors; it is not marked as resolved, and neither operand is modified. Different units, and a second operand that starts before the first one ends, are rejected with TypeError. Adding nothing (None, zero, NaN) gives the first operand back.",
  ["inputs", "histories"], "every pair of cycle counts, also ones that are themselves results of earlier operations",
  "operands come from arbitrary histories of counting, scaling, correcting and adding; tests add two fixtures",
  [CC], [("sum", "CycleCount.__add__"), ("compatibility checks", "_cycle_count_add_checks")], ["CycleCount.__add__", "CycleCount.__radd__"])
p("P07", "Summing many cycle counts equals adding them one by one",
  "For every list of cycle counts in time order, possibly with missing entries, the progress-bar sum holds the cycles of all entries in list order with the total of the small cycles, the joined residual sequences and all timestamps, exactly as adding them one by one. Splitting a list into chunks keeps every element once and in order, with no chunk longer than requested.",
  ["inputs", "histories"], "lists of any length, including lengths that do not divide into equal chunks",
  "chunk boundaries depend on the square root of the length; tests use a few lengths",
  [CC, UT], [("chunked fold", "pbar_sum"), ("chunking", "chunks")], ["pbar_sum", "utils.chunks"])
p("P08", "Scaling a cycle count scales every stress and nothing else",
  "For every cycle count and every scalar, multiplying from either side multiplies all ranges, means, residuals, bin settings and the stress concentration factor by the scalar and leaves counts, number of small cycles, unit, timestamps and the resolved and corrected states as they were, without modifying the original. Anything but a scalar is rejected with TypeError.",
  ["inputs", "histories"], "every cycle count and every int or float factor",
  "fields are copied one by one; a forgotten field shows only for objects in which it is not at its default",
  [CC], [("scaling", "_multiplication_by_scalar")], ["CycleCount.__mul__", "CycleCount.__rmul__"])
p("P09", "Resolving low-frequency fatigue recounts the residuals only",
  "For every cycle count, resolving low-frequency fatigue gives the rainflow count of its residual sequence followed by its full cycles unchanged, with what that count leaves over as the new residual sequence; small cycles, minima and maxima, unit, timestamps, name, stress concentration factor and bin settings stay, and the result is marked as resolved. A count already resolved, or whose residuals hold no cycle to recount, comes back as it is, and the original is never modified. An unknown mode is rejected with ValueError.",
  ["inputs", "histories"], "every cycle count, whatever operations produced it, and every mode",
  "residual sequences come from arbitrary sums of histories",
  [CC], [("resolution", "_solve_lffd"), ("checks and choice of sequence", "_lffd_checks")], ["CycleCount.solve_lffd"])
p("P10", "Mean-stress correction factors follow their formulas",
  "For all arrays of mean stress and amplitude, the DNV correction multiplies each range by min(1, (max + f*|min|)/(max + |min|)), by 1 if the minimum is positive, and never by less than f when f is 0.8 (by 0 below f when f is 0.6); any other factor is rejected with ValueError. The Walker correction gives max^(1-gamma) * amplitude^gamma, zero where that is undefined, and Smith-Watson-Topper is Walker with gamma one half. The input arrays are not modified.",
  ["inputs"], "all real means and positive amplitudes, all exponents",
  "the factor is piecewise in the load ratio; tests sample a few ratios",
  [MS], [("DNV correction", "dnvgl_mean_stress_correction"), ("Walker and SWT", "walker_mean_stress_correction, swt_mean_stress_correction")], ["mean_stress.corrections"])
p("P11", "Correcting a cycle count changes only ranges and means",
  "For every cycle count not yet corrected, the mean-stress-corrected count has the ranges given by the chosen correction applied to the (low-frequency resolved) cycles, means of half the corrected range for the DNV rule and of zero for Walker and SWT, the same counts, small cycles, residual sequence, unit, name, stress concentration factor, timestamps and bin settings, and is marked as corrected. Nothing but zero means is rejected with ValueError unless pulsating loading is enforced, which then takes half the ranges for the means and otherwise changes nothing. A count already corrected comes back as it is, an unknown rule is rejected with ValueError, and the original is never modified.",
  ["inputs", "histories"], "every cycle count and every correction type and option",
  "depends on the state of the object (resolved, corrected, all-zero means) in combination",
  [CC, MS], [("correction of a cycle count", "CycleCount.mean_stress_correction")], ["CycleCount.mean_stress_correction"])
p("P12", "SN curves give the longest life of their segments",
  "For every SN curve with positive slopes and every non-negative stress range, the number of cycles to failure is the largest of 10^intercept * S^(-slope) over the segments, and infinite for zero stress or when it exceeds the endurance. It never increases when the stress range increases. A scalar gives a scalar, an array the same element by element; the older name n gives the same.",
  ["inputs", "configurations"], "every curve (any number of segments, any endurance) and every stress array",
  "the maximum over an arbitrary number of segments and the endurance cut-off are sampled only at a few points",
  [SN], [("life of all segments", "_calc_cycles"), ("scalar and array handling", "ensure_array, SNCurve.get_cycles")], ["SNCurve.get_cycles"])
p("P13", "Stress and life on an SN curve invert each other",
  "For every SN curve with positive slopes and every positive number of cycles not beyond the endurance, the life at the stress given for it is that number of cycles, and for every stress range above the endurance stress the stress at its life is that range. Beyond the endurance the stress stays at the endurance stress. The older name sigma gives the same stress.",
  ["inputs", "configurations"], "every curve and every finite life or stress range",
  "the two directions are separate code; agreement is needed on every segment and at the knees",
  [SN], [("stress of all segments", "_calc_stress"), ("life of all segments", "_calc_cycles")], ["SNCurve.get_stress", "SNCurve.get_cycles"])
p("P14", "SN curve knees join adjacent segments",
  "For every SN curve, each knee is the stress and the life at which two consecutive segments give the same life, and a curve with one segment has none. An endurance below a knee, and slopes and intercepts of different number, are rejected with ValueError at construction. The endurance stress is the stress given for the endurance.",
  ["inputs", "configurations"], "every curve with any number of segments",
  "knees are computed by separate formulas from slope and intercept pairs",
  [SN], [("knees", "SNCurve.get_knee_stress, SNCurve.get_knee_cycles"), ("endurance check", "SNCurve.endurance_stress")], ["SNCurve"])
p("P15", "Linear damage is the cycle count over the life",
  "For every cycle history and SN curve, the damage of each entry is its count divided by the cycles to failure at its range (zero for infinite life), whichever of the functional or data-frame interface is used, so damage is non-negative, proportional to the counts and additive under joining histories. Histories and curves with different units, and arrays of different length, are rejected with ValueError; data frames without the count, mean and range columns, or whose lives are already there, with AttributeError.",
  ["inputs"], "every history and every curve",
  "the same sum is implemented in several places that must agree for all inputs",
  [SL, SN], [("damage", "calc_pm, get_pm"), ("data-frame accessor", "PalmgrenMiner.damage")], ["stress_life.get_pm", "stress_life.calc_pm", "DataFrame.miner.damage"])
p("P16", "The damage-equivalent stress does the same damage",
  "For every history with positive slope and equivalent cycles, the damage-equivalent stress range raised to the slope, times the equivalent cycles, equals the count-weighted sum of the ranges raised to the slope; so it scales with the ranges and a single block at the equivalent cycles returns its own range. The damage-equivalent moment is that stress times the section modulus of the annulus, and radii in the wrong order are rejected with ValueError. All interfaces agree. The data-frame interface keeps the slope, the equivalent cycles and the radii it was last asked with.",
  ["inputs"], "every history, slope, number of equivalent cycles and pair of radii",
  "an algebraic identity over all inputs, tested at a few values",
  [SL], [("equivalent stress and moment", "calc_des, calc_dem, get_des, get_dem"), ("data-frame accessor", "PalmgrenMiner.des, PalmgrenMiner.dem")], ["stress_life.calc_des", "stress_life.calc_dem"])
p("P17", "The Gassner shift factor weights cycles by relative stress",
  "For every history and single-slope SN curve, the shift factor of each entry is its share of the total count times its stress relative to the largest one raised to the slope. Curves with several slopes are rejected, and so are data frames without the count, mean and range columns or with shift factors already.",
  ["inputs"], "every history and single-slope curve",
  "a formula over all histories; the tests use one",
  [SL], [("shift factor", "Gassner.g")], ["DataFrame.gassner.g"])
p("P18", "Nonlinear damage follows its recursion",
  "For every history, the nonlinear damage is the last term of D(i) = (D(i-1) + n(i)/N(i)) raised to e(i), where e(i) is the constant exponent for Leve and, with the last exponent 1, the life ratio N(i)/N(i+1) to the base exponent for Manson-Halford, the stress ratio S(i+1)/S(i) for Si-Jian, and the ratio of amplitudes over the ultimate stress to the base exponent for Pavlou. Unknown rules and different units are rejected with ValueError.",
  ["inputs", "histories"], "every sequence of blocks of any length and all rule parameters",
  "the result depends on the order of an unbounded sequence of blocks",
  [SL], [("exponents", "calc_manson_halford_exponents, calc_pavlou_exponents, calc_si_jian_exponents"), ("recursion", "calc_nonlinear_damage, get_nonlinear_damage")], ["stress_life.calc_nonlinear_damage"])
p("P19", "Paris curves give the growth rate of the right segment",
  "For every Paris curve with knees in order, the growth rate is zero below the threshold, infinite above the critical intensity, and otherwise intercept * K^slope of the segment between whose knees K lies; knees are where adjacent segments agree. The rates at threshold and critical value are those given for these intensities. Curves whose threshold, knees and critical value are not in order are rejected, as are slopes and intercepts of different number.",
  ["inputs", "configurations"], "every curve with any number of segments and every stress intensity",
  "segment selection is a search over arbitrarily many knees",
  [PC], [("growth rate", "_calc_growth_rate"), ("knees", "ParisCurve.get_knee_sif, ParisCurve.get_knee_growth_rate")], ["ParisCurve.get_growth_rate"])
p("P20", "Paris curve inversion returns the stress intensity",
  "For every Paris curve with knees in order and every stress intensity between threshold and critical value, the intensity given for its growth rate is that intensity again. Growth rates below the curve give the threshold, those above it the critical value.",
  ["inputs", "configurations"], "every curve and every stress intensity",
  "inversion is separate code that must pick the same segment everywhere",
  [PC], [("inverse", "_calc_sif"), ("growth rate", "_calc_growth_rate")], ["ParisCurve.get_sif"])
p("P21", "Crack growth integrates the Paris law cycle by cycle",
  "For every loading sequence, the crack depth starts at the initial depth and each step adds the growth rate at that step's stress intensity times its cycles, no growth below the threshold, so the depth never decreases. The calculation stops as failed at the first step whose geometry factor is zero, whose stress intensity reaches the critical value or that would grow the crack more than tenfold; otherwise it covers every step. Depths, intensities and factors have equal length, and the reported final cycles are the cycles of those steps.",
  ["inputs", "histories"], "every sequence of stress ranges and counts, every curve and supported geometry",
  "an integration over an unbounded sequence with four ways to end",
  [CG], [("growth rate at a depth", "CalcCrackGrowth.calc_growth_rate"), ("integration loop", "CalcCrackGrowth.calc_crack_depth"), ("stress intensity", "get_sif, get_geometry_factor")], ["crack_growth.get_crack_growth"])
p("P22", "Splitting blocks of cycles keeps every cycle",
  "For every history, the steps used for crack growth have the same total number of cycles per block as the history, at the block's stress range and in order; without express mode no step exceeds one cycle. The data-frame interface reports for each row the state at the last step of its block and nothing for blocks not completed. Cycle counts whose unit does not fit the curve are rejected with ValueError by the functional interface, and unsupported geometries by both; data frames without the count, mean and range columns, or with crack depths already, are rejected with AttributeError.",
  ["inputs", "configurations"], "every history with any positive counts, whole, half or fractional, in both modes",
  "the mapping between blocks and steps depends on all counts before it",
  [CG, UT], [("block splitting", "get_crack_growth, CrackGrowth.calc_growth, utils.split")], ["crack_growth.get_crack_growth", "DataFrame.cg.calc_growth"])
p("P23", "Geometry factors and stress intensities are consistent",
  "For every crack geometry, the stress intensity is stress * sqrt(pi * depth) * factor, the factor is 1 for the infinite surface and zero for a hollow cylinder once the depth reaches the thickness, and it does not change when all lengths are scaled together. A thickness not between the initial depth and the outer radius, an unknown crack position and non-positive dimensions are rejected.",
  ["inputs", "configurations"], "every depth, stress and admissible geometry",
  "a long closed formula sampled at a few depths; scaling is a relation between runs",
  [CG, CY], [("stress intensity", "get_sif, get_geometry_factor"), ("hollow cylinder factor", "f_hol_cyl_01"), ("validation", "HollowCylinder.thickness_validator, HollowCylinder.crack_position_validator")], ["crack_growth.get_sif", "geometry"])
p("P24", "Every full cycle falls into its bin",
  "For every set of full cycles, lower bound and bin width, the bin edges start at the lower bound, are one bin width apart and reach the largest full cycle; every full cycle not below the lower bound is assigned a valid bin whose edges enclose it, and its binned value is that bin's centre, within the rounding of edges to five decimals.",
  ["inputs", "configurations"], "all values, counts, lower bounds and widths",
  "edge cases sit at exact multiples of the width and at rounding of the edges",
  [UT], [("edges and indices", "calc_bin_edges, bin_upper_bound, FatigueStress")], ["StressRange", "MeanStress"])
p("P25", "Exporting a cycle count to a histogram loses no cycle",
  "For every cycle count, the exported histogram counts, large cycles and half cycles (each counting one half) add up to the count of its cycles not below the lower bound, and the exported small cycles are those it carries plus the number of its entries below the lower bound; each full cycle not below the lower bound is either in the histogram cell of its mean and range bin or listed unchanged among the large cycles. A cycle whose relative damage and binning error both exceed the tolerance is listed among the large cycles.",
  ["inputs", "configurations"], "every cycle count and every tolerance, exponent and bin setting",
  "which cycles are large depends on all others; binning is a loop over the sorted cycles",
  [HT, CC], [("binning loop", "rainflow_binner"), ("threshold", "rainflow_threshold"), ("export", "CycleCount.as_dict, _build_binned_dict")], ["CycleCount.as_dict", "histogram.rainflow_binner", "histogram.binned_rainflow"])
p("P26", "Importing a histogram restores its cycles",
  "For every exported dictionary, with or without mean stresses, the cycle count built from it has one entry per non-empty histogram cell at the cell's centre with the cell's count, then one full cycle per large cycle and one half cycle per residual, with the stated ranges and means, the stated small cycles, residual sequence and bin settings. Unknown keys and dictionaries without any cycle are rejected.",
  ["inputs", "configurations"], "every histogram shape, with any mix of empty parts",
  "the shape of the histogram is arbitrary and ragged",
  [CC], [("import", "_build_input_data_from_json, _assess_json_keys, CycleCount.from_rainflow")], ["CycleCount.from_rainflow"])
p("P27", "Full and half cycles partition a cycle count",
  "For every array of whole, half and mixed counts, each entry appears among the full cycles as many times as its whole part and among the half cycles exactly once if it has a remaining half, in order, with its stress. So whole parts plus half the number of half cycles add up to the total count.",
  ["inputs"], "all arrays of non-negative counts that are multiples of one half",
  "depends on the pattern of counts of an array of any length",
  [UT, CC], [("decomposition", "split_full_cycles_and_residuals, calc_full_cycles, calc_half_cycles"), ("properties", "CycleCount.full_cycles, CycleCount.residuals")], ["utils.calc_full_cycles", "CycleCount.full_cycles", "CycleCount.half_cycles"])
p("P28", "Equality means equal content",
  "For every two cycle counts, they compare equal exactly when all their fields are equal, arrays element by element; comparison with another type is false. The same holds for nested structures of like kind made of dictionaries, sequences, arrays and scalars.",
  ["inputs"], "every pair of objects",
  "a comparison that skips one field or one element agrees on almost all test pairs",
  [UT, CC], [("deep comparison", "compare"), ("equality", "CycleCount.__eq__")], ["CycleCount.__eq__", "utils.compare"])
p("P29", "Bins, moments and table of a cycle count describe its cycles",
  "For every cycle count with a full cycle not below its lower bounds, the bin edges of its means and ranges start at the lower bound, are one bin width apart and reach the largest full cycle, and the bin centres lie in the middle, within the rounding to five decimals. Its statistical moments are the mean m of the ranges of all full and half cycles, their standard deviation over m and their third central moment over m cubed. Its data frame lists counts, means and ranges in order with unit, name and settings. None of these changes the count.",
  ["inputs", "configurations"], "every cycle count, any mix of full, half and repeated cycles, and any bin setting",
  "each repeated and each half cycle weighs in; only a few counts are tested",
  [CC], [("bins", "CycleCount.bin_edges, CycleCount.bin_centers"), ("moments", "CycleCount.statistical_moments"), ("table", "CycleCount.to_df")], ["CycleCount.statistical_moments", "CycleCount.to_df", "CycleCount.bin_edges"])
p("P30", "Histogram values at points are those of their bins",
  "For all points and bin edges, the histogram made of the points counts each point once, with its weight, in the bin enclosing it, and coordinates of different lengths are rejected with ValueError. Mapping a histogram back gives every finite point inside the edges the value of the bin enclosing it, where lower edges and the last upper edge belong to the bin, and not-a-number outside. The points, the edges and the histogram are not changed.",
  ["inputs", "configurations"], "all point sets, increasing edges and histograms, points on edges and outside included",
  "points on an edge, on the last edge or outside in one direction only are rare in tests",
  [HT], [("histogram of points", "make_histogram"), ("values at points", "map_hist")], ["histogram.make_histogram", "histogram.map_hist"])
p("P31", "Aggregation by time window keeps every cycle",
  "For every table of cycle counts over increasing times, each window holds the sum of its counts, with low-frequency cycles resolved exactly when it covers more than one time, and for other columns the mean of the values present. Saved residuals are those of the windows one after the other. The aggregated damage is, per column and curve (of different names), the sum of the linear damages. Input that is not a frame or has no times is rejected with TypeError, times out of order or repeated with ValueError.",
  ["inputs", "configurations", "histories"], "every table, missing entries, window length and set of columns and curves",
  "what a window holds depends on how many counts fall into it and on missing entries",
  [AG, CC], [("resolution of a window", "solve_lffd"), ("aggregation", "aggregate_cc"), ("aggregated damage", "calc_aggregated_damage")], ["cycle_count.utils.aggregate_cc", "cycle_count.utils.calc_aggregated_damage"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")

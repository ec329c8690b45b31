"""Everything that is said about a property, in one place.  check.py takes the
rule and the assumptions from here; `python3 catalog.py` regenerates
properties.jsonl and MANIFEST.json."""
import json
import os

C = {}
# Multiplier of the number of generated cases of the quick tier.
SCALE = {"P01": 15, "P02": 3, "P03": 4, "P05": 6, "P06": 4, "P07": 6, "P08": 10, "P09": 3, "P10": 6, "P11": 4,
         "P12": 4, "P13": 2, "P14": 3, "P15": 6, "P17": 4, "P18": 3}


def P(pid, title, statement, over, qtext, why, files, mech, runs, rule,
      note, technique, assumptions=()):
    C[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, runs=runs, rule=rule, scale=SCALE.get(pid, 1), note=note,
                  technique=technique, assumptions=list(assumptions))


P("P01", "Jones corrections are applied as G_p V G_q^H to every visibility",
  "Applying per-station 2x2 gain matrices to visibilities replaces the 2x2 visibility of every channel of every "
  "baseline (p,q) between two different stations by G_p V G_q^H, whatever the memory layout of the data and of "
  "the coefficients. Nothing else is written: autocorrelations, coefficients and padding keep their values. "
  "Applying the inverse gains afterwards restores the original visibilities.",
  ["inputs"], "all numbers of stations, baselines, channels, all strides and axis orders, all gain and visibility values",
  "No unit test exercises this code; example tests use one dense layout and a few values.",
  ["base/Apply.h", "base/Apply.cc", "base/Cursor.h", "base/Baseline.h"],
  [("apply", "base/Apply.cc"), ("cursor arithmetic", "base/Cursor.h")],
  [("data", "P01.")],
  "Random station/baseline/channel counts, strided layouts with gaps in any axis order, random gains; "
  "non-trivial: at least one visibility is changed (round trip: at least one cross-correlation).",
  "Generated-input search against a direct 2x2 matrix-product reference plus an inverse-gains round trip; memory "
  "outside the addressed elements is compared byte for byte, ASan/UBSan on.",
  "property-based testing: reference model and inverse round trip over generated layouts")

P("P02", "Model subtraction removes exactly the weighted model, and reports its power",
  "Subtracting a mixed model from visibilities lowers every correlation of every channel of every baseline between two "
  "different stations by its mixing weight times the model, and leaves autocorrelations and everything outside the "
  "addressed elements untouched, whatever the memory layouts. Data equal to the weighted model becomes zero. The reported "
  "power before and after is the sum of squared amplitudes of the parallel-hand correlations that are not NaN.",
  ["inputs"], "all numbers of baselines and channels, all strides, weights, model and data values, NaNs included",
  "No unit test exercises this code.",
  ["base/SubtractMixed.h", "base/SubtractMixed.cc", "base/Cursor.h"],
  [("subtract", "base/SubtractMixed.cc")],
  [("data", "P02.")],
  "Random baseline/channel counts, strided layouts, random complex weights; non-trivial: at least one "
  "cross-correlation visibility is involved.",
  "Reference model over generated inputs, exact-model cancellation, untouched-memory comparison.",
  "property-based testing: reference model and cancellation relation")

P("P03", "Numbers and booleans in text are read exactly or rejected",
  "Converting text to an integer of any supported width and signedness or to a floating-point number yields "
  "exactly the value the text denotes (decimal or hexadecimal integers, surrounding blanks allowed, reals "
  "rounded to nearest), and a boolean is decided by its first letter or digit (t, y, 1 or f, n, 0, in either "
  "case). Text that is not entirely a number, or whose value does not fit the requested type, raises an error "
  "instead of giving a truncated, wrapped or partial value.",
  ["inputs"], "all strings: valid literals of every magnitude around each type's limits, malformed and padded text",
  "Unit tests sample a handful of literals; the type limits, sign handling and trailing-garbage space is unbounded.",
  ["common/StringTools.h", "common/StringTools.cc"],
  [("strToBool/strToShort/.../strToDouble", "common/StringTools.cc")],
  [("strings", "P03.")],
  "Literals built from a grammar (sign, base, digits around type limits, exponents, blanks, garbage); non-trivial: "
  "every case with a non-blank text, classified as accepted / out of range / malformed / hex.",
  "Differential check against an independent arbitrary-precision reader (integers) and strtod/strtof rounding (reals).",
  "property-based testing: grammar generators, independent reference reader",
  ["blank text is outside the domain (observed: read as zero)"])

P("P04", "Range and repeat shorthand in lists expands to the denoted list",
  "Expanding a list value with ascending or descending integer ranges, prefixes, suffixes and zero padding, and "
  "with repeat counts (nested ones included), yields the list a user reads from it, item by item and in order, "
  "with the padding width of the first number kept. Quoted strings and text that is not a range or repeat pass "
  "through unchanged, and an unterminated quote raises an error. Any other malformed text gives a result or a "
  "clean error, never a crash or an access outside the text.",
  ["inputs"], "all list texts over the shorthand grammar and arbitrary surrounding text",
  "Unit tests list some 60 example strings; the combinations of padding, nesting, quoting and signs are unbounded.",
  ["common/StringTools.cc", "common/StringTools.h"],
  [("expandRangeString, expandMultString, expandArrayString", "common/StringTools.cc")],
  [("strings", "P04.")],
  "List texts built from a generator that also knows their expansion; non-trivial: the text has at least one item that "
  "expands to something else than itself (or is malformed, in the malformed-text check).",
  "Constructive oracle: text and expected expansion are generated together; malformed text only needs clean rejection.",
  "property-based testing: constructive generator of text and expected expansion")

P("P05", "Text utilities tokenize, match patterns and trim exactly as documented",
  "Splitting at delimiters yields exactly the non-empty pieces in order, skipping blanks stops at exactly the "
  "first or last non-blank, case-insensitive ordering agrees with ordering upper-cased text, skipping quoted or "
  "bracketed text finds the matching end or reports imbalance, and formatting gives the exact text up to 10 kB. "
  "A station pattern with the wildcards * and ? matches precisely the names (letters, digits, dots, underscores "
  "and dashes) its glob meaning denotes.",
  ["inputs"], "all strings, delimiter sets, glob patterns and names",
  "Unit tests sample single strings per function.",
  ["common/StringTools.cc", "common/StringTools.h"],
  [("tokenize, PatternToRegex, compareTo/stringToLower, skipBalanced, skipQuoted, rtrim/ltrim, formatString",
    "common/StringTools.cc")],
  [("strings", "P05.")],
  "Strings over small alphabets that hit separators and metacharacters often; non-trivial: per check, e.g. non-empty "
  "text with non-empty delimiter set, or any pattern/name pair (classified match / no match).",
  "Independent reference implementations (naive glob matcher, naive splitter, stack-based bracket matcher).",
  "property-based testing: differential against naive reference implementations")

P("P06", "Parameter values keep structure, type, unit and order when read",
  "A parameter value is classified as scalar, list or record by its outer brackets, and its elements, at any "
  "nesting depth, with quotes, blanks and nested brackets, come back in order and unquoted as written; a "
  "printed record reads back as the same record. Reading a value as boolean, integer of any width, real, "
  "string, time (with its unit) or list of these, with ranges and repeats expanded on request, gives exactly "
  "the denoted values. A list with a missing or surplus bracket or quote raises an error.",
  ["inputs"], "all value texts of the list/record grammar and all target types",
  "No unit test covers nested values; type limits and units are sampled at most.",
  ["common/ParameterValue.h", "common/ParameterValue.cc", "common/ParameterRecord.h", "common/ParameterRecord.cc"],
  [("splitList, getVector, getRecord, getX", "common/ParameterValue.cc")],
  [("params", "P06.")],
  "Value trees rendered to text with random blanks and quoting; non-trivial: compound or quoted value, non-empty "
  "list, time with explicit unit.",
  "Model-based: the generated tree is the oracle for structure and typed getters.",
  "property-based testing: generated value trees, round trip",
  ["text before the first key of a record and unknown time units are outside the domain"])

P("P07", "A parameter set is a faithful, ordered-history key-value store",
  "After any sequence of adding, replacing, adopting files, buffers, subsets and arguments, subtracting, removing and clearing, a "
  "parameter set holds exactly the latest value per key (keys compared with or without case as chosen), and "
  "lookups, defaults, key matching, subsets with a prefix and the record of unused or unknown keys agree with that. "
  "Writing it to a file and reading it back, appended or overwritten, gives the same contents. Malformed lines are "
  "rejected with an error.",
  ["histories", "inputs"], "all operation histories on one or more sets, both case modes, all file contents",
  "Unit tests run a few fixed histories; the use-tracking and case-insensitive paths are not tested.",
  ["common/ParameterSet.h", "common/ParameterSet.cc", "common/ParameterSetImpl.h", "common/ParameterSetImpl.cc"],
  [("addUnlocked/replace/adopt/makeSubset/unusedKeys", "common/ParameterSetImpl.cc")],
  [("params", "P07.")],
  "Stateful: sequences of operations against a map model, compared after every step; non-trivial: at least two kinds of "
  "mutation and a non-empty result; files: every generated file.",
  "Model-based stateful testing against std::map plus an independent file-syntax renderer.",
  "stateful model-based property testing; write/read round trip")

P("P08", "Cluster node descriptions locate and round-trip files correctly",
  "The file system of a file is the mount point that is the longest whole-path-component prefix of its name. A node "
  "description written to text and read back, optionally with a prefix, is the same description. A parameter set "
  "twice for a data part holds the last value only.",
  ["inputs", "histories"], "all mount tables, file names, node descriptions and parameter histories",
  "Unit tests use one mount table.",
  ["common/NodeDesc.h", "common/NodeDesc.cc", "common/VdsPartDesc.cc"],
  [("findFileSys, write", "common/NodeDesc.cc"), ("addParm", "common/VdsPartDesc.cc")],
  [("params", "P08.")],
  "Random mount tables with nested and look-alike prefixes; non-trivial: more than one mount, or a repeated parameter.",
  "Reference longest-prefix search; write/parse round trip.",
  "property-based testing: reference model and round trip",
  ["duplicate mount points and a file equal to a mount point are outside the domain"])

P("P09", "Baseline numbering is a bijection between pairs and indices",
  "For any number of antennas and either ordering, the baseline numbers of all antenna pairs (autocorrelations "
  "included) are 0..n(n+1)/2-1 in the documented row- or column-major order, do not depend on the order of the "
  "two antennas, and converting a number back gives the pair. The list of baselines of an antenna holds, for "
  "every antenna including itself, the number of their common baseline.",
  ["inputs"], "every antenna count up to 60000, every pair, both orderings",
  "Unit tests check one small antenna count; the inverse uses floating-point square roots whose rounding depends on the "
  "size.",
  ["common/baseline_indices.h"],
  [("ComputeBaselineIndex, ComputeBaseline", "common/baseline_indices.h")],
  [("data", "P09.")],
  "Full enumeration for up to 90 antennas plus random pairs, biased to row/column ends, for up to 60000 antennas; "
  "non-trivial: more than two antennas.",
  "Closed-form reference in 128-bit integers and explicit enumeration.",
  "property-based testing: exhaustive small sizes, random large sizes",
  ["more than 60000 antennas is outside the domain (integer width)"])

P("P10", "Required fields of a chain of steps are computed as set algebra",
  "A collection of required or provided data fields behaves as a set under union and comparison, and its "
  "textual form lists exactly the members. The fields a chain of steps needs from its input are exactly those "
  "that some step requires and no earlier step provides, for any chain.",
  ["inputs", "histories"], "all subsets of fields, all chains of steps",
  "Unit tests check single operations on a few sets.",
  ["common/Fields.h", "common/Fields.cc"],
  [("UpdateRequirements and operators", "common/Fields.h")],
  [("data", "P10.")],
  "Random masks and chains of up to 8 steps; non-trivial: chain longer than one step with a non-empty result.",
  "Bit-mask reference and a forward simulation of the chain.",
  "property-based testing: algebraic laws and forward simulation")

P("P11", "Medians, human-readable units and timers report true values",
  "The median of a sequence is its middle value, or the mean of its two middle values (zero for an empty one), "
  "for every length and order. Times and frequencies printed with a unit prefix denote the number to the "
  "printed precision, with the mantissa in range. A timer reports exactly the sum and count of its start/stop "
  "intervals, through resets, merges and exceptions, and prints those values.",
  ["inputs", "histories"], "all sequences, all finite magnitudes, all start/stop/reset/merge histories",
  "Unit tests use short medians and a few magnitudes.",
  ["common/Median.h", "common/PrettyUnits.h", "common/PrettyUnits.cc", "common/Timer.h"],
  [("Median", "common/Median.h"), ("PrettyUnits", "common/PrettyUnits.cc"), ("BaseTimer", "common/Timer.h")],
  [("data", "P11.")],
  "Random sequences up to 25 elements with ties, magnitudes 1e-30..1e30, timer histories on a mock clock; "
  "non-trivial: more than two elements, non-zero value, more than one interval.",
  "Sorting reference; parse-back of printed value; model of intervals.",
  "property-based testing: reference model, parse-back, stateful timer model")

P("P12", "Byte order and bit packing conversions are exact inverses",
  "Converting arrays between byte orders reverses the bytes of every element of every supported type, touches "
  "nothing else, and applied twice restores the input. Packing booleans into bits and unpacking them gives back "
  "the same booleans, at any start bit and count, without changing the bits before the start or the bytes after "
  "the last one used, so pieces can be appended one after another.",
  ["inputs"], "all types, lengths, alignments, start bits and contents",
  "No unit test exercises this code.",
  ["common/DataConvert.h", "common/DataConvert.cc", "common/DataFormat.h"],
  [("byteSwap*, dataConvert, boolToBit, bitToBool", "common/DataConvert.cc")],
  [("data", "P12.")],
  "Random bytes, lengths and offsets with guard bytes; non-trivial: more than one element.",
  "Byte-reversal reference and round trip with guard regions.",
  "property-based testing: reference and round trip")

P("P13", "Linear least-squares solves return the least-squares solution",
  "For every full-rank complex system with one or more right-hand sides, the QR, SVD and normal-equations "
  "solvers report success and return the minimiser of the residual norm (SVD also the minimum-norm solution of "
  "underdetermined systems, which QR refuses), also when one solver object is reused. A system with an unknown "
  "no equation depends on is reported as failure by QR and normal equations. Solver names are recognised "
  "regardless of case and unknown names rejected.",
  ["inputs"], "all system sizes, right-hand sides, conditionings within single precision, methods",
  "Unit tests solve one or two fixed systems per method.",
  ["ddecal/linear_solvers/LLSSolver.h", "ddecal/linear_solvers/LLSSolver.cc", "ddecal/linear_solvers/QRSolver.h",
   "ddecal/linear_solvers/SVDSolver.h", "ddecal/linear_solvers/NormalEquationsSolver.h"],
  [("Solve", "ddecal/linear_solvers/QRSolver.h"), ("Make/ParseType", "ddecal/linear_solvers/LLSSolver.cc")],
  [("fit", "P13.")],
  "Random well-conditioned complex matrices up to 14x6 with up to 3 right-hand sides; non-trivial: more than one "
  "unknown and a non-zero right-hand side, classified by method.",
  "Optimality condition A^H(Ax-b)=0 within a float tolerance scaled by the system, minimum-norm condition.",
  "property-based testing: optimality (orthogonality) oracle",
  ["all-zero matrices with QR are outside the domain"])

P("P14", "Resampled solutions repeat each sub-solution over its own time span",
  "When directions have different numbers of solutions per interval, the resampled table has, for every output time, "
  "antenna, direction and polarisation, the sub-solution whose time span contains that time, and the mapping back to "
  "the original points to it. The number of output times per interval is the smallest that represents every direction "
  "if the largest count suffices, and always divides the interval. Constraint results are resampled the same way, "
  "keeping values, weights, names and residual dimensions.",
  ["inputs"], "all per-direction counts dividing the interval, antennas, channel blocks, polarisations, result shapes",
  "Unit tests use two fixed direction lists.",
  ["ddecal/SolutionResampler.h", "ddecal/SolutionResampler.cc"],
  [("Upsample, MapResampledToOriginal, GetNrSubSteps", "ddecal/SolutionResampler.cc")],
  [("fit", "P14.")],
  "Intervals and divisors chosen at random, every solution carries a unique id; non-trivial: directions differ in count.",
  "Direct definition by time spans, unique ids detect any misplacement.",
  "property-based testing: direct reference by definition")

P("P15", "Kernel smoothing is the weighted kernel average of its neighbourhood",
  "Smoothing a series over frequency gives at every channel the average of the data weighted by the given weights and by the "
  "kernel (rectangular, triangular, Gaussian or Epanechnikov) of the frequency distance relative to the bandwidth, "
  "which may vary with frequency (optionally truncated to the channels within about half the bandwidth). Constants are preserved, samples of zero weight do not matter, only relative weights "
  "matter, and a channel with no weight in reach has no value. Results do not depend on earlier use.",
  ["inputs", "histories"], "all channel grids, bandwidths, exponents, weights, data, kernels",
  "Unit tests cover one kernel on one grid.",
  ["ddecal/constraints/KernelSmoother.h"],
  [("Smooth, Kernel", "ddecal/constraints/KernelSmoother.h")],
  [("fit", "P15.")],
  "Random irregular channel grids up to 14 channels, all kernels, optional frequency-dependent bandwidth; non-trivial: "
  "more than three channels.",
  "Direct O(n^2) definition plus metamorphic relations (constant data, weight scaling, zero weights).",
  "property-based testing: reference definition and metamorphic relations",
  ["distances exactly on the kernel edge and underflowing Gaussian weights are discarded; the truncation window may be "
   "one channel wider than necessary"])

P("P16", "TEC phase fits recover the model from wrapped, noisy phases",
  "Fitting a TEC model, with or without a phase offset, to phases generated by such a model recovers it "
  "regardless of phase wraps, weights, a flagged channel, moderate noise, values passed in and earlier use; the "
  "fitted phases satisfy the model and the returned cost is their weighted mean distance to the data. Searching "
  "the parameters does not alter the data. The cost functions, the model functions and the TEC unit conversion "
  "equal their definition.",
  ["inputs", "histories"], "all TEC values in range, offsets, bands, weights, wraps, noise draws",
  "Unit tests fit two fixed models.",
  ["base/PhaseFitter.h", "base/PhaseFitter.cc"],
  [("FitDataToTEC1Model, FitDataToTEC2Model", "base/PhaseFitter.cc")],
  [("fit", "P16.")],
  "Random model parameters and bands of 12-40 channels between 115 and 185 MHz; non-trivial: every fit; cost: positive "
  "total weight and more than two channels.",
  "Ground truth from the generator, model identity, cost definition.",
  "property-based testing: ground-truth recovery and metamorphic relations")

P("P17", "TEC/offset/delay fitting finds the optimum over phase wraps",
  "The linear TEC/offset/delay fit is the weighted least-squares solution, the refinement never ends worse than its linear start, "
  "and the grid search recovers the phases of a noise-free model whose TEC and delay stay within the announced number "
  "of wraps, ignoring channels of zero weight. Evaluating a model gives its phases wrapped to [-pi,pi). A fit without an "
  "offset reports a zero offset.",
  ["inputs"], "all parameter values within the wraps, channel grids, weights, both objectives",
  "Unit tests fit a few fixed parameter sets.",
  ["ddecal/constraints/TecOffsetDelayFitting.h", "ddecal/constraints/TecOffsetDelayFitting.cc"],
  [("LinearTecOffsetDelaySolve, TecOffsetDelayGridSearch", "ddecal/constraints/TecOffsetDelayFitting.cc")],
  [("fit", "P17.")],
  "Random parameters, irregular grids of 4-40 channels, 1-4 wraps; non-trivial: every case.",
  "Orthogonality of the weighted residual, monotonic cost, ground-truth cost.",
  "property-based testing: optimality oracle and ground-truth recovery",
  ["without an offset the search is only claimed for bands wider than a factor 3"])

P("P18", "Piece-wise phase fits reproduce linear phases through wraps",
  "Fitting phases that are linear in frequency, wrapped into any 2 pi range, with or without weights, reproduces those phases modulo 2 pi, "
  "for every channel count and chunk size, piece-wise and sliding. Unwrapping changes values by whole turns only "
  "and leaves no jump above half a turn. The weighted median is one of the values with at most half the weight on either "
  "side.",
  ["inputs", "histories"], "all channel counts, chunk sizes, slopes within a turn per chunk, weights, wraps",
  "Unit tests use a few fixed series.",
  ["ddecal/constraints/PieceWisePhaseFitter.h"],
  [("PieceWiseFit, SlidingFit, WeightedMedian, Unwrap", "ddecal/constraints/PieceWisePhaseFitter.h")],
  [("fit", "P18.")],
  "Random lines, up to 40 channels, chunks of 0-14; non-trivial: more than four channels and chunk above two (median, "
  "unwrap: more than two values).",
  "Ground truth from the generator; definition of the weighted median.",
  "property-based testing: ground-truth recovery and definitional oracle")

for _f in ("catalog2.py", "catalog3.py", "catalog4.py", "catalog5.py", "catalog6.py", "catalog7.py", "catalog8.py", "catalog9.py", "catalog10.py", "catalog11.py", "catalog12.py", "catalog13.py", "catalog14.py"):
    _p = os.path.join(os.path.dirname(os.path.abspath(__file__)), _f)
    if os.path.exists(_p):
        exec(open(_p).read())

NOT_APPLICABLE = [
]


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for pid in sorted(C):
            c = C[pid]
            assert len(c["title"]) <= 80, (pid, len(c["title"]))
            f.write(json.dumps({
                "id": pid, "title": c["title"], "statement": c["statement"],
                "quantifier": {"over": c["over"], "text": c["qtext"]},
                "why_tests_cant": c["why"],
                "anchors": {"files": c["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in c["mech"]],
                            "hook_needed": None}}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py --build-all",
        "hooks": {"guard": "none", "enable": "no hooks are needed: the harnesses compile /repo's sources as they are",
                  "source_commits": []},
        "checks": [{
            "property": pid,
            "quick_cmd": f"python3 check.py {pid} quick",
            "thorough_cmd": f"python3 check.py {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": C[pid]["technique"],
            "level": "exploration",
            "level_note": C[pid]["note"] + " Bounded by the number of generated cases; no absence proof."
        } for pid in sorted(C) if C[pid]["runs"]],
        "not_applicable": NOT_APPLICABLE,
    }
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

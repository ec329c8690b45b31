SCALE.update({"P42": 3, "P43": 0.8})
STEPLIM = ["Compiled against small stand-ins of casacore, xtensor, aocommon and schaapcommon (shims/mini); expressions in the windows and thresholds use bl, iif and arithmetic."]
P("P42", "The MADFlagger flags exactly the outliers from the medians around them",
  "For every data set, input flags, windows, threshold (also as an expression of the baseline length), correlation list, baseline length range and autocorrelation mode, a sample gets flagged exactly if a selected correlation exceeds the median of the unflagged amplitudes in the window around it, mirrored at the ends of the band and the observation, by more than threshold x 1.4826 x the median absolute deviation; "
  "flagged samples keep their flag (the step asks for the existing flags), all correlations get the flag, with applyautocorr the cross-correlations get those of the autocorrelations of their antennas, each time slot comes out once, in order, with its data unchanged, also if fewer slots arrive than announced.",
  ["inputs", "histories"], "all data, flags and settings",
  "The unit tests use a handful of regular data sets and windows, and compare with simplified flags.",
  ["steps/MadFlagger.cc", "common/Median.h", "base/FlagCounter.cc"],
  [("process/finish/flag/computeFactors/getExprValues", "steps/MadFlagger.cc")],
  [("mad", "P42.")],
  "Up to 4 antennas, 9 channels, 9 time slots with exact amplitudes; non-trivial: at least one new flag and one sample that stays unflagged.",
  "Own implementation over the complete input: mirrored windows of the original flags, sorted medians.",
  "property-based testing: reference model over histories", STEPLIM)
P("P43", "The antenna flagger flags all baselines of outlier antennas and stations, only",
  "For every data set with all baselines, in row- or column-major order, the antennas found bad are those whose standard deviation and sum of squares, summed over their baselines, are both outliers within their station (AARTFAAC) or whose station is one among the stations, with the iterated sigma clipping around the median; "
  "the step flags all samples of all their baselines and no others, keeps existing flags and data, judges each time slot by itself, and refuses other sets of baselines.",
  ["inputs"], "all data sets, station layouts, sigmas and numbers of iterations",
  "Unit tests use one data set per function.",
  ["antennaflagger/Flagger.cc", "steps/AntennaFlagger.cc", "common/baseline_indices.h"],
  [("ComputeStats/FindBadAntennas/FindBadStations", "antennaflagger/Flagger.cc"), ("process/updateInfo", "steps/AntennaFlagger.cc")],
  [("mad", "P43.")],
  "1-16 stations, 1-48 antennas each, with weak, strong and dead antennas and stations and missing data; non-trivial: something is flagged. Cases with a value near a bound are left out.",
  "Own statistics and clipping in double precision.",
  "property-based testing: reference model", STEPLIM)

SCALE.update({"P29": 1.5, "P30": 5, "P31": 4, "P32": 4, "P33": 1})

P("P29", "Preflagging flags exactly the points its criteria and expressions select",
  "A visibility is flagged by preflagging exactly if it satisfies all given criteria (baselines by name patterns, correlation type, length, "
  "azimuth, elevation, lst, time of day, absolute and relative time, time slots, channels, frequency ranges, amplitude, phase, real and imaginary part per correlation) "
  "combined with the sub-keyword sets as the logical expression with its operator priorities and parentheses says; 'set', 'clear', 'setother' and 'clearother' act on "
  "exactly those points or their complement and touch nothing else (data, weights, other points); a selection that matches no channel, baseline or time selects nothing; "
  "malformed expressions, ranges and unknown modes are rejected. Baseline patterns (names, wildcards, alternatives, exclusion, auto and cross, length limits) select "
  "the same baselines whatever the order of stations.",
  ["inputs", "histories"], "all observations, criteria, expressions and modes",
  "Unit tests use a dozen fixed criteria on one fixed observation.",
  ["steps/PreFlagger.cc", "steps/PreFlagger.h", "base/BaselineSelection.cc", "base/FlagCounter.cc"],
  [("PSet", "steps/PreFlagger.cc"), ("exprToRpn/process", "steps/PreFlagger.cc"), ("apply/handleMSSel/handleBL", "base/BaselineSelection.cc")],
  [("flag", "P29.")],
  "Random observations and random criteria trees with spellings of ranges and units. Non-trivial: some but not all points selected, by at least one criterion or expression.",
  "Direct evaluation of the criteria per point and of the expression as a recursive tree.",
  "property-based testing: reference model", STEPLIM + [
  "Flags are equal for all correlations of a point (documented invariant of DPBuffer). Time-of-day ranges given with +- wider than half a day, and equality at length limits, are not claimed.",
  "Directions and sidereal times come from a simple stand-in of casacore's measures, used by model and code alike."])

P("P30", "UVW flagging selects exactly the given distances; uvw and flag counts are right",
  "Flagging on uvw flags a point exactly if one of its u, v, w or uv distances, in metres or in wavelengths of the channel, lies in one of the given ranges "
  "(or below the minimum or above the maximum), for the phase centre of the data or any other given direction in a given frame; nothing else changes. Recalculated uvw are "
  "antisymmetric, close over triangles, have the length of the baseline, and do not depend on which times or directions were asked before. Flag counts equal the number "
  "of newly flagged points per baseline, channel and correlation and add up over counters.",
  ["inputs", "histories"], "all observations, ranges, directions and orders of requests",
  "Unit tests use four fixed ranges.",
  ["steps/UVWFlagger.cc", "steps/UVWFlagger.h", "base/UVWCalculator.cc", "base/FlagCounter.cc"],
  [("process/testUVWm/doTestUVWl", "steps/UVWFlagger.cc"), ("fillUVW/handleCenter", "steps/UVWFlagger.cc"), ("getUVW", "base/UVWCalculator.cc"),
   ("countBaseline/add", "base/FlagCounter.cc")],
  [("flag", "P30.")],
  "Random observations, ranges in all spellings, directions and histories. Non-trivial: some but not all points flagged; several stations and times.",
  "Direct evaluation per point; geometric identities.",
  "property-based testing: reference model and invariants", STEPLIM)

P("P31", "Phase shifting moves data and uvw consistently to the requested direction",
  "Shifting the phase centre turns the visibilities of a point source in any direction, relative to the present centre, into those relative to the new centre, for every "
  "baseline, time, channel and correlation; uvw are the same baselines seen from the new direction (their lengths stay), the phasors offered to later steps are those applied, the metadata give the new "
  "centre; shifting back restores data and uvw; without a given centre the original phase centre is restored; weights, flags, times and other data are untouched; "
  "malformed centres are rejected.",
  ["inputs"], "all observations, directions and sources",
  "The unit test shifts two fixed directions.",
  ["steps/PhaseShift.cc", "steps/PhaseShift.h"],
  [("updateInfo/process/fillEulerMatrix", "steps/PhaseShift.cc"), ("handleCenter", "steps/PhaseShift.cc")],
  [("trans", "P31.")],
  "Random observations, centres in several spellings, point sources. Non-trivial: several baselines with length and a real shift.",
  "Geometric measurement equation of a point source in double precision; round trip.",
  "property-based testing: reference model and round trip", STEPLIM)

P("P32", "Added stations are the weighted sums of the stations they are made of",
  "Adding stations leaves existing stations, baselines and their data as they were and adds, for each new station with at least one part, a station at the mean position of its parts "
  "with a size that covers them, and one baseline to each other (also new) station that has a baseline with a part, plus the autocorrelation if asked for; its visibility is the sum or weighted "
  "mean of the unflagged visibilities of those baselines, conjugated where the order is reversed, its weight the sum of weights, flagged exactly if there are fewer unflagged points than required or "
  "no weight; its uvw is the weighted mean or calculated for the new position. Parts are given by names and patterns with exclusions; "
  "an existing name or a station used twice is rejected.",
  ["inputs"], "all observations, definitions, options, flags and weights",
  "The unit test has one array layout and three settings.",
  ["steps/StationAdder.cc", "steps/StationAdder.h", "common/StringTools.cc"],
  [("updateInfo", "steps/StationAdder.cc"), ("process", "steps/StationAdder.cc"), ("GetMatchingStations", "steps/StationAdder.cc")],
  [("trans", "P32.")],
  "Random arrays, definitions with patterns, all options. Non-trivial: at least one new baseline with some flagged inputs.",
  "Direct evaluation of the sums per new baseline.",
  "property-based testing: reference model", STEPLIM + ["Reversed baselines are conjugated per correlation, as documented by the existing test; no claim on swapping XY and YX.",
  "Writing the new stations to the measurement set's subtables (addToMS) is not checked."])

P("P33", "Scaling, combining, Stokes nulling and interpolation do exactly what they state",
  "Scaling multiplies each visibility with the square root of the product of the frequency polynomials of its two stations (first matching pattern, otherwise the default of the band, with the "
  "correction for used tiles where it applies), at the frequencies of that baseline, for regular and baseline-dependent data; combining adds or subtracts the named data and removes them; nulling sets exactly the chosen Stokes terms to zero "
  "and keeps the others; interpolation replaces exactly the flagged values by the Gaussian-weighted mean of the unflagged values around them in time and frequency of the same baseline and correlation, "
  "clears their flags, and leaves zero, flagged, values where there are none, for every length of the series. Everything else stays as it was; invalid settings are rejected.",
  ["inputs", "histories"], "all observations, settings, flags, data layouts",
  "Unit tests use one or two fixed settings per step.",
  ["steps/ScaleData.cc", "steps/Combine.cc", "steps/NullStokes.cc", "steps/Interpolate.cc"],
  [("updateInfo/process", "steps/ScaleData.cc"), ("process", "steps/Combine.cc"), ("process", "steps/NullStokes.cc"), ("process/interpolateSample", "steps/Interpolate.cc")],
  [("trans", "P33.")],
  "Random observations, rows and settings. Non-trivial: several baselines or rows and a setting with effect; interpolation with some neighbours.",
  "Direct evaluation per point in double precision.",
  "property-based testing: reference model", STEPLIM)

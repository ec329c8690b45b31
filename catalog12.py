H5LIM = ["H5Parm files, the lookup of values in them and the conversion of values to Jones matrices belong to schaapcommon, which is not available; stand-ins keep the files in memory, so only DP3's own part is decided (/verif/DESIGN.md)."]
SCALE.update({"P52": 10, "P53": 12})
P("P52", "Applying solutions multiplies each visibility by its gains, and nothing else",
  "For every set of baselines, channels and time slots, and every setting of ApplyCal and its substeps (own value, else that of the main step, else the default): each visibility becomes G_a V G_b^H with the gains (inverted unless invert is false) of its two stations at its own time, frequency and direction, in the order of the substeps and however the times are divided over chunks; with updateweights the weights follow the propagation of variances; "
  "a gain that is not finite flags all correlations of the sample and leaves its data; named model data are corrected for their own direction with the main data untouched; solutions come from an H5Parm file, a parameter database with its defaults, or the buffer; what cannot be applied is refused.",
  ["inputs", "configurations", "histories"], "all regular observations with four correlations; the settings of ApplyCal",
  "The unit tests check a few gains on one layout; wrong station, time, channel or direction indices show only for particular layouts and chunkings.",
  ["steps/ApplyCal.cc", "steps/OneApplyCal.cc", "steps/OneApplyCal.h", "parmdb/ParmFacade.cc", "base/DPBuffer.cc"],
  [("OneApplyCal::CorrectionLoop", "steps/OneApplyCal.cc"), ("ApplyCal::ApplyFull", "steps/ApplyCal.cc")],
  [("applycal", "P52.")],
  "Up to 4 stations, 4 baselines, 4 channels, 9 time slots, 3 directions, 3 substeps; non-trivial: some visibility changes.",
  "The measurement equation in double precision, one sample at a time.",
  "property-based testing: reference model", H5LIM + ["Zero weights together with full Jones or rotation gains, updateweights together with usemodeldata and the correction types' own formulas are not claimed."])
P("P53", "Solution files hold each solution at its place, and initial ones read back",
  "For every calibration mode, number of stations, directions, channel blocks, intervals and solutions per direction, the tables that are written hold, for each output time within the data, block, station, direction and polarization, the phase or amplitude of the solution for that interval and direction; the results of all constraints are written with their weights; axes, times, frequencies, polarizations, stations and directions describe them; "
  "initial solutions give back, for each station and block and for all solutions of a direction, the written value of the closest direction at the requested time; numbers of solutions per direction that do not fit the interval are refused.",
  ["inputs", "configurations"], "all calibration modes with solver results, and constraint results on antenna, direction, frequency and polarization axes",
  "The unit tests write one small case per mode; misplaced solutions show only for unequal dimensions and direction-dependent intervals.",
  ["ddecal/SolutionWriter.cc", "ddecal/SolutionResampler.cc", "ddecal/InitialSolutions.cc", "ddecal/Settings.cc"],
  [("SolutionWriter::Write", "ddecal/SolutionWriter.cc"), ("InitialSolutions::Read", "ddecal/InitialSolutions.cc"), ("Settings::PrepareSubSolutionsPerDirection", "ddecal/Settings.cc")],
  [("solwriter", "P53.")],
  "Up to 4 stations, 3 directions, 7 channels, 14 time slots; non-trivial: more than one value.",
  "The solutions that were passed to the writer, looked up directly, and a round trip.",
  "property-based testing: direct comparison and round trip", H5LIM)

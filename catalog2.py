SCALE.update({"P22": 20, "P23": 5, "P19": 20, "P20": 15, "P21": 40})

P("P19", "Sky-model components report the flux, shape and direction they were given",
  "A point or Gaussian component returns exactly the direction, Stokes parameters, shape and spectral and rotation-measure "
  "settings last given to it. At a frequency v its Stokes I is I (v/v0)^(c0 + c1 log10(v/v0) + ...) for logarithmic and "
  "I + c0 (v/v0-1) + c1 (v/v0-1)^2 + ... for ordinary spectral terms; with a rotation measure Q and U are the "
  "polarized fraction of that I times cos and sin of 2 (angle + RM lambda^2); V is constant. Inspecting components one after "
  "another with one ComponentInfo yields each component's own values only, and rejects spectra of more than three terms. "
  "A patch keeps its components in order; its direction is the (flux-weighted for PatchSumInfo) mean of the unit vectors.",
  ["inputs", "histories"], "all sequences of settings, numbers of terms, frequencies, directions including poles and the ra wrap",
  "No unit test evaluates a spectrum or a rotation measure, or reuses a ComponentInfo.",
  ["base/PointSource.cc", "base/PointSource.h", "base/GaussianSource.cc", "base/ComponentInfo.cc", "base/Stokes.cc",
   "sky_model/Patch.cc", "sky_model/Patch.h", "sky_model/PatchInfo.cc"],
  [("PointSource::stokes", "base/PointSource.cc"), ("inspect/visit", "base/ComponentInfo.cc"),
   ("ComputeDirection", "sky_model/Patch.cc"), ("PatchSumInfo::add", "sky_model/PatchInfo.cc")],
  [("model", "P19.")],
  "Random setter histories and evaluation frequencies; lists of mixed components; patches near poles and the ra wrap. "
  "Non-trivial: spectral terms or rotation measure set; at least two components inspected; at least two in a patch.",
  "Reference evaluation of the documented formulas in long double; model of the settings; vector mean of directions.",
  "property-based testing: reference model over generated setter histories and component lists",
  ["PatchInfo.cc is compiled against a small stand-in of casacore's MVAngle (only used for printing)."])

P("P20", "AARTFAAC files are decoded as recorded, at every position",
  "An AARTFAAC file is accepted only if its first packet header has the magic number and correlation mode 15. Every header "
  "field is decoded as stored, in full width. Whatever sequence of seeks, relative skips, metadata reads and reads is done, "
  "a read returns header times (in CASA seconds) and exactly the visibilities of the current timestep and advances by one, "
  "metadata reads do not move, the number of timesteps is the number of complete header+data blocks, and HasMore tells "
  "whether the position is before it. The antenna configuration yields the positions and axes written in the file (offset "
  "arrays added to their reference, comments and layout ignored), and missing or wrongly sized arrays raise an error. "
  "RCU mode numbers, names, bandwidths, central frequencies and offsets are mutually consistent.",
  ["inputs", "histories"], "all header contents, file lengths and operation sequences; all configuration file layouts",
  "Unit tests read one small file front to back.",
  ["aartfaac/PacketHeader.h", "aartfaac/File.h", "aartfaac/AntennaConfig.h", "base/RcuMode.h"],
  [("Check/VisPerTimestep", "aartfaac/PacketHeader.h"), ("SeekToTimestep/ReadTimestep", "aartfaac/File.h"),
   ("ReadArray", "aartfaac/AntennaConfig.h"), ("tables", "base/RcuMode.h")],
  [("model", "P20.")],
  "Random headers, files with random numbers of timesteps and partial tails, random operation histories; random "
  "configuration files. Non-trivial: several receivers and channels; at least two reads and a seek; at least two arrays.",
  "Byte-level encoder and position model of the file; generator's ground truth for the configuration.",
  "property-based testing: stateful model-based histories on generated files",
  ["AntennaConfig.h is compiled against a stand-in of casacore's MPosition that stores the coordinates."])

P("P21", "Solution type names map one-to-one to modes, and unknown names are rejected",
  "Every documented solution type name (and its legacy aliases) selects its own mode, converting a mode to text gives a "
  "name that selects the same mode again, the number of polarizations of a mode is 1 for scalar and TEC-like, 2 for diagonal "
  "and 4 for matrix modes, and any other text raises an error.",
  ["inputs"], "all strings, in particular near misses of valid names (case, blanks, prefixes, combinations)",
  "Unit tests only use a few names as test data.",
  ["base/CalType.h", "base/CalType.cc"],
  [("StringToCalType/ToString", "base/CalType.cc")],
  [("model", "P21.")],
  "Valid names with up to two random edits; non-trivial: at least one edit.",
  "Table of the documented names; round trip.",
  "property-based testing: round trip and mutation of valid names")

P("P22", "Axes and grids of the parameter database describe and locate cells exactly",
  "An axis holds exactly the cells it was made from, in every way of making it (regular or not, centre/width or start/end, "
  "sub-range, compression, union). Looking up a value gives the cell containing it, the left or right neighbour on an edge as "
  "asked, independent of the search hint and of rounding of the edges, or the next higher cell marked as not found. A sub-range "
  "contains exactly the cells that overlap it. The union of two axes contains both at the reported places, with one cell for a hole "
  "between them, and mismatching overlaps raise an error. Mapping one axis onto another gives every cell the cell containing its "
  "centre (the first, next or last one if there is none). A grid made of boxes or of grids in any order has those cells; cell "
  "numbers, locations, boxes and lookups are consistent; box union, intersection and containment are those of the point sets.",
  ["inputs"], "all axes and grids, with or without gaps, all query values including edges and rounding of edges",
  "The parmdb classes have no unit tests in the repository.",
  ["parmdb/Axis.cc", "parmdb/Axis.h", "parmdb/AxisMapping.cc", "parmdb/Box.cc", "parmdb/Box.h", "parmdb/Grid.cc", "parmdb/Grid.h"],
  [("find/subset/combine", "parmdb/Axis.cc"), ("AxisMapping", "parmdb/AxisMapping.cc"), ("setup", "parmdb/Grid.cc")],
  [("grid", "P22.")],
  "Random cell lists (exact arithmetic), queries on edges, centres, gaps and outside, random pieces and tiles. Non-trivial: edge "
  "queries on several cells; a proper sub-range; a union larger than both; a mapping with borders; grids of several cells.",
  "Brute-force reference on plain cell lists.",
  "property-based testing: reference model over generated axes, boxes and grids",
  ["Compiled against a stand-in of casacore's near()."])

P("P23", "Parameters evaluate, extend and store their values cell by cell",
  "On any grid of points a parameter has the value its stored polynomial (with x and y scaled to its domain cell) or scalar "
  "has in the cell containing the point, or in the nearest cell outside; the default if nothing is stored; perturbed results differ by exactly one perturbed "
  "coefficient. Rescaling a polynomial to another domain does not change the function. Extending the solve grid keeps all old "
  "values in place and initialises new cells with the nearest old ones. Setting coefficients changes exactly the addressed "
  "cell (and only solvable coefficients if masked), and flushing writes every changed parameter once, while the database is "
  "locked. Default values come from the most specific category of the name; a database is opened once, closed with its last user.",
  ["inputs", "histories"], "all grids, coefficient shapes, masks, extensions, and sequences of reads, updates and flushes",
  "The parmdb classes have no unit tests in the repository.",
  ["parmdb/Parm.cc", "parmdb/ParmValue.cc", "parmdb/ParmCache.cc", "parmdb/ParmSet.cc", "parmdb/ParmDB.cc", "parmdb/ParmDBLocker.cc"],
  [("getResultCoeff/getResultScalar/setCoeff", "parmdb/Parm.cc"), ("scale2/setSolveGrid", "parmdb/ParmValue.cc"),
   ("flush", "parmdb/ParmCache.cc"), ("getDefValue", "parmdb/ParmDB.cc")],
  [("grid", "P23.")],
  "Random grids, coefficients, predict grids, extensions; histories of reads/updates/flushes. Non-trivial: several cells "
  "or domains; extended grids; at least two updates and a flush; a default found by category.",
  "Long double evaluation of the polynomials; model of the parameter values; in-memory database that records locking.",
  "property-based testing: reference model and stateful histories",
  ["Compiled against stand-ins of casacore's arrays; the table storage (ParmDBCasa) is replaced by an in-memory one."])

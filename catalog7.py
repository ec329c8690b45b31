SKYLIM = ["Compiled against small stand-ins of casacore and aocommon (shims/mini); positions are written in the forms hh:mm:ss, XhYmZ, dd.mm.ss, XdYmZ, deg and rad, which the stand-in reads."]
SCALE.update({"P39": 1.2, "P40": 4, "P41": 0.6})
P("P39", "Sky model files are read and selected exactly as written",
  "For every sky model file and format (known, unknown, default, fixed and skipped fields in any order, separators, quotes, arrays, comments, line ends, format given in the file, separately or as argument) every source and patch has the name, position, fluxes, spectrum, shape and polarization the file gives or the documented default; "
  "patches with sources lie at the flux-weighted mean direction and have the total flux. The components built from them have those properties in radians: in particular Q and U at the reference wavelength are the given ones, for logarithmic and polynomial spectra. "
  "Patterns select exactly the matching patches, a cached model is the same at every use, and files that are wrong (undefined patch, unbalanced quotes or brackets, inconsistent rotation measure or position information, positions out of range, ...) are refused.",
  ["inputs", "histories"], "all sky model files, formats and selections",
  "Unit tests read one model of three sources with one format.",
  ["sky_model/ReadSkyModel.cc", "sky_model/SkyModel.cc", "sky_model/SkyModelFunctions.cc", "sky_model/SkyModelSelection.cc", "sky_model/SkyModelCache.h", "sky_model/Source.cc", "sky_model/SourceInfo.cc", "sky_model/PatchInfo.cc"],
  [("ReadSkyModel/ReadFormat", "sky_model/ReadSkyModel.cc"), ("FindPatches/addSource/addPatch", "sky_model/SkyModel.cc"), ("MakePatches/MakePatchList/CheckPolarized", "sky_model/SkyModelFunctions.cc")],
  [("sky", "P39.")],
  "Random models with their text in random formats, random patterns, one deliberate error; non-trivial: several sources, a proper selection, an erroneous file.",
  "The generated model; own glob matching, angle conversion, spectra and rotation of polarization.",
  "property-based testing: ground truth behind generated text", SKYLIM)
P("P40", "Grouping components into patches keeps every component, once",
  "For every list of patches and every proximity limit, clustering puts each component in exactly one patch, joins in order what is closer than the limit (also across the origin of right ascension and near the poles) and nothing else, gives each cluster its own name and the mean direction of its components; "
  "splitting gives each component a patch of its own with its own direction and name, and the source list has each component with its patch.",
  ["inputs"], "all patch lists and limits",
  "Unit tests cluster four sources at one place of the sky.",
  ["sky_model/SkyModelFunctions.cc", "common/ProximityClustering.cc", "sky_model/Patch.cc"],
  [("clusterProximateSources/makeOnePatchPerComponent", "sky_model/SkyModelFunctions.cc"), ("Group/GroupSource/Centroid", "common/ProximityClustering.cc")],
  [("sky", "P40.")],
  "Up to four patches of up to five components around any point of the sky; non-trivial: more than one component.",
  "Own agglomeration with great-circle distances; unit vector means.",
  "property-based testing: reference model and conservation", SKYLIM)
P("P41", "Direction-independent gain calibration finds gains that explain the data",
  "For every array, interval, mode (scalar, diagonal, phase only, amplitude only, full Jones) and data set, a solution reported as converged is, station by station, the best gain given those of the others within the tolerance and meets its constraint (unit amplitude, real and non-negative); for data corrupted with true gains it converges and the corrected model equals the data. "
  "Stations without data are flagged and get no solution, others do; the starting amplitude matches the data, an interval that starts from the previous solution continues from it, and stations without one start from the average amplitude of the rest.",
  ["inputs", "histories"], "all visibilities, models, flags, modes and starting solutions",
  "The unit tests only construct the step; integration tests need external data.",
  ["base/GainCalAlgorithm.cc", "base/GainCalAlgorithm.h"],
  [("doStep/relax/init/getSolution", "base/GainCalAlgorithm.cc")],
  [("stef", "P41.")],
  "Random models with true gains (with and without noise), stations without data; every case is non-trivial.",
  "Measurement equation with the solution; own per-station least squares (fixed point).",
  "property-based testing: ground truth and fixed-point relation",
  ["Compiled against small stand-ins of casacore and schaapcommon. Convergence is claimed for noiseless data with all baselines of the participating stations and gain phases within one radian."])

SIMLIM = ["Compiled against small stand-ins of xtensor and casacore (shims/mini); the smearing terms are single precision, which the tolerances allow for."]

SCALE.update({"P37": 4, "P38": 4})
P("P37", "Predicted visibilities follow the measurement equation for every source",
  "For every point and Gaussian source, phase centre, array, frequency and setting, prediction adds to each cross-correlation the source's flux at that frequency (I only, or the four correlations of I, Q, U and V) times the phase of the path difference between its stations, "
  "times the Gaussian's taper along and across its position angle (relative to the phase centre's or, when absolute, to the source's own north), times the decorrelation over the channel width and over the integration time exactly when asked for; sources add up, and "
  "autocorrelations stay as they were. Source directions and UVWs are transformed to another phase centre by the exact rotation, also behind the observer.",
  ["inputs", "histories"], "all sources, directions, arrays, frequencies, settings",
  "Unit tests predict one source for one array and check a few amplitudes.",
  ["base/Simulator.cc", "base/Simulator.h", "base/Simulate.cc"],
  [("visit/phases/spectrum", "base/Simulator.cc"), ("radec2lmn", "base/Simulator.h"), ("rotateUVW", "base/Simulate.cc")],
  [("sim", "P37.")],
  "Random sources (near, far and at the phase centre), arrays and frequencies, all settings; every case is non-trivial.",
  "The measurement equation with explicit vectors in double precision.",
  "property-based testing: reference model", SIMLIM)

P("P38", "Station UVWs reproduce all baseline UVWs, from the longest baselines",
  "For every set of baselines (also with autocorrelations, separate groups of stations and isolated stations), the station UVWs derived from a selection of baseline UVWs reproduce the UVWs of all baselines, with the first station of each group at the origin and exactly one baseline per other station. "
  "When station positions are given, the baselines used are those with the largest total length that still connect the stations, and sorting by length gives each baseline once, longest first.",
  ["inputs"], "all sets of baselines and stations, UVWs, positions",
  "Unit tests use two or three fixed arrays.",
  ["base/Simulate.cc"],
  [("SetupUvwSplitting/SplitUvw/GetBaselineSelection/GetBaselinesSortedByLength", "base/Simulate.cc")],
  [("sim", "P38.")],
  "Random baselines between up to nine stations in random groups; every case is non-trivial.",
  "Consistency of the differences; Kruskal's maximum spanning forest.",
  "property-based testing: ground truth and reference model", SIMLIM + ["Stations at exactly the same position are not generated with position-based selection."])

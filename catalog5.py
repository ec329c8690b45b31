SCALE.update({"P34": 4})
GAINLIM = ["Compiled against small stand-ins of xtensor, xsimd, aocommon and casacore (shims/mini); single precision rounding is allowed for in the tolerances."]

P("P34", "Each gain solver iteration is the least-squares step; solving recovers gains",
  "For every array, set of directions, number of channel blocks, solution interval and set of flags and weights, one iteration of the scalar, diagonal and full-Jones solvers (direct and iterative) "
  "changes the gains by the step size (in amplitude and phase where asked for) times the difference with the least-squares solution for each antenna given the gains of the others, over exactly the unflagged cross-correlations of that "
  "channel block and solution interval, all directions included; gains without data become not-a-number and are then set to the mean amplitude of their own polarization. "
  "Noiseless data corrupted by gains are reproduced by the solution. The number of iterations reported is the number done, at most the maximum, one more than the maximum exactly when not converged; "
  "the stopping criterion is the relative change of the gains; constraints are applied in each iteration; a hybrid solver uses its solvers in turn within the iterations that are left. "
  "The visibilities and model given are not changed.",
  ["inputs", "histories"], "all arrays, directions, intervals, gains, flags, weights, solver settings",
  "Unit tests solve a few fixed arrays and check the result loosely.",
  ["ddecal/gain_solvers/SolverBase.cc", "ddecal/gain_solvers/ScalarSolver.cc", "ddecal/gain_solvers/DiagonalSolver.cc", "ddecal/gain_solvers/FullJonesSolver.cc",
   "ddecal/gain_solvers/IterativeScalarSolver.cc", "ddecal/gain_solvers/IterativeDiagonalSolver.cc", "ddecal/gain_solvers/IterativeFullJonesSolver.cc",
   "ddecal/gain_solvers/HybridSolver.cc", "ddecal/gain_solvers/DiagonalLowRankSolver.cc"],
  [("Solve/PerformIteration", "ddecal/gain_solvers/ScalarSolver.cc"), ("Step/AssignSolutions/MakeSolutionsFinite", "ddecal/gain_solvers/SolverBase.cc"),
   ("RunSolver", "ddecal/gain_solvers/HybridSolver.cc")],
  [("gain", "P34.")],
  "Random arrays of antennas, directions, channel blocks, intervals, gains, flags and weights. Non-trivial: several antennas, and gains that differ from one.",
  "One iteration in double precision; ground truth of corrupted data; bookkeeping of iterations.",
  "property-based testing: reference model and ground-truth recovery", GAINLIM + [
  "The low-rank and antenna solvers are checked for recovery and convergence with one direction or small steps only. The LBFGS solver is not checked: its library is not available."])

SCALE.update({"P34": 3, "P35": 6})
P("P35", "Gain solvers get exactly the weighted data of each interval and channel block",
  "Before solving, data and model of every visibility are multiplied by the square root of its weight (or the weight itself in linear mode, which also stores the weights); a visibility of which any correlation is flagged, or any data or model value is not "
  "finite, becomes zero in data and all models; the unweighted input stays as it was, with its models exactly when asked to keep them. A solver's input then contains each cross-correlation of the solution interval exactly once, in the channel block of its channel, with "
  "its antennas, and per direction with the solution whose part of the interval it lies in; the number of solutions per direction is limited by the available time slots; counts per antenna and solution and the solution weights agree with those. "
  "For baseline-dependent data, each row belongs to the interval that contains its centre, an interval is complete exactly when each baseline has a row that starts after it, buffers come back once, in order, unweighted, as soon as all their rows are past; "
  "applied solutions corrupt the kept model of exactly the current interval per channel block, and rows that go back are rejected.",
  ["inputs", "histories"], "all arrays, numbers of times, channels and blocks, flags, weights, BDA layouts, and orders of adding, advancing and fetching",
  "Unit tests use a few fixed sizes and a fixed sequence of calls.",
  ["ddecal/gain_solvers/SolverTools.cc", "ddecal/gain_solvers/SolveData.cc", "ddecal/gain_solvers/SolveData.h", "ddecal/gain_solvers/BdaSolverBuffer.cc", "ddecal/gain_solvers/BdaSolverBuffer.h"],
  [("AssignAndWeight/Weigh", "ddecal/gain_solvers/SolverTools.cc"), ("SolveData", "ddecal/gain_solvers/SolveData.cc"), ("AppendAndWeight/AdvanceInterval/ApplySolutions", "ddecal/gain_solvers/BdaSolverBuffer.cc")],
  [("gdata", "P35.")],
  "Random arrays, data and histories. Non-trivial: some but not all visibilities zeroed; several baselines, times and channels; histories of several intervals with data.",
  "Set of expected visibilities per channel block; model of the buffer's history.",
  "property-based testing: reference model, stateful model-based generation", GAINLIM)

SCALE.update({"P36": 6})
P("P36", "Constraints make calibration solutions what they say, per antenna and interval",
  "Each constraint changes exactly the solutions it is meant for, for every number of channels, antennas, directions and intervals, and with values that are not finite. Rotation keeps the rotation part (exactly recovered from a rotation times a scalar); rotation-and-diagonal keeps a diagonal of the chosen kind "
  "times a rotation within half a turn (optionally relative to the first valid antenna), limits amplitudes to within five times the mean of that channel and solution and flags (weight -1) exactly those and invalid solutions; Faraday rotation recovers the rotation measure within the limit that is given and leaves a solution that satisfies it as it is; "
  "leakage sets the diagonal to one; amplitude-only removes phases; antenna groups and antenna intervals get the mean of their finite solutions; smoothing applies the weighted kernel per antenna, solution and polarization with their factors; TEC, TEC and phase, and TEC, offset and delay solutions are the phases of the fit to the "
  "unflagged channels, relative to a usable reference antenna. Results that are written have the values and weights of each antenna, direction and channel in the order of their axes, in the stated units. Invalid settings are rejected.",
  ["inputs"], "all solutions, sizes, frequencies, weights, settings, non-finite values",
  "Unit tests use one fixed size with equal values for all antennas.",
  ["ddecal/constraints/RotationConstraint.cc", "ddecal/constraints/RotationAndDiagonalConstraint.cc", "ddecal/constraints/FaradayConstraint.cc", "ddecal/constraints/PolarizationLeakageConstraint.cc",
   "ddecal/constraints/AntennaConstraint.h", "ddecal/constraints/AntennaIntervalConstraint.cc", "ddecal/constraints/SmoothnessConstraint.cc", "ddecal/constraints/TecConstraint.cc",
   "ddecal/constraints/TecOffsetDelayConstraint.cc", "ddecal/constraints/Constraint.cc", "common/PhaseLineFitter.h"],
  [("Apply", "ddecal/constraints/RotationAndDiagonalConstraint.cc"), ("PerformFit", "ddecal/constraints/FaradayConstraint.cc"), ("ApplyReferenceAntenna", "ddecal/constraints/Constraint.cc"),
   ("FitSlope", "common/PhaseLineFitter.h")],
  [("cons", "P36.")],
  "Random solutions with and without the structure the constraint looks for. Non-trivial: several antennas with several solutions or channels, averages over more than one value.",
  "Definition per solution; ground truth; for smoothing and TEC the fitters that P15 to P18 decide, applied to each series on its own.",
  "property-based testing: reference model and ground-truth recovery", GAINLIM + ["The screen constraint is not checked: its library is not available."])

SCALE.update({"P54": 12})
P("P54", "DDECal solves each interval from exactly its data and passes data on unharmed",
  "For every layout of baselines (with antennas that have none), intervals, channel blocks, predicted and reused directions and solver settings: the solutions written are those that the chosen solver gives for exactly the samples of that interval, with flags of the uv selection and of blocks with too few samples, weights per station that count all slots of the interval equally, and starting values of unity, of the interval before, or of a file at the mean time of the interval; the last solution is kept also if it covers one slot; "
  "buffers leave in order with time, weights, uvw and original flags, and data unchanged or reduced by the sum of the corrupted models of the two stations of each baseline; kept models are corrected and their directions published, others removed; onlypredict gives the sum of the models; settings that cannot be met are refused.",
  ["inputs", "configurations", "histories"], "all modes but the Faraday, screen and delay ones, the direction-solving, iterative and hybrid algorithms, with constraints",
  "The unit tests construct the step and run one layout with all antennas in use; wrong station numbers, interval ends and weights show only for other layouts.",
  ["steps/DDECal.cc", "steps/MultiResultStep.cc", "ddecal/SolverFactory.cc", "ddecal/Settings.cc"],
  [("DDECal::doSolve", "steps/DDECal.cc"), ("DDECal::ApplySolutionAndSubtract", "steps/DDECal.cc"), ("DDECal::doPrepare", "steps/DDECal.cc")],
  [("ddecal", "P54.")],
  "3 to 5 used antennas among up to 9, 7 time slots, 3 directions, intervals of up to 4 slots or all; non-trivial: several intervals, blocks or directions.",
  "A loop that prepares each interval on its own and calls the same solver, with its file compared table by table; residuals from the measurement equation; noiseless data must be explained.",
  "property-based testing: reference schedule around the solver, and recovery of the truth",
  H5LIM + ["The solvers and constraints are decided by other properties; here they are components on both sides.", "The predicted models come from a stand-in; model columns, IDG and SAGECal models are not generated.",
  "TEC modes with fewer than three channel blocks, and diverged solutions together with weighted constraints, are not compared."])

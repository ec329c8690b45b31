SCALE.update({"P44": 1, "P45": 1, "P46": 1})
P("P44", "Filter and the channel selection of the reader keep exactly what is selected",
  "For every data set, channel range (also as an expression of nchan), baseline selection and 'remove' setting, the Filter step keeps exactly the selected baselines and channels with their data, flags, weights, UVW and row numbers, and updates the channel, baseline and (with remove) station information accordingly; "
  "the reader's start channel and number of channels are clipped to the data or refused when outside, and every sample with a non-finite value gets all its correlations flagged, and only those, counted once.",
  ["inputs"], "all data sets and selections that match at least one baseline",
  "Unit tests check a few selections on regular data.",
  ["steps/Filter.cc", "steps/MsReader.cc", "base/DPInfo.cc"],
  [("Filter::updateInfo/process", "steps/Filter.cc"), ("ParseChannelSelection/FlagInfinityNan", "steps/MsReader.cc")],
  [("chain", "P44.")],
  "Up to 6 stations, 12 baselines, 12 channels; non-trivial: the selection leaves something out, a valid range, or a non-finite value.",
  "Direct indexing of the generated input; the functions of MsReader.cc, which needs casacore, are compiled on their own from the file's text.",
  "property-based testing: reference model", STEPLIM + ["A Filter selection that matches no baseline keeps all of them; this is not claimed either way."])
P("P45", "Steps only need the fields they ask for and change only what they provide",
  "For every step, settings and data set, and every chain of steps, running with only the fields that are asked for (the others absent or different) gives the same output as running with all of them; fields a step does not claim to provide pass unchanged; each step passes on each finish once.",
  ["inputs", "histories"], "all data, settings and chains of the 15 steps that can be built here",
  "Unit tests check the lists of fields, not whether a step keeps to them: a reader that skips a field that is needed gives wrong results or a crash.",
  ["steps", "base/DP3.cc", "common/Fields.cc"],
  [("getRequiredFields/getProvidedFields", "steps/*.h"), ("GetChainRequiredFields", "base/DP3.cc")],
  [("chain", "P45.")],
  "Up to 5 stations, 15 baselines, 6 channels and time slots, chains of 1-4 steps; non-trivial: some field is not asked for.",
  "Metamorphic: two runs compared exactly; a model of the fields needed by a chain.",
  "property-based testing: metamorphic relation between two runs", STEPLIM)
P("P46", "The parset and command line give exactly the chain of steps they describe",
  "For every parset (file, default file or arguments, which override the file), the chain has the listed steps, made by their type (in any case, by default the name without trailing digits) with the right prefix and kind of data, in order, with the reader, the output steps (update of the current measurement set for an empty name, '.', or its own name; else a new one) and the end as described; the reader reads what the chain needs, each output step writes what was provided since the previous one; "
  "unknown types, steps that do not take the data, updates of BDA data, no input or a missing msout are refused before any step runs, unused keys only when checkparset asks for it; a run initialises and shows every step, processes until the input ends, finishes once, and shows counts and timings when asked.",
  ["inputs", "histories"], "all parsets and command lines over all step types",
  "Unit tests make a few chains; the run from the command line is only tested with real measurement sets.",
  ["base/DP3.cc", "steps/Step.cc", "steps/OutputStep.h", "common/Fields.cc", "common/ParameterSet.cc"],
  [("MakeMainSteps/MakeStepsFromParset/MakeSingleStep/MakeOutputStep/Execute/ExecuteFromCommandLine", "base/DP3.cc")],
  [("dp3", "P46.")],
  "Up to 5 steps of all types; non-trivial: the chain can be made and has steps (and time slots for runs).",
  "Own model of the chain; the complete DP3.cc is compiled with stand-ins for the steps that record how they were made and called.",
  "property-based testing: reference model over histories", ["The steps are stand-ins (shims/dp3) whose fields and data types come from the parset."])

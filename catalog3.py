SCALE.update({"P24": 1, "P25": 1, "P26": 6, "P27": 8, "P28": 6})
STEPLIM = ["Compiled against small stand-ins of xtensor, aocommon and casacore (shims/mini), which keep the element order and "
           "value semantics the steps rely on; the measurement-set reader and writer are not part of the check."]

P("P24", "Metadata describe the data after every selection, averaging and antenna change",
  "Whatever sequence of channel selections, averaging, antenna selections, renumberings and (baseline-dependent) channel "
  "settings is applied to the metadata of an observation, and at whatever moments derived values were asked for in between: "
  "channel frequencies, widths, resolutions and effective bandwidths are those of the selected and averaged channels, the total "
  "bandwidth is their sum, the reference frequency is the centre of the band; the number of times and the interval follow the averaging, "
  "with the last interval complete; baselines keep joining the same stations by name and position; used antennas are exactly those in a "
  "baseline, consecutively numbered; baseline lengths and autocorrelation indices belong to the present baselines; channels reported as "
  "regular are regular; invalid requests are rejected and leave nothing half changed.",
  ["inputs", "histories"], "all observations and sequences of metadata changes and queries",
  "Unit tests do one change on one fixed observation and never query before and after.",
  ["base/DPInfo.cc", "base/DPInfo.h"],
  [("SelectChannels/SelectBaselines/update", "base/DPInfo.cc"), ("RemoveUnusedAntennas", "base/DPInfo.cc"),
   ("getBaselineLengths/getAutoCorrIndex", "base/DPInfo.cc"), ("BDAChanAvg/channelsAreRegular", "base/DPInfo.cc")],
  [("info", "P24.")],
  "Random observations and histories of up to a dozen changes and queries; random per-baseline channel settings. Non-trivial: "
  "at least two changes of which one selects or averages; several channel layouts; irregular channels.",
  "Model of the observation as plain lists of channels, stations and baselines.",
  "property-based testing: stateful model-based histories", STEPLIM)

P("P25", "Visibility buffers keep their contents through copies, moves and renames",
  "A buffer holds, per name and field, exactly what was last put there: adding, removing, renaming, moving and taking named data, copying a "
  "buffer with a choice of fields, moving and assigning never lose, mix up or share data between buffers; a copy is independent of "
  "its origin; fields that were not asked for stay absent. A baseline-dependent buffer accepts rows as long as they fit, reports its "
  "remaining capacity, gives every row (of any size, with or without fields) its own consecutive place in all data sets, in order and never overlapping, "
  "and keeps all that through copies with other fields and through adding and renaming named data.",
  ["inputs", "histories"], "all sequences of buffer operations, row sizes and choices of fields",
  "Unit tests do single operations on fixed buffers.",
  ["base/DPBuffer.cc", "base/DPBuffer.h", "base/BdaBuffer.cc", "base/BdaBuffer.h"],
  [("Copy/MoveData/AddData/RemoveData", "base/DPBuffer.cc"), ("AddRow/AddData/copy constructor", "base/BdaBuffer.cc")],
  [("info", "P25.")],
  "Random operation histories over several buffers and names. Non-trivial: at least two buffers or copies and named data.",
  "Model of every buffer as map from names to plain arrays, compared after every operation.",
  "property-based testing: stateful model-based histories",
  STEPLIM + ["Row numbers of a DPBuffer are shared by design (casacore vector); not claimed to be copied."])

P("P26", "Averaging is the weighted mean of the unflagged data and loses no weight",
  "For every time and channel step (given as counts or as resolutions): every input timeslot and channel contributes to exactly one "
  "output cell; its data are the mean of the unflagged input visibilities weighted by their weights, its weight the sum of those weights; "
  "a cell is flagged exactly if fewer than the required number or percentage of its points are usable; time, exposure and uvw are those of the "
  "averaged slots, also for the last incomplete interval; named extra data are averaged in the same way; the metadata announce exactly what is "
  "produced; flagged or zero-weight points never change unflagged results; averaging twice equals averaging once by the product.",
  ["inputs", "histories"], "all observation lengths, steps, flags, weights, thresholds, extra data",
  "Unit tests average constructed ramps with a few fixed steps.",
  ["steps/Averager.cc", "steps/Averager.h"],
  [("process/average/finish", "steps/Averager.cc"), ("getFreqHz/updateInfo", "steps/Averager.cc")],
  [("avg", "P26.")],
  "Random observations, steps, thresholds, NaN in flagged data. Non-trivial: real averaging of more than one slot or channel with some cell flagged or weighted.",
  "Direct evaluation of the weighted means in double precision; metamorphic relation between two-step and one-step averaging.",
  "property-based testing: reference model and metamorphic relation",
  STEPLIM + ["Fully flagged output cells carry the average of all samples; that is only checked against the present documented behaviour."])

P("P27", "Upsampling repeats every timeslot in regular order and merges overlaps",
  "Upsampling with an integer step produces for each input slot that many output slots, regularly spaced over the input interval, in order, with the same data, "
  "flags and weights; input slots that overlap because they were not regularly spaced are merged so that output times never repeat or go back, unflagged data winning over flagged; "
  "uvw are copied or recalculated for the new times; the announced number of times, interval, and first and last time are those of the output; an input "
  "without time slots is accepted, and a step below two rejected.",
  ["inputs", "histories"], "all time series, steps and overlaps of two neighbouring slots",
  "The unit test upsamples one fixed series.",
  ["steps/Upsample.cc", "steps/Upsample.h"],
  [("process/finish", "steps/Upsample.cc"), ("updateInfo", "steps/Upsample.cc")],
  [("avg", "P27.")],
  "Random series with gaps and overlaps; non-trivial: at least two slots.",
  "Model of the output series.",
  "property-based testing: reference model",
  STEPLIM + ["Overlaps of three or more consecutive slots are not claimed."])

P("P28", "Baseline-dependent averaging covers all data once; expansion inverts it",
  "For every baseline the averaged rows follow each other without gap or overlap and cover all timeslots; their number of slots and channels "
  "follows from the baseline length and the given bases, limits and resolutions and is within the limits; data are the weighted mean, weights the sum, of the unflagged "
  "visibilities, with exposure, interval, central time and mean uvw; named data are averaged alike; row numbers are unique and metadata announce the layout. "
  "Expanding returns, in time order and once per timeslot, every baseline's value at all slots and channels its row covers, with weights and intervals such that totals are kept, "
  "independent of the order of rows and their division over buffers; averaging an expanded series again gives the same rows.",
  ["inputs", "histories"], "all observations, averaging schemes, flags, weights, row orders and buffer divisions",
  "Unit tests use a few fixed factor combinations.",
  ["steps/BDAAverager.cc", "steps/BdaExpander.cc", "base/BdaBuffer.cc"],
  [("updateInfo/process/AddBaseline", "steps/BDAAverager.cc"), ("process/CopyData", "steps/BdaExpander.cc")],
  [("avg", "P28.")],
  "Random baselines and parameters; random row orders and buffer sizes. Non-trivial: some baseline averages and several timeslots.",
  "Direct evaluation of the means and of the expanded series; round trip average-expand-average.",
  "property-based testing: reference model, round trip and metamorphic relation",
  STEPLIM + ["Expansion is claimed for layouts in which at least one baseline keeps all channels (the expander takes the output channels from it)."])

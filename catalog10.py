MSLIM = ["The measurement sets are held in memory by stand-ins for the casacore tables (shims/mini/casa_tables.h), which model cells, selections, sorting, iteration and storage manager names, not the files; the steps' own code is the repository's."]
SCALE.update({"P47": 5, "P48": 8, "P49": 10, "P50": 10})
P("P47", "A reader gives exactly the selected rows, channels and times of its data",
  "For every measurement set (or list or pattern of sets that are joined in frequency) and every band, baseline, channel and time selection, column choice, sorting and weighting setting, the reader gives one buffer per time slot of the selection, with every visibility, flag, weight, UVW and row number from the right cell; missing time slots inside or before the selection are inserted, fully flagged, with zero data and weights; "
  "flags follow FLAG, FLAG_ROW, useflag and non-finite data; weights follow WEIGHT_SPECTRUM, WEIGHT or autoweight; the meta data describe what is given; only the fields asked for are needed; sets that are missing or lack the data column are filled in, flagged, if allowed; selections that are impossible and sets that do not fit together are refused.",
  ["inputs", "configurations"], "all regular measurement sets and settings; time selections at a slot's center or at least 0.2 interval from the edge of one",
  "The reader's unit tests need casacore and one stored data set with one band; they sample few selections.",
  ["steps/MsReader.cc", "steps/MultiMsReader.cc", "steps/InputStep.cc", "base/DPInfo.cc", "steps/ResultStep.cc"],
  [("MsReader", "steps/MsReader.cc"), ("MultiMsReader", "steps/MultiMsReader.cc"), ("InputStep::CreateReader", "steps/InputStep.cc")],
  [("ms", "P47.")],
  "Up to 4 stations, 6 baselines, 5 channels, 6 time slots, 3 bands, 4 joined sets; non-trivial: time slots are given.",
  "Reference model: direct indexing of the generated rows.",
  "property-based testing: reference model", MSLIM + ["Irregular times, baselines that differ between time slots, and a missing set without missingdata=true are not claimed."])
P("P48", "Updating a measurement set changes only what the steps changed",
  "For every measurement set, selection, chain of a reader, a step that changes or replaces some fields, and an update, exactly the cells of the selected rows and channels in the columns to write get the new values and every other cell stays as it was; FLAG_ROW is only cleared, for rows that got an unflagged sample; inserted time slots are not written; new columns are added with the right type and storage manager; "
  "the update asks the reader for everything it writes; compression with Dysco blanks flagged samples; history is written only if asked for; changed meta data, BDA sets, columns of a wrong type and unavailable storage managers are refused without touching a cell.",
  ["inputs", "configurations", "histories"], "all regular measurement sets, selections and output settings",
  "An update overwrites the user's only copy; the unit tests update all rows and channels of one data set.",
  ["steps/MSUpdater.cc", "steps/MsReader.cc", "steps/OutputStep.h", "base/StManParsetKeys.h"],
  [("MSUpdater", "steps/MSUpdater.cc")],
  [("ms", "P48.")],
  "Up to 4 stations, 6 baselines, 5 channels, 6 time slots, 3 bands; non-trivial: some cell is written.",
  "Reference model: a copy of all cells before the run with the model's values put in.",
  "property-based testing: reference model over the state before and after", MSLIM + ["Other rows and channels of a column that is added, and writing into a WEIGHT_SPECTRUM column without values, are not claimed."])
P("P49", "A column reader gives the visibilities of its column for the same rows",
  "For every measurement set, row selection and column (the setting, or the given default), the column reader replaces the visibilities by the cells of that column for the rows of the buffer, regular or BDA, and changes nothing else; buffers whose number of channels or correlations differ from the column, and changed meta data, are refused; it accepts and gives the type of data it was made for.",
  ["inputs"], "regular data without inserted time slots or sorting; BDA data with 4 correlations",
  "Unit tests read one column of one data set.",
  ["steps/MsColumnReader.cc", "steps/MsColumnReader.h"],
  [("MsColumnReader", "steps/MsColumnReader.cc")],
  [("ms", "P49.")],
  "Up to 6 baselines, 5 channels, 6 time slots, 8 BDA rows; non-trivial: some visibility is read.",
  "Direct indexing of the generated column.",
  "property-based testing: reference model", MSLIM)
P("P50", "Data written with baseline-dependent averaging are read back unchanged",
  "For every measurement set and averaging, the BDA data set that is written has one row per averaged sample, with its stations, times, visibilities, flags, row flag, weights and UVW, and windows with its frequencies, frame and name; reading it gives the same rows in the same order with the same values, and the same baselines, channels, averaging factors, directions and stations; msin.datacolumn selects the column; unsupported selections are refused.",
  ["inputs", "histories"], "all averaged regular data; flags are written but not read back",
  "The unit tests of the reader and the writer use stored or hand-made rows, not the round trip.",
  ["steps/MSBDAWriter.cc", "steps/MSBDAReader.cc", "steps/BDAAverager.cc", "base/BdaBuffer.cc", "base/DPInfo.cc"],
  [("MSBDAWriter", "steps/MSBDAWriter.cc"), ("MSBDAReader", "steps/MSBDAReader.cc")],
  [("ms", "P50.")],
  "Up to 4 stations, 6 baselines, 8 channels, 10 time slots; non-trivial: several windows or fewer rows than in the input.",
  "Round trip, and direct comparison of the tables with the rows that were written.",
  "property-based testing: round trip", MSLIM)

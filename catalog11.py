SCALE.update({"P51": 8})
P("P51", "A new measurement set holds all data and metadata as given, and reads back",
  "For every measurement set, selection, averaging and output setting, the set that is written has one row per baseline and time slot, in order, with the stations, time, exposure, interval, visibilities, flags, row flag, weights and UVW that were given; its windows, data description, phase center (with frame), observation times, beam keywords and history describe the data; all subtables are copies by value and the input is not changed; "
  "with a chunk duration the time slots are divided over numbered sets without loss; columns get the storage managers that were asked for, and only flagged samples are blanked for compression with Dysco; writing in the background gives the same result; the next step gets every buffer with the new row numbers; an existing set is only replaced if overwrite is set; reading the result gives the same data and metadata.",
  ["inputs", "configurations", "histories", "schedules"], "all regular measurement sets and settings without autoweight; the observation's time range with one chunk or several is that of the whole run",
  "The writer's unit tests need casacore and write a few rows of one data set; the output is what users keep.",
  ["steps/MSWriter.cc", "steps/MSWriter.h", "steps/OutputStep.h", "base/StManParsetKeys.h", "steps/MsReader.cc", "base/DPInfo.cc"],
  [("MSWriter", "steps/MSWriter.cc")],
  [("mswriter", "P51.")],
  "Up to 4 stations, 6 baselines, 5 channels, 8 time slots, 3 bands; non-trivial: some visibility is written.",
  "The buffers and metadata that were passed to the writer, and a round trip through the reader.",
  "property-based testing: direct comparison and round trip", MSLIM + ["copycorrecteddata and copymodeldata only make columns; not claimed. Data that pass a writer with Dysco compression to later steps are blanked where flagged; not claimed."])

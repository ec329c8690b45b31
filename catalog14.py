# Third part of the steps: transfers and clipping.
SCALE.update({"P55": 12})
P("P55", "Transfer puts each averaged sample where it came from; Clipper flags its model",
  "For every averaged source set and target (channel groupings, time factors, baselines that the source lacks, an earlier selection, inserted time slots): each selected baseline, channel and time slot of the target gets the data and flags of the source sample that covers it, in the main or a named buffer; everything else, and what was not asked for, keeps its value; sources that do not fit are refused. "
  "The clipper adds flags exactly where the model predicted for the latest multiple of timestep and freqstep exceeds amplmax (or the default of the antenna set) on the selected baselines, for all correlations if asked, and changes nothing else.",
  ["inputs", "configurations", "histories"], "Transfer, FlagTransfer and Clipper with their selections",
  "The unit tests use one averaged set without gaps; row numbering, uneven last channels and inserted slots show only for other layouts.",
  ["steps/Transfer.cc", "steps/FlagTransfer.cc", "steps/Clipper.cc", "steps/Filter.cc"],
  [("Transfer::TransferSingleTimeSlot", "steps/Transfer.cc"), ("FlagTransfer::process", "steps/FlagTransfer.cc"), ("Clipper::process", "steps/Clipper.cc")],
  [("transfer", "P55.")],
  "Up to 6 stations, 14 baselines, 12 target channels, 12 time slots; non-trivial: a selection, or several samples per source sample; for clipping: something clipped.",
  "Sample-by-sample lookup in the generated tables; flags computed from the table of amplitudes that the model stand-in returns, which also checks the baselines, uvw and frequencies it is asked for.",
  "property-based testing: reference model on generated sets and observations",
  MSLIM + ["The clipper's model comes from a stand-in for the predict step.", "Selections that match no baseline, target data outside the source, and unselected baselines of a named buffer are not claimed."])

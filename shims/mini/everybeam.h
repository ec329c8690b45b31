// Stand-ins for the parts of EveryBeam that read a measurement set.
#ifndef MINI_EVERYBEAM_H
#define MINI_EVERYBEAM_H
#include <stdexcept>
#include <string>
#include <EveryBeam/beammode.h>
#include "casa_tables.h"
namespace everybeam {
// The direction lies in a keyword when the telescope is LOFAR.
inline casacore::MDirection ReadTileBeamDirection(const casacore::MeasurementSet& ms) {
  if (!ms.keywordSet().isDefined("MINI_TILE_BEAM_DIR")) throw std::runtime_error("no tile beam direction");
  return ms.keywordSet().get<casacore::MDirection>("MINI_TILE_BEAM_DIR");
}
}  // namespace everybeam
#endif

#ifndef MINI_EVERYBEAM_BEAMMODE_H
#define MINI_EVERYBEAM_BEAMMODE_H
#include <cctype>
#include <stdexcept>
#include <string>
namespace everybeam {
enum class BeamMode { kNone, kFull, kArrayFactor, kElement };
enum class BeamNormalisationMode { kNone, kPreApplied, kPreAppliedOrFull, kAmplitude, kFull };
enum class CorrectionMode { kNone, kFull, kArrayFactor, kElement };
inline BeamMode ParseBeamMode(std::string s) {
  for (char& c : s) c = std::tolower(static_cast<unsigned char>(c));
  if (s == "none") return BeamMode::kNone;
  if (s == "full" || s == "default") return BeamMode::kFull;
  if (s == "arrayfactor" || s == "array_factor") return BeamMode::kArrayFactor;
  if (s == "element") return BeamMode::kElement;
  throw std::runtime_error("Invalid beam mode: " + s);
}
inline std::string ToString(BeamMode m) { static const char* n[] = {"None", "Full", "ArrayFactor", "Element"}; return n[int(m)]; }
}
#endif

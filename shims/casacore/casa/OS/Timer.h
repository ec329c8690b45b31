#ifndef CASACORE_TIMER_STANDIN_H
#define CASACORE_TIMER_STANDIN_H
#include <ostream>
#include <string>
namespace casacore {
class Timer {
 public:
  void mark() {}
  double real() const { return 0; }
  double user() const { return 0; }
  double system() const { return 0; }
  void show(std::ostream& o, const std::string& s) const { o << s << "\n"; }
};
}  // namespace casacore
#endif

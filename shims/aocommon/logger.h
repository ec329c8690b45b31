// Stand-in for aocommon/logger.h: same interface, discards the text.
#ifndef AOCOMMON_LOGGER_H
#define AOCOMMON_LOGGER_H
#include <iostream>
#include <ostream>
#include <sstream>
#include <string>
namespace aocommon {
enum class LogVerbosityLevel { kQuiet, kNormal, kVerbose };
inline LogVerbosityLevel StringToLogVerbosityLevel(const std::string& s) {
  if (s == "quiet") return LogVerbosityLevel::kQuiet;
  if (s == "verbose") return LogVerbosityLevel::kVerbose;
  return LogVerbosityLevel::kNormal;
}
class Logger {
 public:
  enum LoggerLevel { kNoLevel, kFatalLevel, kErrorLevel, kWarningLevel, kInfoLevel, kDebugLevel };
  template <LoggerLevel Level>
  class LogWriter {
   public:
    template <typename T>
    LogWriter& operator<<(const T&) {
      return *this;
    }
    LogWriter& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
    void Flush() {}
  };
  static inline LogWriter<kDebugLevel> Debug;
  static inline LogWriter<kInfoLevel> Info;
  static inline LogWriter<kWarningLevel> Warn;
  static inline LogWriter<kErrorLevel> Error;
  static inline LogWriter<kFatalLevel> Fatal;
  static inline LogWriter<kInfoLevel> Progress;
  static void SetVerbosity(LogVerbosityLevel) {}
  static bool IsVerbose() { return false; }
  static void SetLogTime(bool) {}
  static void SetLogMemory(bool) {}
};
}  // namespace aocommon
#endif

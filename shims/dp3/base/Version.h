#ifndef DP3_VERSION_STANDIN_H
#define DP3_VERSION_STANDIN_H
#include <string>
struct DP3Version { static std::string AsString(bool) { return "DP3 x"; } };
#endif

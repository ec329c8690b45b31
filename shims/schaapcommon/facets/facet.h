// Stand-in: IDG prediction is not built.
#pragma once
#include <string>
namespace schaapcommon { namespace facets {
class Facet { public: std::string DirectionLabel() const { return label; } std::string label; };
} }

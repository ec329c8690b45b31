// Stand-in: IDG prediction is not built.
#pragma once
namespace schaapcommon { namespace facets { class FacetImage {}; } }

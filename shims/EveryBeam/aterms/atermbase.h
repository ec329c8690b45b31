// Stand-in: IDG prediction is not built.
#pragma once
namespace everybeam { namespace aterms { class ATermBase {}; } }

// Stand-in: IDG prediction is not built.
#pragma once
namespace aocommon { class FitsReader {}; }

#ifndef MINI_EVERYBEAM_TELESCOPE_H
#define MINI_EVERYBEAM_TELESCOPE_H
namespace everybeam::telescope { class Telescope { public: virtual ~Telescope() {} }; }
#endif

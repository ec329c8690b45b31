#ifndef AOCOMMON_CHECKBLAS_H
#define AOCOMMON_CHECKBLAS_H
inline void check_openblas_multithreading() {}
#endif

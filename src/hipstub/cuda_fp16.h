// Stand-in for the CUDA half precision header and the device built-ins nsimd uses.
#ifndef VF_CUDA_FP16_H
#define VF_CUDA_FP16_H
#include "hip/hip_fp16.h"
#include "hip/hip_runtime.h"
typedef __half half;
#define VF_H1(name, ex) inline __half name(__half h) { double a = o_h2d(h.x); return vf_half(o_d2h(ex)); }
VF_H1(hceil, ceil(a)) VF_H1(hfloor, floor(a)) VF_H1(htrunc, trunc(a)) VF_H1(hrint, rint(a)) VF_H1(hsqrt, sqrt(a)) VF_H1(hrcp, 1 / a) VF_H1(hrsqrt, 1 / sqrt(a))
VF_H1(hcos, cos(a)) VF_H1(hsin, sin(a)) VF_H1(hexp, exp(a)) VF_H1(hexp2, exp2(a)) VF_H1(hexp10, exp10(a)) VF_H1(hlog, log(a)) VF_H1(hlog2, log2(a)) VF_H1(hlog10, log10(a))
#undef VF_H1
inline bool __hneu(__half a, __half b) { return o_h2d(a.x) != o_h2d(b.x); }
inline bool __hisnan(__half a) { return (a.x & 0x7fff) > 0x7c00; }
inline __half __hmin(__half a, __half b) { return __hisnan(a) ? b : __hisnan(b) ? a : o_h2d(a.x) < o_h2d(b.x) ? a : b; }
inline __half __hmax(__half a, __half b) { return __hisnan(a) ? b : __hisnan(b) ? a : o_h2d(a.x) > o_h2d(b.x) ? a : b; }
inline __half operator-(__half a) { return __hneg(a); }
#endif

// Stand-in for the ROCm half precision header, so that the GPU paths can be compiled and run on the host.
#ifndef VF_HIP_FP16_H
#define VF_HIP_FP16_H
#include "hip_stub_base.h"
extern "C" { unsigned short o_d2h(double); double o_h2d(unsigned short); unsigned short o_h_fma(unsigned short, unsigned short, unsigned short); }
struct __half {
  unsigned short x;
  __half() {}
  template <class I> __half(I f) : x(o_d2h((double)f)) {}
  operator float() const { return (float)o_h2d(x); }
};
inline __half vf_half(unsigned short u) { __half h; h.x = u; return h; }
inline float __half2float(__half a) { return (float)o_h2d(a.x); }
inline __half __float2half(float a) { return vf_half(o_d2h(a)); }
inline __half __hadd(__half a, __half b) { return vf_half(o_d2h(o_h2d(a.x) + o_h2d(b.x))); }
inline __half __hsub(__half a, __half b) { return vf_half(o_d2h(o_h2d(a.x) - o_h2d(b.x))); }
inline __half __hmul(__half a, __half b) { return vf_half(o_d2h(o_h2d(a.x) * o_h2d(b.x))); }
inline __half __hdiv(__half a, __half b) { return vf_half(o_d2h(o_h2d(a.x) / o_h2d(b.x))); }
inline __half __hfma(__half a, __half b, __half c) { return vf_half(o_h_fma(a.x, b.x, c.x)); }
inline __half __hneg(__half a) { return vf_half((unsigned short)(a.x ^ 0x8000)); }
inline __half __habs(__half a) { return vf_half((unsigned short)(a.x & 0x7fff)); }
inline bool __heq(__half a, __half b) { return o_h2d(a.x) == o_h2d(b.x); }
inline bool __hne(__half a, __half b) { double x = o_h2d(a.x), y = o_h2d(b.x); return x < y || x > y; } // ordered, as the hardware instruction
inline bool __hlt(__half a, __half b) { return o_h2d(a.x) < o_h2d(b.x); }
inline bool __hle(__half a, __half b) { return o_h2d(a.x) <= o_h2d(b.x); }
inline bool __hgt(__half a, __half b) { return o_h2d(a.x) > o_h2d(b.x); }
inline bool __hge(__half a, __half b) { return o_h2d(a.x) >= o_h2d(b.x); }
inline unsigned short __half_as_ushort(__half a) { return a.x; }
inline short __half_as_short(__half a) { return (short)a.x; }
inline __half __ushort_as_half(unsigned short a) { return vf_half(a); }
inline __half __short_as_half(short a) { return vf_half((unsigned short)a); }
#endif

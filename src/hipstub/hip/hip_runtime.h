// Stand-in for the ROCm runtime: a serial grid launcher and a device memory that the host cannot touch directly.
#ifndef VF_HIP_RUNTIME_H
#define VF_HIP_RUNTIME_H
#include "hip_stub_base.h"
typedef enum { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorOutOfMemory = 2 } hipError_t;
typedef enum { hipMemcpyHostToHost = 0, hipMemcpyHostToDevice = 1, hipMemcpyDeviceToHost = 2, hipMemcpyDeviceToDevice = 3 } hipMemcpyKind;
typedef void *hipStream_t;
extern "C" {
hipError_t hipMalloc(void **, size_t);
hipError_t hipFree(void *);
hipError_t hipMemset(void *, int, size_t);
hipError_t hipMemcpy(void *, const void *, size_t, hipMemcpyKind);
hipError_t hipDeviceSynchronize();
void vf_hip_enter(unsigned long long grid, unsigned long long block);
void vf_hip_leave();
}
#include <math.h>
inline double rsqrt(double a) { return 1.0 / sqrt(a); }
inline float rsqrtf(float a) { return (float)(1.0 / sqrt((double)a)); }
extern "C" { double vf_sinpi(double); double vf_cospi(double); }
inline double sinpi(double a) { return vf_sinpi(a); }
inline float sinpif(float a) { return (float)vf_sinpi(a); }
inline double cospi(double a) { return vf_cospi(a); }
inline float cospif(float a) { return (float)vf_cospi(a); }
inline const char *hipGetErrorString(hipError_t) { return "stub error"; }
extern unsigned hipThreadIdx_x, hipBlockIdx_x, hipBlockDim_x, hipGridDim_x;
#define hipLaunchKernelGGL(kernel, grid, block, shared, stream, ...) \
  do { \
    (void)(stream); unsigned long long vf_g = (unsigned long long)(grid), vf_b = (unsigned long long)(block); vf_hip_enter(vf_g, vf_b); \
    hipGridDim_x = (unsigned)vf_g; hipBlockDim_x = (unsigned)vf_b; \
    for (unsigned vf_i = 0; vf_i < vf_g; vf_i++) for (unsigned vf_j = 0; vf_j < vf_b; vf_j++) { hipBlockIdx_x = vf_i; hipThreadIdx_x = vf_j; (kernel)(__VA_ARGS__); } \
    vf_hip_leave(); \
  } while (0)
#define VF_AS(name, from, to) inline to name(from a) { to b; memcpy(&b, &a, sizeof b); return b; }
VF_AS(__uint_as_float, unsigned, float) VF_AS(__int_as_float, int, float) VF_AS(__float_as_uint, float, unsigned) VF_AS(__float_as_int, float, int)
VF_AS(__longlong_as_double, long long, double) VF_AS(__double_as_longlong, double, long long)
#undef VF_AS
#endif

// Behaviour of the stand-in ROCm runtime: every device block lives in its own guarded mapping that the host may
// only reach through the copy functions and kernels; misuse is reported.
#include "hipstub.h"
#include "mon.hpp"
#include "hipstub/hip/hip_runtime.h"
#include "hipstub/hip/hip_fp16.h"
#include "oracle.h"
#include <math.h>
#include <sys/mman.h>
unsigned hipThreadIdx_x, hipBlockIdx_x, hipBlockDim_x, hipGridDim_x;
struct Blk { unsigned char *map; size_t len; size_t n; };
static std::map<unsigned char *, Blk> &tab() { static std::map<unsigned char *, Blk> t; return t; }
static int arm_ = 0; static bool failed_ = false; static int depth = 0; static unsigned long long launches_ = 0, threads_ = 0; static bool relaxed_ = false;
static bool failing() { if (arm_ && --arm_ == 0) { failed_ = true; return true; } return false; }
static void prot(bool on) { if (relaxed_) return; for (std::map<unsigned char *, Blk>::iterator i = tab().begin(); i != tab().end(); ++i) mprotect(i->second.map + 4096, i->second.len - 8192, on ? PROT_READ | PROT_WRITE : PROT_NONE); }
static bool inside(const void *p, size_t n) { unsigned char *q = (unsigned char *)p; std::map<unsigned char *, Blk>::iterator i = tab().upper_bound(q); if (i == tab().begin()) return false; --i; return q >= i->first && q + n <= i->first + i->second.n; }
extern "C" {
void vf_hip_fail_in(int n) { arm_ = n; if (n) failed_ = false; }
int vf_hip_failed() { bool f = failed_; failed_ = false; return f; }
long vf_hip_live() { return (long)tab().size(); }
long vf_hip_size(void *p) { return tab().count((unsigned char *)p) ? (long)tab()[(unsigned char *)p].n : -1; }
unsigned long long vf_hip_launches() { return launches_; }
unsigned long long vf_hip_threads() { return threads_; }
int vf_hip_is_device(const void *p) { return inside(p, 0); }
hipError_t hipMalloc(void **p, size_t n) {
  if (failing() || n > (1u << 28)) { *p = (void *)(uintptr_t)0xdead0000; return hipErrorOutOfMemory; }
  size_t len = ((n + 15) / 16 * 16 + 4095) / 4096 * 4096; if (!len) len = 4096; Blk b; b.len = len + 8192; b.n = n;
  b.map = (unsigned char *)mmap(0, b.len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (b.map == MAP_FAILED) { *p = 0; return hipErrorOutOfMemory; }
  unsigned char *q = b.map + 4096 + len - (n + 15) / 16 * 16; tab()[q] = b; *p = q;
  mprotect(b.map + 4096, len, PROT_READ | PROT_WRITE); memset(b.map + 4096, 0xA5, len); if (!relaxed_ && !depth) mprotect(b.map + 4096, len, PROT_NONE); return hipSuccess;
}
hipError_t hipFree(void *p) { if (!p) return hipSuccess; std::map<unsigned char *, Blk>::iterator i = tab().find((unsigned char *)p); if (i == tab().end()) { mon::viol("hip/free", "hipFree of a pointer that is not a live device block (%s)", mon::st().ctx); return hipErrorInvalidValue; } munmap(i->second.map, i->second.len); tab().erase(i); return hipSuccess; }
hipError_t hipMemset(void *p, int v, size_t n) { if (failing()) return hipErrorInvalidValue; if (!inside(p, n)) { mon::viol("hip/memset", "hipMemset of %zu bytes outside a device block (%s)", n, mon::st().ctx); return hipErrorInvalidValue; } prot(true); memset(p, v, n); prot(false); return hipSuccess; }
hipError_t hipMemcpy(void *d, const void *s, size_t n, hipMemcpyKind k) {
  if (failing()) return hipErrorInvalidValue;
  bool dd = k == hipMemcpyHostToDevice || k == hipMemcpyDeviceToDevice, ds = k == hipMemcpyDeviceToHost || k == hipMemcpyDeviceToDevice;
  if (n && ((dd && !inside(d, n)) || (ds && !inside(s, n)) || (!dd && vf_hip_is_device(d)) || (!ds && vf_hip_is_device(s)))) { mon::viol("hip/memcpy", "hipMemcpy of %zu bytes, kind %d: an operand is not where the kind says or out of its block (%s)", n, (int)k, mon::st().ctx); return hipErrorInvalidValue; }
  prot(true); memcpy(d, s, n); prot(false); return hipSuccess;
}
hipError_t hipDeviceSynchronize() { return hipSuccess; }
void vf_hip_enter(unsigned long long g, unsigned long long b) { if (!g || !b || b > 1024) mon::viol("hip/launch", "launch of %llu blocks of %llu threads is not a valid configuration (%s)", g, b, mon::st().ctx); launches_++; threads_ += g * b; depth++; prot(true); }
void vf_hip_leave() { depth--; prot(false); }
void vf_hip_relaxed(int on) { if (on) prot(true); relaxed_ = on; }
unsigned short o_h_fma(unsigned short a, unsigned short b, unsigned short c) {
  double x = o_h2d(a), y = o_h2d(b), z = o_h2d(c); if (!isfinite(x) || !isfinite(y) || !isfinite(z)) return o_d2h(x * y + z);
  __float128 s = (__float128)x * y + z; if (s == 0) return o_d2h(x * y + z); double d = (double)s;
  if ((__float128)d != s) { uint64_t u; memcpy(&u, &d, 8); if ((__float128)(d < 0 ? -d : d) > (s < 0 ? -s : s)) u--; u |= 1; memcpy(&d, &u, 8); }
  return o_d2h(d);
}
double vf_sinpi(double a) { if (!isfinite(a)) return a - a; long double r = remainderl(a, 2.0L); if (r == 0 || r == 1 || r == -1) return copysign(0.0, a); return (double)sinl(3.14159265358979323846264338327950288L * (r > 0.5L ? 1 - r : r < -0.5L ? -1 - r : r)); }
double vf_cospi(double a) { if (!isfinite(a)) return a - a; long double r = fabsl(remainderl(a, 2.0L)); if (r == 0.5L) return 0; return (double)(r < 0.5L ? sinl(3.14159265358979323846264338327950288L * (0.5L - r)) : -sinl(3.14159265358979323846264338327950288L * (r - 0.5L))); }
}

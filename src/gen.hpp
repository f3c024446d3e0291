// Value generators and type facts for the eleven nsimd value types.
#ifndef VF_GEN_HPP
#define VF_GEN_HPP
#include "mon.hpp"
#include "oracle.h"
#include <nsimd/nsimd.h>
#include <cmath>
#include <limits>

template <class T> struct TI;
#define VF_TI(T, UU, SS, F, S) \
  template <> struct TI<T> { typedef UU U; typedef SS I; static const bool flt = F, sgn = S; \
    static const int w = 8 * (int)sizeof(T); static const char *nm() { return #T; } };
VF_TI(i8, uint8_t, int8_t, false, true) VF_TI(u8, uint8_t, int8_t, false, false)
VF_TI(i16, uint16_t, int16_t, false, true) VF_TI(u16, uint16_t, int16_t, false, false)
VF_TI(i32, uint32_t, int32_t, false, true) VF_TI(u32, uint32_t, int32_t, false, false)
VF_TI(i64, uint64_t, int64_t, false, true) VF_TI(u64, uint64_t, int64_t, false, false)
VF_TI(f16, uint16_t, int16_t, true, true) VF_TI(f32, uint32_t, int32_t, true, true)
VF_TI(f64, uint64_t, int64_t, true, true)
#undef VF_TI

template <class T> inline typename TI<T>::U bits(T x) { typename TI<T>::U u; memcpy(&u, &x, sizeof u); return u; }
template <class T> inline T frombits(uint64_t b) { typename TI<T>::U u = (typename TI<T>::U)b; T x; memcpy(&x, &u, sizeof u); return x; }

// exact value as double (floats) / sign-extended i64 or u64 as __int128 (ints)
inline double fval(f16 x) { return o_h2d(bits(x)); }
inline double fval(f32 x) { return (double)x; }
inline double fval(f64 x) { return x; }
inline bool isnan_(f16 x) { return (bits(x) & 0x7fff) > 0x7c00; }
inline bool isnan_(f32 x) { return (bits(x) & 0x7fffffffu) > 0x7f800000u; }
inline bool isnan_(f64 x) { return (bits(x) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
template <class T> inline bool isnan_(T) { return false; }
inline bool iszero_(f16 x) { return (bits(x) & 0x7fff) == 0; }
inline bool iszero_(f32 x) { return (bits(x) & 0x7fffffffu) == 0; }
inline bool iszero_(f64 x) { return (bits(x) & 0x7fffffffffffffffull) == 0; }
template <class T> inline bool iszero_(T x) { return x == 0; }
inline bool isinf_(f16 x) { return (bits(x) & 0x7fff) == 0x7c00; }
inline bool isinf_(f32 x) { return (bits(x) & 0x7fffffffu) == 0x7f800000u; }
inline bool isinf_(f64 x) { return (bits(x) & 0x7fffffffffffffffull) == 0x7ff0000000000000ull; }
template <class T> inline bool isinf_(T) { return false; }

template <class T, bool F> struct GenI;
template <class T> struct GenI<T, false> {
  static std::vector<T> boundary() {
    std::vector<T> r; typedef typename TI<T>::U U; const int w = TI<T>::w;
    U base[] = {0, 1, 2, 3, 5, 7, 10, (U)-1, (U)-2, (U)-3, (U)-7, (U)0x55555555AAAAAAAAull,
                (U)0xAAAAAAAA55555555ull, (U)0x0F0F0F0F0F0F0F0Full, (U)0x00FF00FF00FF00FFull, (U)0x0123456789ABCDEFull, (U)0xFEDCBA9876543210ull};
    for (U b : base) r.push_back((T)b);
    for (int k = 2; k < w; k++) {
      if (w == 64 && k % 8 > 1 && k % 8 < 7 && k != 52 && k != 53 && k != 12) continue;
      U p = (U)((U)1 << k);
      r.push_back((T)p); r.push_back((T)(U)(p - 1)); r.push_back((T)(U)(p + 1));
      if (TI<T>::sgn) { r.push_back((T)(U)(0 - p)); r.push_back((T)(U)(0 - p - 1)); }
    }
    return r;
  }
  static T rnd(mon::Rng &g) {
    uint64_t a = g.next();
    switch (g.below(4)) {
    case 0: return (T)(typename TI<T>::U)(a % 41 - 20);
    case 1: { int k = (int)(a >> 58) % TI<T>::w; return (T)(typename TI<T>::U)((a & 1) ? (a << 6 >> 6) >> (63 - k > 0 ? (63 - k < 64 ? 63 - k : 63) : 0) : ~((a << 6 >> 6) >> (63 - k))); }
    default: return (T)(typename TI<T>::U)a;
    }
  }
};
template <class T> struct GenI<T, true> {
  static const int E = TI<T>::w == 16 ? 5 : TI<T>::w == 32 ? 8 : 11;
  static const int M = TI<T>::w - 1 - E;
  static uint64_t mk(int s, int e, uint64_t m) { return ((uint64_t)s << (E + M)) | ((uint64_t)e << M) | (m & ((1ull << M) - 1)); }
  static std::vector<T> boundary() {
    std::vector<T> r; const int bias = (1 << (E - 1)) - 1, emax = (1 << E) - 1;
    for (int s = 0; s < 2; s++) {
      uint64_t all = (1ull << M) - 1;
      int es[] = {0, 1, 2, bias - M - 1, bias - M, bias - 2, bias - 1, bias, bias + 1, bias + 2, bias + 3, bias + 7, bias + M - 1, bias + M, bias + M + 1,
                  bias + 8, bias + 15, bias + 16, bias + 30, bias + 31, bias + 32, bias + 62, bias + 63, emax - 1};
      for (int e : es) {
        if (e < 0 || e >= emax) continue;
        r.push_back(frombits<T>(mk(s, e, 0))); r.push_back(frombits<T>(mk(s, e, 1)));
        r.push_back(frombits<T>(mk(s, e, all))); r.push_back(frombits<T>(mk(s, e, 1ull << (M - 1))));
        r.push_back(frombits<T>(mk(s, e, 3ull << (M - 2))));
        r.push_back(frombits<T>(mk(s, e, (1ull << (M - 1)) | 1)));
      }
      r.push_back(frombits<T>(mk(s, emax, 0)));
      r.push_back(frombits<T>(mk(s, emax, 1ull << (M - 1)))); // quiet NaN
    }
    return r;
  }
  static T rnd(mon::Rng &g) {
    uint64_t a = g.next(); const int bias = (1 << (E - 1)) - 1, emax = (1 << E) - 1;
    uint64_t b;
    switch (g.below(5)) {
    case 0: { // small integers and halves
      double v = ((double)(int64_t)(a % 163) - 81.0) / 2; if (TI<T>::w == 16) return frombits<T>(o_d2h(v));
      if (TI<T>::w == 32) { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return frombits<T>(u); }
      uint64_t u; memcpy(&u, &v, 8); return frombits<T>(u); }
    case 1: b = mk((int)(a & 1), bias - 6 + (int)((a >> 1) % 13), a >> 12); break;
    case 2: b = mk((int)(a & 1), (int)((a >> 1) % 3), a >> 12); break; // denormal area
    default: b = mk((int)(a & 1), (int)((a >> 1) % emax), a >> 12); break;
    }
    return frombits<T>(b);
  }
};
template <class T> struct Gen : GenI<T, TI<T>::flt> {};

// --- SIMD plumbing ---------------------------------------------------------
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
#ifdef VF_GPU
inline const char *ext_name() { return VF_GPU; }
#else
inline const char *ext_name() { return VF_STR(NSIMD_SIMD); }
#endif
template <class T> struct VT {
  typedef typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vector v;
  typedef typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorl l;
  typedef typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx2 v2;
  typedef typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx3 v3;
  typedef typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx4 v4;
};
template <class T> inline int vlen_() { return nsimd::len(T()); }
template <class T> inline std::string hex(T x) { char b[40]; snprintf(b, sizeof b, "0x%0*llx", TI<T>::w / 4, (unsigned long long)bits(x)); return b; }
inline std::string key(const char *op, const char *t, const char *surf) { return std::string(ext_name()) + "/" + op + "/" + t + "/" + surf; }

#define VF_FOR_INT(M) M(i8) M(u8) M(i16) M(u16) M(i32) M(u32) M(i64) M(u64)
#define VF_FOR_FLT(M) M(f16) M(f32) M(f64)
#define VF_FOR_ALL(M) VF_FOR_INT(M) VF_FOR_FLT(M)
#endif

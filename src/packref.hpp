// Scalar references and per-lane judges shared by the pack API harnesses.
#ifndef VF_PACKREF_HPP
#define VF_PACKREF_HPP
#include "surf.hpp"
#include <nsimd/cxx_adv_api_aliases.hpp>
#include <sstream>
#include <cctype>
#if defined(AVX512_SKYLAKE) || defined(AVX512_KNL)
#define VF_LOW avx2
#elif defined(AVX2)
#define VF_LOW sse42
#elif defined(AVX)
#define VF_LOW sse2
#elif defined(SSE42) || defined(SSE2)
#define VF_LOW cpu
#endif
namespace X { // scalar reference
template <class T, bool F = TI<T>::flt> struct A;
template <class T> struct A<T, false> {
  typedef typename TI<T>::U U;
  static T add(T a, T b) { return (T)(U)((uint64_t)(U)a + (U)b); } static T sub(T a, T b) { return (T)(U)((uint64_t)(U)a - (U)b); }
  static T mul(T a, T b) { return (T)(U)((uint64_t)(U)a * (uint64_t)(U)b); } static T div(T a, T b) { return (T)(a / b); } static T neg(T a) { return (T)(U)(0 - (uint64_t)(U)a); }
  static bool divok(T a, T b) { return b != 0 && !(TI<T>::sgn && b == (T)-1 && bits(a) == (U)((U)1 << (TI<T>::w - 1))); }
  static bool lt(T a, T b) { return a < b; } static bool eq(T a, T b) { return a == b; }
};
inline f32 back(double v, f32) { return (f32)v; } inline f64 back(double v, f64) { return v; } inline f16 back(double v, f16) { return frombits<f16>(o_d2h(v)); }
inline f32 op(int k, f32 a, f32 b) { volatile f32 x = a, y = b; return k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y : x / y; }
inline f64 op(int k, f64 a, f64 b) { volatile f64 x = a, y = b; return k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y : x / y; }
inline f16 op(int k, f16 a, f16 b) { return back(op(k, fval(a), fval(b)), f16()); }
template <class T> struct A<T, true> {
  static T add(T a, T b) { return op(0, a, b); } static T sub(T a, T b) { return op(1, a, b); } static T mul(T a, T b) { return op(2, a, b); } static T div(T a, T b) { return op(3, a, b); }
  static T neg(T a) { return frombits<T>(bits(a) ^ ((typename TI<T>::U)1 << (TI<T>::w - 1))); } static bool divok(T, T) { return true; }
  static bool lt(T a, T b) { return fval(a) < fval(b); } static bool eq(T a, T b) { return fval(a) == fval(b); }
};
template <class T> T bit(int k, T a, T b) { return frombits<T>((uint64_t)(k == 0 ? bits(a) & bits(b) : k == 1 ? bits(a) | bits(b) : k == 2 ? bits(a) ^ bits(b) : ~bits(a))); }
template <class T> T shl(T a, int s) { return frombits<T>((uint64_t)bits(a) << s); }
template <class T> T shr(T a, int s) { return frombits<T>((uint64_t)bits(a) >> s); } // operator>> is shr, the logical shift
template <class T> bool cmp(int k, T a, T b) { bool l = A<T>::lt(a, b), e = A<T>::eq(a, b), g = A<T>::lt(b, a); return k == 0 ? e : k == 1 ? !e : k == 2 ? l : k == 3 ? (l || e) : k == 4 ? g : (g || e); }
template <class T> inline bool same(T a, T b) { return bits(a) == bits(b) || (isnan_(a) && isnan_(b)); }
}
static std::string SFX; // surface suffix
template <class T> struct Ck {
  const char *op; std::string surf; Ck(const char *o, int n) : op(o) { char b[16]; snprintf(b, sizeof b, "N%d", n); surf = b + SFX; mon::ctx("%s/%s/%s/%s", ext_name(), op, TI<T>::nm(), surf.c_str()); }
  uint64_t h() const { return mon::hash_str(op) * 31 + mon::hash_str(surf.c_str()) * 7 + mon::hash_str(TI<T>::nm()); }
  void lanes(const T *got, const T *want, const T *a, const T *b, int n, const bool *use = 0) {
    uint64_t hb = h();
    for (int i = 0; i < n; i++) { if (use && !use[i]) continue; mon::eval(hb ^ mon::Rng::mix(bits(a[i]) + 3 * mon::Rng::mix(bits(b[i]) + (uint64_t)i)));
      if (!X::same(got[i], want[i])) mon::viol(key(op, TI<T>::nm(), surf.c_str()), "%s on pack<%s> %s %s lane %d: a=%s b=%s got=%s want=%s", op, TI<T>::nm(), ext_name(), surf.c_str(), i, hex(a[i]).c_str(), hex(b[i]).c_str(), hex(got[i]).c_str(), hex(want[i]).c_str()); }
    mon::count(std::string("op:") + op, n);
  }
  void mask(const T *got, const bool *want, const T *a, const T *b, int n) {
    uint64_t hb = h();
    for (int i = 0; i < n; i++) { mon::eval(hb ^ mon::Rng::mix(bits(a[i]) + 3 * mon::Rng::mix(bits(b[i]) + (uint64_t)i)));
      if (!iszero_(got[i]) != want[i]) mon::viol(key(op, TI<T>::nm(), surf.c_str()), "%s on pack<%s> %s %s lane %d: a=%s b=%s got=%d want=%d", op, TI<T>::nm(), ext_name(), surf.c_str(), i, hex(a[i]).c_str(), hex(b[i]).c_str(), (int)!iszero_(got[i]), (int)want[i]); }
    mon::count(std::string("op:") + op, n);
  }
  void one(bool ok, const char *what) { mon::eval(h() ^ mon::hash_str(what)); mon::count(std::string("op:") + op, 1); if (!ok) mon::viol(key(op, TI<T>::nm(), surf.c_str()), "%s on pack<%s> %s %s: %s", op, TI<T>::nm(), ext_name(), surf.c_str(), what); }
};
static const int MAXL = 64 * 4 * 4;
template <class T> struct Buf { T a[MAXL], b[MAXL], o[MAXL], w[MAXL]; bool m[MAXL], use[MAXL]; };

#endif

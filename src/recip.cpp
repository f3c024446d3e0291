// Reciprocal and reciprocal square root estimates: relative error bounds.
#include "surf.hpp"
#include "oracle.h"
typedef long double LD;
static LD toLD(f16 x) { return o_h2d(bits(x)); } static LD toLD(f32 x) { return x; } static LD toLD(f64 x) { return x; }
template <class T> struct FI { static const int mant = TI<T>::w == 16 ? 10 : TI<T>::w == 32 ? 23 : 52, emin = TI<T>::w == 16 ? -14 : TI<T>::w == 32 ? -126 : -1022, emax = TI<T>::w == 16 ? 15 : TI<T>::w == 32 ? 127 : 1023; };
DEF1(rec) DEF1(rec11) DEF1(rec8) DEF1(rsqrt11) DEF1(rsqrt8)
template <class T> static bool normal(LD v) { LD a = fabsl(v); return a >= ldexpl(1, FI<T>::emin) && a < ldexpl(1, FI<T>::emax + 1) * (1 - ldexpl(1, -FI<T>::mant - 2)); }
struct Op { const char *nm; bool rs; int p; };
// max relative error observed, for the evidence
static std::map<std::string, double> worst;
template <class T> static void judge(const Op &q, const char *surf, const std::vector<T> &a, const std::vector<T> &o) {
  uint64_t hb = mon::hash_str(q.nm) * 31 + mon::hash_str(surf) * 7 + mon::hash_str(TI<T>::nm()); double mx = 0;
  for (size_t i = 0; i < a.size(); i++) {
    LD x = toLD(a[i]), w = q.rs ? 1 / sqrtl(x) : 1 / x, g = toLD(o[i]);
    mon::eval(hb ^ mon::Rng::mix(bits(a[i])));
    LD err = isnan_(o[i]) ? INFINITY : fabsl((g - w) / w), lim;
    LD half = ldexpl(1, -FI<T>::mant - 1) * (1 + 1e-6L);
    if (q.p == 0) lim = half * (TI<T>::w == 16 ? 1.001L : 1); else { lim = ldexpl(1, -q.p); if (TI<T>::w == 16) lim += half; }
    // an estimate of precision p close to the smallest normal number may round below it
    if (err > mx) mx = (double)err;
    if (err > lim) mon::viol(key(q.nm, TI<T>::nm(), surf), "%s_%s on %s via %s: x=%s (%.17Lg) lane %zu got %s, relative error %.4Lg > %.4Lg", q.nm, TI<T>::nm(), ext_name(), surf, hex(a[i]).c_str(), x, i % (size_t)vlen_<T>(), hex(o[i]).c_str(), err, lim);
  }
  mon::count(std::string("op:") + q.nm, (long)a.size());
  std::string k = std::string(q.nm) + "_" + TI<T>::nm(); if (mx > worst[k]) worst[k] = mx;
}
template <class OP, class T> static void run(const Op &q) {
  mon::Rng g(mon::seed() ^ mon::hash_str(q.nm) ^ mon::hash_str(TI<T>::nm())); std::vector<T> a, v;
  const int M = FI<T>::mant, bias = FI<T>::emax;
  if (TI<T>::w == 16) for (uint32_t i = 0; i < 65536; i++) v.push_back(frombits<T>(i));
  else {
    v = Gen<T>::boundary();
    // table-driven estimates: sweep the leading mantissa bits densely in several binades
    int tb = TI<T>::w == 32 ? (mon::thorough() ? 20 : 14) : (mon::thorough() ? 18 : 13);
    for (int e : {bias - 1, bias, bias + 1, bias + 2, bias - 20, bias + 31}) for (uint64_t m = 0; m < (1ull << tb); m++) for (int lo = 0; lo < 2; lo++) {
      uint64_t rest = lo ? g.next() & ((1ull << (M - tb)) - 1) : (m & 1 ? (1ull << (M - tb)) - 1 : 0);
      v.push_back(frombits<T>(((uint64_t)(g.next() & 1) << (TI<T>::w - 1)) | ((uint64_t)e << M) | (m << (M - tb)) | rest)); }
    for (int e = 1; e < 2 * bias + 1; e++) for (int r = 0; r < (mon::thorough() ? 400 : 12); r++) v.push_back(frombits<T>(((uint64_t)(g.next() & 1) << (TI<T>::w - 1)) | ((uint64_t)e << M) | (r == 0 ? 0 : r == 1 ? (1ull << M) - 1 : g.next() & ((1ull << M) - 1))));
  }
  for (T x : v) { if (isnan_(x) || isinf_(x)) continue; LD y = toLD(x); if (q.rs) { if (bits(x) >> (TI<T>::w - 1)) { x = frombits<T>(bits(x) & ~((uint64_t)1 << (TI<T>::w - 1))); y = -y; } } if (y == 0 || !normal<T>(y)) continue; LD w = q.rs ? 1 / sqrtl(y) : 1 / y; if (!normal<T>(w) || !normal<T>(w * (1 - ldexpl(1, -q.p))) || !normal<T>(w * (1 + ldexpl(1, -q.p)))) { if (q.p || !normal<T>(w)) continue; } a.push_back(x); }
  size_t L = vlen_<T>(), n = (a.size() + L * PN - 1) / (L * PN) * (L * PN); pad(a, n);
  for (size_t i = n - 1; i > 0; i--) std::swap(a[i], a[g.below(i + 1)]);
  std::vector<T> o(n); mon::ctx("%s/%s/%s", ext_name(), q.nm, TI<T>::nm());
#ifdef VF_GPU
  VF_LOOP(1, o[i] = OP::g(a[i]);) judge(q, "gpu", a, o);
  VF_LOOP(1, o[i] = OP::s(a[i]);) judge(q, "scalar", a, o);
#else
  VF_LOOP(L, nsimd::storeu(&o[i], OP::b(nsimd::loadu(&a[i], T()), T()), T());) judge(q, "base", a, o);
  VF_LOOP(L, nsimd::storeu(&o[i], OP::p(nsimd::loadu<typename PK<T>::p1>(&a[i])));) judge(q, "pack1", a, o);
  VF_LOOP(L * PN, nsimd::storeu(&o[i], OP::p(nsimd::loadu<typename PK<T>::pn>(&a[i])));) judge(q, "packN", a, o);
  VF_LOOP(1, o[i] = OP::s(a[i]);) judge(q, "scalar", a, o);
  // lane independence: one ordinary lane among hostile neighbours
  T H[] = {frombits<T>(0), frombits<T>((uint64_t)1 << (TI<T>::w - 1)), frombits<T>(((uint64_t)(2 * bias + 1) << M)), frombits<T>(((uint64_t)(2 * bias + 1) << M) | ((uint64_t)1 << (M - 1))), frombits<T>(1)};
  std::vector<T> b(L), r(L), one(1), res(1);
  for (int rep = 0; rep < 4000; rep++) { for (size_t i = 0; i < L; i++) b[i] = H[g.below(5)]; size_t k = g.below(L); b[k] = one[0] = a[g.below(n)]; nsimd::storeu(&r[0], OP::b(nsimd::loadu(&b[0], T()), T()), T()); res[0] = r[k]; judge(q, "base", one, res); }
#endif
}
template <class T> static void all() {
  { Op q = {"rec", false, 0}; run<op_rec, T>(q); } { Op q = {"rec11", false, 11}; run<op_rec11, T>(q); } { Op q = {"rec8", false, 8}; run<op_rec8, T>(q); }
  { Op q = {"rsqrt11", true, 11}; run<op_rsqrt11, T>(q); } { Op q = {"rsqrt8", true, 8}; run<op_rsqrt8, T>(q); }
}
#define GO(T) all<T>();
int main(int argc, char **argv) { mon::init(argc, argv); VF_FOR_FLT(GO) for (auto &w : worst) mon::sample("%s max relative error on %s: 2^%.2f", w.first.c_str(), ext_name(), std::log2(w.second)); mon::flush_report("ok"); }

// Elementary functions: error in ulps against long double references.
#include "surf.hpp"
typedef long double LD;
static LD toLD(f16 x) { return o_h2d(bits(x)); } static LD toLD(f32 x) { return x; } static LD toLD(f64 x) { return x; }
template <class T> struct FI { static const int mant = TI<T>::w == 16 ? 10 : TI<T>::w == 32 ? 23 : 52, emin = TI<T>::w == 16 ? -14 : TI<T>::w == 32 ? -126 : -1022, emax = TI<T>::w == 16 ? 15 : TI<T>::w == 32 ? 127 : 1023; };
template <class T> static LD maxv() { return ldexpl(2 - ldexpl(1, -FI<T>::mant), FI<T>::emax); }
template <class T> static LD minn() { return ldexpl(1, FI<T>::emin); }
template <class T> static LD ulp(LD w) { w = fabsl(w); if (w < minn<T>()) return ldexpl(1, FI<T>::emin - FI<T>::mant); int e; frexpl(w, &e); return ldexpl(1, e - 1 - FI<T>::mant); }
static const LD PI = 3.14159265358979323846264338327950288L;
static LD r_sinpi(LD x) { if (std::isinf((double)x) || x != x) return NAN; LD s = x < 0 ? -1 : 1, r = fmodl(fabsl(x), 2); // exact
  if (r >= 1) { r -= 1; s = -s; } if (r > 0.5L) r = 1 - r; return s * (r > 0.25L ? cosl(PI * (0.5L - r)) : sinl(PI * r)); }
static LD r_cospi(LD x) { if (std::isinf((double)x) || x != x) return NAN; LD r = fabsl(fmodl(x, 2)); if (r > 1) r = 2 - r; LD s = 1; if (r > 0.5L) { r = 1 - r; s = -1; } return s * (r < 0.25L ? cosl(PI * r) : sinl(PI * (0.5L - r))); }
static LD r_exp10(LD x) { return powl(10.0L, x); }
struct Fn { const char *nm; int ar; double b; LD (*f1)(LD); LD (*f2)(LD, LD); };
// inputs the documentation of the function library promises the bound for
static bool in_range(const char *op, LD x, LD y, LD w, bool dp) {
  LD a = fabsl(x);
  if (!strcmp(op, "sinpi_u05") || !strcmp(op, "cospi_u05")) return a <= (dp ? 1e9L / 4 : 1e7L / 4);
  if (!strcmp(op, "sinh_u10") || !strcmp(op, "cosh_u10")) return a <= (dp ? 709 : 88);
  if (!strcmp(op, "sinh_u35") || !strcmp(op, "cosh_u35")) return a <= (dp ? 709 : 88);
  if (!strcmp(op, "asinh_u10") || !strcmp(op, "acosh_u10")) return a <= (dp ? 1.34e154L : 1.84e19L);
  if (!strcmp(op, "lgamma_u10")) return a <= (dp ? 2e305L : 4e36L);
  if (!strcmp(op, "log1p_u10")) return x <= (dp ? 1e307L : 1e38L);
  if (!strcmp(op, "fmod") || !strcmp(op, "remainder")) return y != 0 && fabsl(x / y) < (dp ? 1e300L : 1e38L);
  return true;
}
static int signbit_(LD x) { return std::signbit(x) ? 1 : 0; }
template <class T> static bool close(const Fn &F, LD x, LD y, LD w, T got, double *errout) {
  LD g = toLD(got); *errout = 0;
  if (w != w) return isnan_(got);
  if (isnan_(got)) return false;
  LD b = F.b + 0.005, u = ulp<T>(w), mx = maxv<T>();
#ifdef VF_GPU // the host's libm stands in for the device's: which function is called on what is judged, not its last bits
  b = TI<T>::w == 16 ? 0.6 : 16;
#else
  if (TI<T>::w == 16) { b = 0.5 + 0.01; }
  // the error terms of the compensated algorithms are themselves denormal here
  else if (fabsl(w) < minn<T>() * ldexpl(1, FI<T>::mant + 1) && F.b > 0 && b < 2) b = 2;
#endif
  if (!strcmp(F.nm, "lgamma_u10") && x < 0) { LD q = (TI<T>::w == 64 ? 1e-15L : 1e-8L) / u + (TI<T>::w == 16 ? 0.6L : 0); if (q > b) b = q; }
  if (fabsl(w) > mx) { if (isinf_(got)) return (g > 0) == (w > 0); return !std::isinf((double)w) && (g > 0) == (w > 0) && fabsl(g) >= mx * (1 - 4 * ldexpl(1, -FI<T>::mant)) && fabsl(w) < mx * (1 + (b + 1) * ldexpl(1, -FI<T>::mant)); }
  if (isinf_(got)) return (g > 0) == (w > 0) && fabsl(w) >= mx - b * u - u;
  LD e = fabsl(g - w) / u; *errout = (double)e;
  if (!strcmp(F.nm, "tgamma_u10") && fabsl(w) < minn<T>()) return fabsl(g - w) <= minn<T>();
  if (w == 0 && strcmp(F.nm, "sinpi_u05") && strcmp(F.nm, "cospi_u05") && signbit_(w) != (int)(bits(got) >> (TI<T>::w - 1))) return false;
  return e <= b;
}
static std::map<std::string, std::pair<double, double> > worst;
template <class T> static void judge(const Fn &F, const char *surf, const std::vector<T> &a, const std::vector<T> &b, const std::vector<LD> &w, const std::vector<T> &o) {
  uint64_t hb = mon::hash_str(F.nm) * 31 + mon::hash_str(surf) * 7 + mon::hash_str(TI<T>::nm()); double mx = 0, at = 0;
  for (size_t i = 0; i < o.size(); i++) {
    mon::eval(hb ^ mon::Rng::mix(bits(a[i]) + 3 * mon::Rng::mix(F.ar > 1 ? bits(b[i]) : 0))); double e = 0;
    LD x = toLD(a[i]), y = F.ar > 1 ? toLD(b[i]) : 0;
    if (!close(F, x, y, w[i], o[i], &e)) {
      const char *cls = isnan_(o[i]) != (w[i] != w[i]) ? "special" : !strcmp(F.nm, "tgamma_u10") && TI<T>::w > 16 && x < (TI<T>::w == 64 ? -168 : -33) && fabsl(toLD(o[i]) - w[i]) <= fabsl(w[i]) * 1e-3L ? (TI<T>::w == 64 ? "below-minus-168" : "below-minus-33") : e > 0 && e < F.b * 1.05 ? "marginal" : "ulp";
      mon::viol(key(F.nm, TI<T>::nm(), surf) + "/" + cls, "%s_%s on %s via %s: x=%s (%.9Lg) y=%s (%.9Lg) lane %zu got %s (%.17Lg) want %.17Lg, %.3f ulp", F.nm, TI<T>::nm(), ext_name(), surf, hex(a[i]).c_str(), x, F.ar > 1 ? hex(b[i]).c_str() : "-", y, i % (size_t)vlen_<T>(), hex(o[i]).c_str(), toLD(o[i]), w[i], e); }
    else if (e > mx) { mx = e; at = (double)x; }
  }
  mon::count(std::string("op:") + F.nm, (long)o.size());
  std::pair<double, double> &p = worst[std::string(F.nm) + "_" + TI<T>::nm()]; if (mx > p.first) p = std::make_pair(mx, at);
}
template <class T> static T fromD(double v) { if (TI<T>::w == 16) return frombits<T>(o_d2h(v)); if (TI<T>::w == 32) { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return frombits<T>(u); } uint64_t u; memcpy(&u, &v, 8); return frombits<T>(u); }
template <class T> static std::vector<T> values(mon::Rng &g, size_t nr) {
  std::vector<T> v = Gen<T>::boundary();
  double c[] = {0.5, 1, 1.5, 2, 3, 10, 88, 89, 103, 104, 127, 128, 149, 150, 171, 172, 308, 309, 709, 710, 744, 746, 1022, 1023, 1024, 1075, 26, 27, 9, 10, 0.7071067811865476, M_PI, M_PI / 2, M_PI / 4, 2 * M_PI, M_LN2, M_E, M_LN10, 1e-300, 1e-38, 1e-8, 1e-3, 0.1, 0.9, 0.99, 1.01, 1e5, 1e10, 1e14, 1e15, 125, 39000, 1e22, 2.5e6, 2.5e8};
  for (double x : c) for (int s = 0; s < 2; s++) for (int d = -3; d <= 3; d++) { T t = fromD<T>(s ? -x : x); if (!isinf_(t)) v.push_back(frombits<T>(bits(t) + d)); }
  for (int k = 0; k < 200; k++) { v.push_back(fromD<T>(k * M_PI / 4)); v.push_back(fromD<T>(-k * M_PI / 2)); v.push_back(fromD<T>(k)); v.push_back(fromD<T>(-k - 0.5)); v.push_back(fromD<T>(-k + 1e-9 * k)); }
  for (size_t i = 0; i < nr; i++) {
    uint64_t r = g.next(); double u = (double)(r >> 11) / 9007199254740992.0, sg = r & 1 ? 1 : -1;
    switch (g.below(7)) { case 0: v.push_back(Gen<T>::rnd(g)); break; case 1: v.push_back(fromD<T>(sg * u)); break; case 2: v.push_back(fromD<T>(sg * 20 * u)); break; case 3: v.push_back(fromD<T>(sg * 1000 * u)); break; case 4: v.push_back(fromD<T>(sg * std::exp2(40 * u - 20))); break; case 5: v.push_back(fromD<T>(1 + sg * std::exp2(-30 * u))); break;
      default: v.push_back(fromD<T>((double)(int64_t)(r % 100000) * M_PI / 2)); } }
  return v;
}
template <class OP, class T> static void run(const Fn &F) {
  mon::Rng g(mon::seed() ^ mon::hash_str(F.nm) ^ mon::hash_str(TI<T>::nm())); std::vector<T> a, b, A; std::vector<LD> w; bool dp = TI<T>::w == 64;
  std::vector<T> V;
  if (TI<T>::w == 16 && F.ar == 1) for (uint32_t i = 0; i < 65536; i += 1) V.push_back(frombits<T>(i)); else V = values<T>(g, mon::thorough() ? 1500000 : 60000);
  std::vector<T> W = F.ar > 1 ? values<T>(g, mon::thorough() ? 1500000 : 60000) : V; for (size_t i = W.size() - 1; F.ar > 1 && i > 0; i--) std::swap(W[i], W[g.below(i + 1)]);
  for (size_t i = 0; i < V.size(); i++) { T x = V[i], y = W[i]; LD r = F.ar == 1 ? F.f1(toLD(x)) : F.f2(toLD(x), toLD(y)); if (!in_range(F.nm, toLD(x), toLD(y), r, dp)) continue; a.push_back(x); b.push_back(y); w.push_back(r); }
  size_t L = vlen_<T>(), n = (a.size() + L * PN - 1) / (L * PN) * (L * PN), k = a.size(); for (size_t i = k; i < n; i++) { a.push_back(a[i % k]); b.push_back(b[i % k]); w.push_back(w[i % k]); }
  for (size_t i = n - 1; i > 0; i--) { size_t j = g.below(i + 1); std::swap(a[i], a[j]); std::swap(b[i], b[j]); std::swap(w[i], w[j]); }
  std::vector<T> o(n); mon::ctx("%s/%s/%s", ext_name(), F.nm, TI<T>::nm()); OP::template go<T>(a, b, o, F, w);
}
#ifdef VF_GPU
#define D1(name, bound, ref) struct m_##name { template <class T> static void go(std::vector<T> &a, std::vector<T> &b, std::vector<T> &o, const Fn &F, std::vector<LD> &w) { for (size_t i = 0; i < a.size(); i++) o[i] = nsimd::gpu_##name(a[i]); judge(F, "gpu", a, b, w, o); } }; \
  static const Fn f_##name = {#name, 1, bound, ref, 0};
#define D2(name, bound, ref) struct m_##name { template <class T> static void go(std::vector<T> &a, std::vector<T> &b, std::vector<T> &o, const Fn &F, std::vector<LD> &w) { for (size_t i = 0; i < a.size(); i++) o[i] = nsimd::gpu_##name(a[i], b[i]); judge(F, "gpu", a, b, w, o); } }; \
  static const Fn f_##name = {#name, 2, bound, 0, ref};
#else
#define D1(name, bound, ref) struct m_##name { template <class T> static void go(std::vector<T> &a, std::vector<T> &b, std::vector<T> &o, const Fn &F, std::vector<LD> &w) { size_t n = a.size(), L = vlen_<T>(); \
  VF_LOOP(L, nsimd::storeu(&o[i], nsimd::name(nsimd::loadu(&a[i], T()), T()), T());) judge(F, "base", a, b, w, o); \
  VF_LOOP(L * PN, nsimd::storeu(&o[i], nsimd::name(nsimd::loadu<typename PK<T>::pn>(&a[i])));) judge(F, "packN", a, b, w, o); \
  VF_LOOP(1, o[i] = nsimd::scalar_##name(a[i]);) judge(F, "scalar", a, b, w, o); } }; \
  static const Fn f_##name = {#name, 1, bound, ref, 0};
#define D2(name, bound, ref) struct m_##name { template <class T> static void go(std::vector<T> &a, std::vector<T> &b, std::vector<T> &o, const Fn &F, std::vector<LD> &w) { size_t n = a.size(), L = vlen_<T>(); \
  VF_LOOP(L, nsimd::storeu(&o[i], nsimd::name(nsimd::loadu(&a[i], T()), nsimd::loadu(&b[i], T()), T()), T());) judge(F, "base", a, b, w, o); \
  VF_LOOP(L * PN, nsimd::storeu(&o[i], nsimd::name(nsimd::loadu<typename PK<T>::pn>(&a[i]), nsimd::loadu<typename PK<T>::pn>(&b[i])));) judge(F, "packN", a, b, w, o); \
  VF_LOOP(1, o[i] = nsimd::scalar_##name(a[i], b[i]);) judge(F, "scalar", a, b, w, o); } }; \
  static const Fn f_##name = {#name, 2, bound, 0, ref};
#endif
#define LIST(X1, X2) \
  X1(sin_u35, 3.5, sinl) X1(cos_u35, 3.5, cosl) X1(tan_u35, 3.5, tanl) X1(asin_u35, 3.5, asinl) X1(acos_u35, 3.5, acosl) X1(atan_u35, 3.5, atanl) X2(atan2_u35, 3.5, atan2l) X1(log_u35, 3.5, logl) X1(cbrt_u35, 3.5, cbrtl) \
  X1(sin_u10, 1.0, sinl) X1(cos_u10, 1.0, cosl) X1(tan_u10, 1.0, tanl) X1(asin_u10, 1.0, asinl) X1(acos_u10, 1.0, acosl) X1(atan_u10, 1.0, atanl) X2(atan2_u10, 1.0, atan2l) X1(log_u10, 1.0, logl) X1(cbrt_u10, 1.0, cbrtl) \
  X1(exp_u10, 1.0, expl) X2(pow_u10, 1.0, powl) X1(sinh_u10, 1.0, sinhl) X1(cosh_u10, 1.0, coshl) X1(tanh_u10, 1.0, tanhl) X1(sinh_u35, 3.5, sinhl) X1(cosh_u35, 3.5, coshl) X1(tanh_u35, 3.5, tanhl) \
  X1(asinh_u10, 1.0, asinhl) X1(acosh_u10, 1.0, acoshl) X1(atanh_u10, 1.0, atanhl) X1(exp2_u10, 1.0, exp2l) X1(exp2_u35, 3.5, exp2l) X1(exp10_u10, 1.09, r_exp10) X1(exp10_u35, 3.5, r_exp10) X1(expm1_u10, 1.0, expm1l) \
  X1(log10_u10, 1.0, log10l) X1(log2_u10, 1.0, log2l) X1(log2_u35, 3.5, log2l) X1(log1p_u10, 1.0, log1pl) X1(sinpi_u05, 0.506, r_sinpi) X1(cospi_u05, 0.506, r_cospi) X2(hypot_u05, 0.5001, hypotl) X2(hypot_u35, 3.5, hypotl) \
  X2(remainder, 0, remainderl) X2(fmod, 0, fmodl) X1(lgamma_u10, 1.0, lgammal) X1(tgamma_u10, 1.0, tgammal) X1(erf_u10, 1.0, erfl) X1(erfc_u15, 1.5, erfcl)
LIST(D1, D2)
#define R(name, b, r) if (only.empty() || only == #name) { run<m_##name, f16>(f_##name); run<m_##name, f32>(f_##name); run<m_##name, f64>(f_##name); }
int main(int argc, char **argv) {
  mon::init(argc, argv); std::string only = mon::arg("op", "");
  LIST(R, R)
  for (auto &q : worst) mon::count("worst_milliulp:" + q.first, (long)(q.second.first * 1000));
  for (auto &q : worst) mon::sample("%s on %s: worst %.4f ulp at x=%.17g", q.first.c_str(), ext_name(), q.second.first, q.second.second);
  mon::flush_report("ok");
}

// Surfaces: the same operator reached through the C++ base API, packs of
// unroll 1 and 3, and the scalar API. Every surface sees the same data and is
// judged by the same oracle.
#ifndef VF_SURF_HPP
#define VF_SURF_HPP
#include "gen.hpp"
#include <nsimd/cxx_adv_api.hpp>
#include <nsimd/scalar_utilities.h>

struct Exp { // acceptable results, as bit patterns
  uint64_t v[4]; int n; bool nan; bool any; bool zero_any_sign;
  Exp() : n(0), nan(false), any(false), zero_any_sign(false) {}
};
template <class T> inline void addexp(Exp &e, T x) { if (isnan_(x)) e.nan = true; else { for (int i = 0; i < e.n; i++) if (e.v[i] == (uint64_t)bits(x)) return; if (e.n < 4) e.v[e.n++] = bits(x); } }
template <class T> inline bool ok(const Exp &e, T got) {
  if (e.any) return true;
  if (isnan_(got)) return e.nan;
  uint64_t b = bits(got);
  for (int i = 0; i < e.n; i++) {
    if (e.v[i] == b) return true;
    if (e.zero_any_sign && iszero_(got) && TI<T>::flt && iszero_(frombits<T>(e.v[i]))) return true;
  }
  return false;
}
template <class T> inline std::string show(const Exp &e) {
  std::string s; for (int i = 0; i < e.n; i++) { if (i) s += "|"; s += hex(frombits<T>(e.v[i])); }
  if (e.nan) s += s.empty() ? "NaN" : "|NaN"; return s;
}

static const int PN = 3;
template <class T> struct PK { typedef nsimd::pack<T, 1> p1; typedef nsimd::pack<T, PN> pn; typedef nsimd::packl<T, 1> l1; typedef nsimd::packl<T, PN> ln; };

#ifdef VF_GPU // the functions GPU kernels are made of, next to the host scalar functions of the same translation unit
#define DEF1(name) struct op_##name { static const char *nm() { return #name; } \
  template <class T> static T g(T x) { return nsimd::gpu_##name(x); } template <class T> static T s(T x) { return nsimd::scalar_##name(x); } };
#define DEF2(name) struct op_##name { static const char *nm() { return #name; } \
  template <class T> static T g(T x, T y) { return nsimd::gpu_##name(x, y); } template <class T> static T s(T x, T y) { return nsimd::scalar_##name(x, y); } };
#define DEF3(name) struct op_##name { static const char *nm() { return #name; } \
  template <class T> static T g(T x, T y, T z) { return nsimd::gpu_##name(x, y, z); } template <class T> static T s(T x, T y, T z) { return nsimd::scalar_##name(x, y, z); } };
#else
#define DEF1(name) struct op_##name { static const char *nm() { return #name; } \
  template <class T> static typename VT<T>::v b(typename VT<T>::v x, T) { return nsimd::name(x, T()); } \
  template <class P> static P p(P const &x) { return nsimd::name(x); } \
  template <class T> static T s(T x) { return nsimd::scalar_##name(x); } };
#define DEF1_NOSCALAR(name) struct op_##name { static const char *nm() { return #name; } \
  template <class T> static typename VT<T>::v b(typename VT<T>::v x, T) { return nsimd::name(x, T()); } \
  template <class P> static P p(P const &x) { return nsimd::name(x); } };
#define DEF2(name) struct op_##name { static const char *nm() { return #name; } \
  template <class T> static typename VT<T>::v b(typename VT<T>::v x, typename VT<T>::v y, T) { return nsimd::name(x, y, T()); } \
  template <class P> static P p(P const &x, P const &y) { return nsimd::name(x, y); } \
  template <class T> static T s(T x, T y) { return nsimd::scalar_##name(x, y); } };
#define DEF3(name) struct op_##name { static const char *nm() { return #name; } \
  template <class T> static typename VT<T>::v b(typename VT<T>::v x, typename VT<T>::v y, typename VT<T>::v z, T) { return nsimd::name(x, y, z, T()); } \
  template <class P> static P p(P const &x, P const &y, P const &z) { return nsimd::name(x, y, z); } \
  template <class T> static T s(T x, T y, T z) { return nsimd::scalar_##name(x, y, z); } };
#endif

template <class T> struct Data { std::vector<T> a, b, c; };
template <class T> inline void pad(std::vector<T> &v, size_t n) { size_t k = v.size(); for (size_t i = k; i < n; i++) v.push_back(v[i % k]); }

// number of random cases per operator and type
inline size_t NRAND() { return mon::thorough() ? 400000 : 12000; }

template <class T> void fill(Data<T> &d, int arity, mon::Rng &g, bool (*dom)(T, T, T)) {
  std::vector<T> B = Gen<T>::boundary();
  T z = frombits<T>(0);
  if (arity == 1) {
    if (TI<T>::w <= 16) for (uint32_t i = 0; i < (1u << TI<T>::w); i++) d.a.push_back(frombits<T>(i));
    else { for (T x : B) d.a.push_back(x); for (size_t i = 0; i < NRAND(); i++) d.a.push_back(Gen<T>::rnd(g)); }
    std::vector<T> f; for (T x : d.a) if (dom(x, z, z)) f.push_back(x); d.a = f;
  } else {
    std::vector<T> a, b, c;
    if (arity == 2 && TI<T>::w == 8) { for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) { a.push_back(frombits<T>(i)); b.push_back(frombits<T>(j)); c.push_back(z); } }
    else {
      if (arity == 2) for (T x : B) for (T y : B) { a.push_back(x); b.push_back(y); c.push_back(z); }
      else for (size_t i = 0; i < 4 * B.size(); i++) for (int j = 0; j < 8; j++) { a.push_back(B[i % B.size()]); b.push_back(B[g.below(B.size())]); c.push_back(B[g.below(B.size())]); }
      for (size_t i = 0; i < NRAND(); i++) {
        T x = Gen<T>::rnd(g), y = Gen<T>::rnd(g), w = Gen<T>::rnd(g);
        int k = (int)g.below(8); if (k == 0) y = x; if (k == 1) x = B[g.below(B.size())]; if (k == 2) y = B[g.below(B.size())];
        a.push_back(x); b.push_back(y); c.push_back(w);
      }
    }
    for (size_t i = 0; i < a.size(); i++) if (dom(a[i], b[i], c[i])) { d.a.push_back(a[i]); d.b.push_back(b[i]); d.c.push_back(c[i]); }
  }
  // pad to a multiple of the widest step, then shuffle lane positions
  size_t step = (size_t)vlen_<T>() * PN, n = (d.a.size() + step - 1) / step * step;
  pad(d.a, n); if (arity > 1) { pad(d.b, n); pad(d.c, n); }
  for (size_t i = n - 1; i > 0; i--) { size_t j = g.below(i + 1); std::swap(d.a[i], d.a[j]); if (arity > 1) { std::swap(d.b[i], d.b[j]); std::swap(d.c[i], d.c[j]); } }
}

template <class T> void judge(const char *op, const char *surf, const std::vector<Exp> &e, const std::vector<T> &out, const Data<T> &d, int arity, std::string (*cls)(const char *, T, T, T, T, const char *)) {
  const uint64_t hb = mon::hash_str(op) * 31 + mon::hash_str(surf) * 7 + mon::hash_str(TI<T>::nm());
  for (size_t i = 0; i < out.size(); i++) {
    mon::eval(hb ^ mon::Rng::mix(bits(d.a[i]) + 3 * (arity > 1 ? mon::Rng::mix(bits(d.b[i])) : 0) + 5 * (arity > 2 ? mon::Rng::mix(bits(d.c[i])) : 0)));
    if (!ok(e[i], out[i])) {
      T z = frombits<T>(0); T b = arity > 1 ? d.b[i] : z, c = arity > 2 ? d.c[i] : z;
      std::string k = key(op, TI<T>::nm(), surf), q = cls ? cls(op, d.a[i], b, c, out[i], surf) : ""; if (!q.empty()) k += "/" + q;
      mon::viol(k, "%s_%s on %s via %s: a=%s b=%s c=%s lane-index=%zu got=%s want=%s", op, TI<T>::nm(), ext_name(), surf,
                hex(d.a[i]).c_str(), arity > 1 ? hex(b).c_str() : "-", arity > 2 ? hex(c).c_str() : "-", i % (size_t)vlen_<T>(), hex(out[i]).c_str(), show<T>(e[i]).c_str());
    }
  }
  mon::count(std::string("surface:") + surf, (long)out.size());
  mon::count(std::string("op:") + op, (long)out.size());
  if (mon::st().samples.size() < 8 && !out.empty() && (mon::Rng::mix(hb) & 15) == 0)
    mon::sample("%s_%s %s/%s a=%s b=%s -> %s", op, TI<T>::nm(), ext_name(), surf, hex(d.a[0]).c_str(), arity > 1 ? hex(d.b[0]).c_str() : "-", hex(out[0]).c_str());
}

template <class T> inline bool dom_all(T, T, T) { return true; }

#define VF_LOOP(STEP, ...) for (size_t i = 0; i < n; i += (STEP)) { __VA_ARGS__ }

template <class OP, class T> void run1s(const std::vector<Exp> &e, std::vector<T> &o, const Data<T> &d, std::string (*cls)(const char *, T, T, T, T, const char *)) {
  mon::ctx("%s/%s/%s/scalar", ext_name(), OP::nm(), TI<T>::nm());
  for (size_t i = 0; i < o.size(); i++) o[i] = OP::s(d.a[i]);
  judge(OP::nm(), "scalar", e, o, d, 1, cls);
}
template <class OP, class T> void run1(Exp (*ref)(T), bool (*dom)(T, T, T) = dom_all<T>, bool scalar = true, std::string (*cls)(const char *, T, T, T, T, const char *) = 0) {
  mon::Rng g(mon::seed() ^ mon::hash_str(OP::nm()) ^ mon::hash_str(TI<T>::nm()));
  Data<T> d; fill(d, 1, g, dom); const size_t n = d.a.size(), L = (size_t)vlen_<T>();
  std::vector<Exp> e(n); for (size_t i = 0; i < n; i++) e[i] = ref(d.a[i]);
  std::vector<T> o(n);
#ifdef VF_GPU
  mon::ctx("%s/%s/%s/gpu", ext_name(), OP::nm(), TI<T>::nm());
  for (size_t i = 0; i < n; i++) o[i] = OP::g(d.a[i]);
  judge(OP::nm(), "gpu", e, o, d, 1, cls); (void)L;
#else
  mon::ctx("%s/%s/%s/base", ext_name(), OP::nm(), TI<T>::nm());
  VF_LOOP(L, nsimd::storeu(&o[i], OP::b(nsimd::loadu(&d.a[i], T()), T()), T());)
  judge(OP::nm(), "base", e, o, d, 1, cls);
  mon::ctx("%s/%s/%s/pack", ext_name(), OP::nm(), TI<T>::nm());
  VF_LOOP(L * PN, nsimd::storeu(&o[i], OP::p(nsimd::loadu<typename PK<T>::pn>(&d.a[i])));)
  judge(OP::nm(), "packN", e, o, d, 1, cls);
  VF_LOOP(L, nsimd::storeu(&o[i], OP::p(nsimd::loadu<typename PK<T>::p1>(&d.a[i])));)
  judge(OP::nm(), "pack1", e, o, d, 1, cls);
#endif
  if (scalar) run1s<OP, T>(e, o, d, cls);
}
template <class OP, class T> void run2(Exp (*ref)(T, T), bool (*dom)(T, T, T) = dom_all<T>, std::string (*cls)(const char *, T, T, T, T, const char *) = 0) {
  mon::Rng g(mon::seed() ^ mon::hash_str(OP::nm()) ^ mon::hash_str(TI<T>::nm()));
  Data<T> d; fill(d, 2, g, dom); const size_t n = d.a.size(), L = (size_t)vlen_<T>();
  std::vector<Exp> e(n); for (size_t i = 0; i < n; i++) e[i] = ref(d.a[i], d.b[i]);
  std::vector<T> o(n);
#ifdef VF_GPU
  mon::ctx("%s/%s/%s/gpu", ext_name(), OP::nm(), TI<T>::nm());
  for (size_t i = 0; i < n; i++) o[i] = OP::g(d.a[i], d.b[i]);
  judge(OP::nm(), "gpu", e, o, d, 2, cls); (void)L;
#else
  mon::ctx("%s/%s/%s/base", ext_name(), OP::nm(), TI<T>::nm());
  VF_LOOP(L, nsimd::storeu(&o[i], OP::b(nsimd::loadu(&d.a[i], T()), nsimd::loadu(&d.b[i], T()), T()), T());)
  judge(OP::nm(), "base", e, o, d, 2, cls);
  mon::ctx("%s/%s/%s/pack", ext_name(), OP::nm(), TI<T>::nm());
  VF_LOOP(L * PN, nsimd::storeu(&o[i], OP::p(nsimd::loadu<typename PK<T>::pn>(&d.a[i]), nsimd::loadu<typename PK<T>::pn>(&d.b[i])));)
  judge(OP::nm(), "packN", e, o, d, 2, cls);
  VF_LOOP(L, nsimd::storeu(&o[i], OP::p(nsimd::loadu<typename PK<T>::p1>(&d.a[i]), nsimd::loadu<typename PK<T>::p1>(&d.b[i])));)
  judge(OP::nm(), "pack1", e, o, d, 2, cls);
#endif
  mon::ctx("%s/%s/%s/scalar", ext_name(), OP::nm(), TI<T>::nm());
  for (size_t i = 0; i < n; i++) o[i] = OP::s(d.a[i], d.b[i]);
  judge(OP::nm(), "scalar", e, o, d, 2, cls);
}
template <class OP, class T> void run3(Exp (*ref)(T, T, T), bool (*dom)(T, T, T) = dom_all<T>, std::string (*cls)(const char *, T, T, T, T, const char *) = 0) {
  mon::Rng g(mon::seed() ^ mon::hash_str(OP::nm()) ^ mon::hash_str(TI<T>::nm()));
  Data<T> d; fill(d, 3, g, dom); const size_t n = d.a.size(), L = (size_t)vlen_<T>();
  std::vector<Exp> e(n); for (size_t i = 0; i < n; i++) e[i] = ref(d.a[i], d.b[i], d.c[i]);
  std::vector<T> o(n);
#ifdef VF_GPU
  mon::ctx("%s/%s/%s/gpu", ext_name(), OP::nm(), TI<T>::nm());
  for (size_t i = 0; i < n; i++) o[i] = OP::g(d.a[i], d.b[i], d.c[i]);
  judge(OP::nm(), "gpu", e, o, d, 3, cls); (void)L;
#else
  mon::ctx("%s/%s/%s/base", ext_name(), OP::nm(), TI<T>::nm());
  VF_LOOP(L, nsimd::storeu(&o[i], OP::b(nsimd::loadu(&d.a[i], T()), nsimd::loadu(&d.b[i], T()), nsimd::loadu(&d.c[i], T()), T()), T());)
  judge(OP::nm(), "base", e, o, d, 3, cls);
  mon::ctx("%s/%s/%s/pack", ext_name(), OP::nm(), TI<T>::nm());
  VF_LOOP(L * PN, nsimd::storeu(&o[i], OP::p(nsimd::loadu<typename PK<T>::pn>(&d.a[i]), nsimd::loadu<typename PK<T>::pn>(&d.b[i]), nsimd::loadu<typename PK<T>::pn>(&d.c[i])));)
  judge(OP::nm(), "packN", e, o, d, 3, cls);
  VF_LOOP(L, nsimd::storeu(&o[i], OP::p(nsimd::loadu<typename PK<T>::p1>(&d.a[i]), nsimd::loadu<typename PK<T>::p1>(&d.b[i]), nsimd::loadu<typename PK<T>::p1>(&d.c[i])));)
  judge(OP::nm(), "pack1", e, o, d, 3, cls);
#endif
  mon::ctx("%s/%s/%s/scalar", ext_name(), OP::nm(), TI<T>::nm());
  for (size_t i = 0; i < n; i++) o[i] = OP::s(d.a[i], d.b[i], d.c[i]);
  judge(OP::nm(), "scalar", e, o, d, 3, cls);
}
#endif

// Conversions: cvt, upcvt, downcvt, reinterpret, reinterpretl, to<T>.
#include "surf.hpp"
typedef __int128 W;
// acceptable results of converting x; n == 0 and !nan: no defined result
template <class F, class T, bool FF, bool TF> struct Ref;
template <class F, class T> struct Ref<F, T, false, false> { static Exp go(F x) { Exp e; addexp(e, frombits<T>((uint64_t)(int64_t)x)); return e; } };
template <class F, class T> struct Ref<F, T, true, false> { static Exp go(F x) {
  Exp e; double v = fval(x); if (v != v || std::isinf(v)) return e;
  double t = std::trunc(v), lo = TI<T>::sgn ? -std::ldexp(1.0, TI<T>::w - 1) : 0.0, hi = std::ldexp(1.0, TI<T>::w - (TI<T>::sgn ? 1 : 0));
  if (t < lo || t >= hi) return e;
  W w = (W)t; addexp(e, frombits<T>((uint64_t)(unsigned __int128)w)); return e; } };
template <class T> struct FF_;
template <> struct FF_<f64> { template <class I> static void go(Exp &e, I x) { addexp(e, (f64)x); } };
template <> struct FF_<f32> { template <class I> static void go(Exp &e, I x) { addexp(e, (f32)x); if (sizeof(I) == 8) addexp(e, (f32)(f64)x); } };
template <> struct FF_<f16> { template <class I> static void go(Exp &e, I x) { addexp(e, frombits<f16>(o_d2h((double)x))); if (sizeof(I) >= 4) addexp(e, frombits<f16>(o_f2h((f32)x))); } };
template <class F, class T> struct Ref<F, T, false, true> { static Exp go(F x) { Exp e; FF_<T>::go(e, x); return e; } };
template <class F, class T> struct Ref<F, T, true, true> { static Exp go(F x) {
  Exp e; if (isnan_(x)) { e.nan = true; return e; }
  double v = fval(x); if (TI<T>::w == 16) addexp(e, frombits<T>(o_d2h(v))); else if (TI<T>::w == 32) { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); addexp(e, frombits<T>(u)); } else { uint64_t u; memcpy(&u, &v, 8); addexp(e, frombits<T>(u)); }
  return e; } };
template <class F, class T> static Exp ref(F x) { return Ref<F, T, TI<F>::flt, TI<T>::flt>::go(x); }

template <class F> static std::vector<F> pool(const char *op, const char *t, size_t step, bool (*defd)(F)) {
  mon::Rng g(mon::seed() ^ mon::hash_str(op) ^ mon::hash_str(TI<F>::nm()) ^ mon::hash_str(t));
  std::vector<F> v, r;
  if (TI<F>::w <= 16) for (uint32_t i = 0; i < (1u << TI<F>::w); i++) v.push_back(frombits<F>(i));
  else {
    v = Gen<F>::boundary();
    // neighbourhoods of every power of two: where magic-number tricks break
    for (int k = 0; k < TI<F>::w; k++) for (int s = 0; s < 2; s++) for (int dlt = -2; dlt <= 2; dlt++) {
      if (TI<F>::flt) {
        double x = std::ldexp(s ? -1.0 : 1.0, k);
        double y = TI<F>::w == 32 ? (double)(float)x : x;
        uint64_t b; if (TI<F>::w == 32) { float f = (float)y; uint32_t u; memcpy(&u, &f, 4); b = u; } else memcpy(&b, &y, 8);
        v.push_back(frombits<F>(b + dlt));
        double h = x + dlt * 0.5; if (TI<F>::w == 32) { float f = (float)h; uint32_t u; memcpy(&u, &f, 4); b = u; } else memcpy(&b, &h, 8);
        v.push_back(frombits<F>(b));
      } else v.push_back(frombits<F>((s ? -1 : 1) * ((uint64_t)1 << k) + dlt));
    }
    for (size_t i = 0; i < NRAND(); i++) {
      v.push_back(Gen<F>::rnd(g));
      // wide ranges of magnitudes with dense mantissas
      int k = (int)g.below(TI<F>::w);
      if (!TI<F>::flt) v.push_back(frombits<F>((g.next() & 1 ? 1 : -1) * (int64_t)(g.next() >> (63 - k))));
      else { double x = std::ldexp((double)(int64_t)g.next(), k - 63); uint64_t b; if (TI<F>::w == 32) { float f = (float)x; uint32_t u; memcpy(&u, &f, 4); b = u; } else memcpy(&b, &x, 8); v.push_back(frombits<F>(b)); }
    }
  }
  for (F x : v) if (defd(x)) r.push_back(x);
  size_t n = (r.size() + step - 1) / step * step; pad(r, n);
  for (size_t i = n - 1; i > 0; i--) std::swap(r[i], r[g.below(i + 1)]);
  return r;
}
template <class F, class T> static bool defd(F x) { Exp e = ref<F, T>(x); return e.n || e.nan; }
template <class F> static bool always(F) { return true; }

template <class F, class T> static bool lax(const char *, const char *, F, T);
template <class F, class T> static void judge2(const char *op, const char *surf, const std::vector<F> &a, const std::vector<T> &o, Exp (*rf)(F)) {
  char tt[32]; snprintf(tt, sizeof tt, "%s_to_%s", TI<F>::nm(), TI<T>::nm());
  uint64_t hb = mon::hash_str(op) * 31 + mon::hash_str(surf) * 7 + mon::hash_str(tt);
  for (size_t i = 0; i < a.size(); i++) {
    Exp e = rf(a[i]);
    mon::eval(hb ^ mon::Rng::mix(bits(a[i])));
    if (!ok(e, o[i]) && !lax(op, surf, a[i], o[i])) mon::viol(key(op, tt, surf), "%s %s on %s via %s: a=%s index=%zu got=%s want=%s", op, tt, ext_name(), surf, hex(a[i]).c_str(), i, hex(o[i]).c_str(), show<T>(e).c_str());
  }
  mon::count(std::string("op:") + op, (long)a.size()); mon::count(std::string("pair:") + tt, (long)a.size());
}
template <class F, class T> static Exp ref_bits(F x) { Exp e; addexp(e, frombits<T>(bits(x))); return e; }
// an emulated half NaN keeps being a NaN, its payload is not tracked
template <class F, class T> static bool lax(const char *op, const char *surf, F a, T o) {
  return !strcmp(op, "reinterpret") && strcmp(surf, "scalar") && TI<F>::flt && TI<F>::w == 16 && isnan_(a) && isnan_(frombits<f16>(bits(o)));
}

template <class F, class T> static void cvt() {
  const size_t L = vlen_<F>();
  std::vector<F> a = pool<F>("cvt", TI<T>::nm(), L * PN, defd<F, T>); const size_t n = a.size(); std::vector<T> o(n);
  mon::ctx("%s/cvt/%s_to_%s", ext_name(), TI<F>::nm(), TI<T>::nm());
  VF_LOOP(L, nsimd::storeu(&o[i], nsimd::cvt(nsimd::loadu(&a[i], F()), F(), T()), T());) judge2("cvt", "base", a, o, ref<F, T>);
  VF_LOOP(L, nsimd::storeu(&o[i], nsimd::cvt<nsimd::pack<T, 1> >(nsimd::loadu<nsimd::pack<F, 1> >(&a[i])));) judge2("cvt", "pack1", a, o, ref<F, T>);
  VF_LOOP(L * PN, nsimd::storeu(&o[i], nsimd::cvt<nsimd::pack<T, PN> >(nsimd::loadu<nsimd::pack<F, PN> >(&a[i])));) judge2("cvt", "packN", a, o, ref<F, T>);
  VF_LOOP(1, o[i] = nsimd::scalar_cvt(T(), a[i]);) judge2("cvt", "scalar", a, o, ref<F, T>);
}
template <class F, class T> static void reint() {
  const size_t L = vlen_<F>();
  std::vector<F> a = pool<F>("rei", TI<T>::nm(), L * PN, always<F>); const size_t n = a.size(); std::vector<T> o(n);
  mon::ctx("%s/reinterpret/%s_to_%s", ext_name(), TI<F>::nm(), TI<T>::nm());
  Exp (*rf)(F) = ref_bits<F, T>;
  VF_LOOP(L, nsimd::storeu(&o[i], nsimd::reinterpret(nsimd::loadu(&a[i], F()), F(), T()), T());) judge2("reinterpret", "base", a, o, rf);
  VF_LOOP(L, nsimd::storeu(&o[i], nsimd::reinterpret<nsimd::pack<T, 1> >(nsimd::loadu<nsimd::pack<F, 1> >(&a[i])));) judge2("reinterpret", "pack1", a, o, rf);
  VF_LOOP(L * PN, nsimd::storeu(&o[i], nsimd::reinterpret<nsimd::pack<T, PN> >(nsimd::loadu<nsimd::pack<F, PN> >(&a[i])));) judge2("reinterpret", "packN", a, o, rf);
  VF_LOOP(1, o[i] = nsimd::scalar_reinterpret(T(), a[i]);) judge2("reinterpret", "scalar", a, o, rf);
  // logicals: truth values as seen through nbtrue, selection and storel
  mon::Rng g(mon::seed() ^ 991 ^ mon::hash_str(TI<T>::nm()));
  std::vector<F> m(L * PN), ones(L * PN); std::vector<T> x(L * PN);
  mon::ctx("%s/reinterpretl/%s_to_%s", ext_name(), TI<F>::nm(), TI<T>::nm());
  char tt[32]; snprintf(tt, sizeof tt, "%s_to_%s", TI<F>::nm(), TI<T>::nm());
  for (int r = 0; r < (mon::thorough() ? 3000 : 300); r++) {
    uint64_t dens = g.below(9); for (size_t i = 0; i < m.size(); i++) m[i] = frombits<F>(g.below(8) < dens ? (TI<F>::flt ? (TI<F>::w == 16 ? 0x3c00ull : TI<F>::w == 32 ? 0x3f800000ull : 0x3ff0000000000000ull) : 1) : 0);
    for (int surf = 0; surf < 3; surf++) {
      if (surf == 0) for (size_t i = 0; i < m.size(); i += L) nsimd::storelu(&x[i], nsimd::reinterpretl(nsimd::loadlu(&m[i], F()), F(), T()), T());
      if (surf == 1) for (size_t i = 0; i < m.size(); i += L) nsimd::storelu(&x[i], nsimd::reinterpretl<nsimd::packl<T, 1> >(nsimd::loadlu<nsimd::packl<F, 1> >(&m[i])));
      if (surf == 2) nsimd::storelu(&x[0], nsimd::reinterpretl<nsimd::packl<T, PN> >(nsimd::loadlu<nsimd::packl<F, PN> >(&m[0])));
      int c = 0;
      for (size_t i = 0; i < m.size(); i++) {
        mon::eval(mon::hash_str(tt) + 3 * r + 1000 * i + surf); c += bits(m[i]) != 0;
        if ((bits(x[i]) != 0) != (bits(m[i]) != 0)) mon::viol(key("reinterpretl", tt, surf == 0 ? "base" : surf == 1 ? "pack1" : "packN"), "reinterpretl %s on %s: lane %zu got %s want %d", tt, ext_name(), i, hex(x[i]).c_str(), bits(m[i]) != 0);
      }
    }
    for (size_t i = 0; i < m.size(); i += L) {
      int c = 0; for (size_t k = 0; k < L; k++) c += bits(m[i + k]) != 0;
      int got = nsimd::nbtrue(nsimd::reinterpretl(nsimd::loadlu(&m[i], F()), F(), T()), T());
      mon::eval(mon::hash_str(tt) + 77777 + r * 64 + i);
      if (got != c) mon::viol(key("reinterpretl", tt, "nbtrue"), "reinterpretl %s on %s: %d true lanes became %d", tt, ext_name(), c, got);
    }
  }
}
template <class F, class T> static void up() {
  const size_t L = vlen_<F>(), H = L / 2;
  std::vector<F> a = pool<F>("up", TI<T>::nm(), L * PN, defd<F, T>); const size_t n = a.size(); std::vector<T> o(n);
  mon::ctx("%s/upcvt/%s_to_%s", ext_name(), TI<F>::nm(), TI<T>::nm());
  VF_LOOP(L, typename VT<T>::v2 r = nsimd::upcvt(nsimd::loadu(&a[i], F()), F(), T()); nsimd::storeu(&o[i], r.v0, T()); nsimd::storeu(&o[i + H], r.v1, T());) judge2("upcvt", "base", a, o, ref<F, T>);
  VF_LOOP(L, auto r = nsimd::upcvt<nsimd::packx2<T, 1> >(nsimd::loadu<nsimd::pack<F, 1> >(&a[i])); nsimd::storeu(&o[i], r.v0); nsimd::storeu(&o[i + H], r.v1);) judge2("upcvt", "pack1", a, o, ref<F, T>);
  // each register of the pack is widened on its own: v0 holds the low halves, v1 the high halves
  std::vector<T> t0(L * PN), t1(L * PN);
  VF_LOOP(L * PN, auto r = nsimd::upcvt<nsimd::packx2<T, PN> >(nsimd::loadu<nsimd::pack<F, PN> >(&a[i])); nsimd::storeu(&t0[0], r.v0); nsimd::storeu(&t1[0], r.v1);
          for (size_t q = 0; q < (size_t)PN; q++) for (size_t k = 0; k < H; k++) { o[i + q * L + k] = t0[q * H + k]; o[i + q * L + H + k] = t1[q * H + k]; }) judge2("upcvt", "packN", a, o, ref<F, T>);
}
template <class F, class T> static void down() {
  const size_t L = vlen_<F>(), D = 2 * L;
  std::vector<F> a = pool<F>("dn", TI<T>::nm(), D * PN, defd<F, T>); const size_t n = a.size(); std::vector<T> o(n);
  mon::ctx("%s/downcvt/%s_to_%s", ext_name(), TI<F>::nm(), TI<T>::nm());
  VF_LOOP(D, nsimd::storeu(&o[i], nsimd::downcvt(nsimd::loadu(&a[i], F()), nsimd::loadu(&a[i + L], F()), F(), T()), T());) judge2("downcvt", "base", a, o, ref<F, T>);
  VF_LOOP(D, nsimd::storeu(&o[i], nsimd::downcvt<nsimd::pack<T, 1> >(nsimd::loadu<nsimd::pack<F, 1> >(&a[i]), nsimd::loadu<nsimd::pack<F, 1> >(&a[i + L])));) judge2("downcvt", "pack1", a, o, ref<F, T>);
  std::vector<F> b(n); // low halves first, then high halves
  VF_LOOP(D * PN, for (size_t q = 0; q < (size_t)PN; q++) for (size_t k = 0; k < L; k++) { b[i + q * L + k] = a[i + q * D + k]; b[i + L * PN + q * L + k] = a[i + q * D + L + k]; }
          nsimd::storeu(&o[i], nsimd::downcvt<nsimd::pack<T, PN> >(nsimd::loadu<nsimd::pack<F, PN> >(&b[i]), nsimd::loadu<nsimd::pack<F, PN> >(&b[i + L * PN])));) judge2("downcvt", "packN", a, o, ref<F, T>);
}
template <class F> static float a_cast(F x) { return (float)x; }
static float a_cast(f16 x) { return (float)fval(x); }
template <class F, class T> static Exp ref_to(F x) { Exp e = ref<F, T>(x);  return e; }
template <class F, class T> static void to_() {
  std::vector<F> a = pool<F>("to", TI<T>::nm(), 1, defd<F, T>); const size_t n = a.size(); std::vector<T> o(n);
  mon::ctx("%s/to/%s_to_%s", ext_name(), TI<F>::nm(), TI<T>::nm());
  VF_LOOP(1, o[i] = nsimd::to<T>(a[i]);)
  // half results may be rounded through single precision
  uint64_t hb = mon::hash_str(TI<F>::nm()) * 3 + mon::hash_str(TI<T>::nm());
  for (size_t i = 0; i < n; i++) {
    Exp e = ref<F, T>(a[i]); if (TI<T>::w == 16 && TI<T>::flt && !e.nan) { float f = TI<F>::flt ? a_cast(a[i]) : a_cast(a[i]); addexp(e, frombits<T>(o_f2h(f))); }
    mon::eval(hb ^ mon::Rng::mix(bits(a[i]))); char tt[32]; snprintf(tt, sizeof tt, "%s_to_%s", TI<F>::nm(), TI<T>::nm());
    if (!ok(e, o[i])) mon::viol(key("to", tt, "scalar"), "to<%s>(%s %s): got=%s want=%s", TI<T>::nm(), TI<F>::nm(), hex(a[i]).c_str(), hex(o[i]).c_str(), show<T>(e).c_str());
  }
  mon::count("op:to", (long)n);
}
#define SAME(F, A, B, C) cvt<F, A>(); cvt<F, B>(); cvt<F, C>(); reint<F, A>(); reint<F, B>(); reint<F, C>();
#define UP(F, A, B, C) up<F, A>(); up<F, B>(); up<F, C>();
#define DN(F, A, B, C) down<F, A>(); down<F, B>(); down<F, C>();
#define TO1(F) to_<F, i8>(); to_<F, u8>(); to_<F, i16>(); to_<F, u16>(); to_<F, i32>(); to_<F, u32>(); to_<F, i64>(); to_<F, u64>(); to_<F, f16>(); to_<F, f32>(); to_<F, f64>();
int main(int argc, char **argv) {
  mon::init(argc, argv);
  cvt<i8, i8>(); cvt<i8, u8>(); cvt<u8, i8>(); cvt<u8, u8>(); reint<i8, i8>(); reint<i8, u8>(); reint<u8, i8>(); reint<u8, u8>();
  SAME(i16, i16, u16, f16) SAME(u16, i16, u16, f16) SAME(f16, i16, u16, f16)
  SAME(i32, i32, u32, f32) SAME(u32, i32, u32, f32) SAME(f32, i32, u32, f32)
  SAME(i64, i64, u64, f64) SAME(u64, i64, u64, f64) SAME(f64, i64, u64, f64)
  UP(i8, i16, u16, f16) UP(u8, i16, u16, f16) UP(i16, i32, u32, f32) UP(u16, i32, u32, f32) UP(f16, i32, u32, f32)
  UP(i32, i64, u64, f64) UP(u32, i64, u64, f64) UP(f32, i64, u64, f64)
  down<i16, i8>(); down<i16, u8>(); down<u16, i8>(); down<u16, u8>(); down<f16, i8>(); down<f16, u8>();
  DN(i32, i16, u16, f16) DN(u32, i16, u16, f16) DN(f32, i16, u16, f16) DN(i64, i32, u32, f32) DN(u64, i32, u32, f32) DN(f64, i32, u32, f32)
#ifdef CPU
  VF_FOR_ALL(TO1)
#endif
  mon::flush_report("ok");
}

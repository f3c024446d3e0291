// Device functions: comparisons, logical operators, shifts, conversions, mask conversion.
#include "surf.hpp"
static bool rel(int k, long double a, long double b) { switch (k) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
static const char *cname[] = {"eq", "ne", "lt", "le", "gt", "ge"};
template <class T> static long double ld(T x) { return (long double)x; }
template <> long double ld<f16>(f16 x) { return o_h2d(bits(x)); }
template <class T> static void cmp() {
  mon::Rng g(mon::seed() ^ mon::hash_str("gcmp") ^ mon::hash_str(TI<T>::nm())); Data<T> d; fill(d, 2, g, dom_all<T>);
  for (size_t i = 0; i < d.a.size(); i++) if (i % 5 == 0 && TI<T>::w > 8) d.b[i] = frombits<T>(bits(d.a[i]) + (g.below(3) - 1));
  for (int k = 0; k < 6; k++) { mon::ctx("%s/%s/%s", ext_name(), cname[k], TI<T>::nm()); mon::count(std::string("op:") + cname[k], (long)d.a.size());
    for (size_t i = 0; i < d.a.size(); i++) {
      T a = d.a[i], b = d.b[i]; bool w = rel(k, ld(a), ld(b)), r = k == 0 ? nsimd::gpu_eq(a, b) : k == 1 ? nsimd::gpu_ne(a, b) : k == 2 ? nsimd::gpu_lt(a, b) : k == 3 ? nsimd::gpu_le(a, b) : k == 4 ? nsimd::gpu_gt(a, b) : nsimd::gpu_ge(a, b);
      bool h = (k == 0 ? nsimd::scalar_eq(a, b) : k == 1 ? nsimd::scalar_ne(a, b) : k == 2 ? nsimd::scalar_lt(a, b) : k == 3 ? nsimd::scalar_le(a, b) : k == 4 ? nsimd::scalar_gt(a, b) : nsimd::scalar_ge(a, b)) != 0;
      mon::eval(mon::hash_str(cname[k]) + mon::hash_str(TI<T>::nm()) + mon::Rng::mix(bits(a) + 3 * mon::Rng::mix(bits(b))));
      if (r != w) mon::viol(key(cname[k], TI<T>::nm(), "gpu"), "%s_%s on %s: a=%s b=%s got %d want %d", cname[k], TI<T>::nm(), ext_name(), hex(a).c_str(), hex(b).c_str(), r, w);
      if (h != w) mon::viol(key(cname[k], TI<T>::nm(), "scalar"), "%s_%s on %s: a=%s b=%s got %d want %d", cname[k], TI<T>::nm(), ext_name(), hex(a).c_str(), hex(b).c_str(), h, w);
    } }
}
static void logic() {
  for (int q = 0; q < 4; q++) { bool a = q & 1, b = (q >> 1) & 1; mon::eval((uint64_t)q);
#define L(n, ex) { bool w = (ex), r = nsimd::gpu_##n(a, b); if (r != w) mon::viol(key(#n, "bool", "gpu"), #n "(%d, %d) on %s: got %d want %d", a, b, ext_name(), r, w); }
    L(andl, a && b) L(orl, a || b) L(xorl, a != b) L(andnotl, a && !b) { bool r = nsimd::gpu_notl(a); if (r != !a) mon::viol(key("notl", "bool", "gpu"), "notl(%d): got %d", a, r); } }
}
template <class T> static void masks() {
  mon::Rng g(mon::seed() ^ mon::hash_str("gm") ^ mon::hash_str(TI<T>::nm())); std::vector<T> B = Gen<T>::boundary(); for (int i = 0; i < 20000; i++) B.push_back(frombits<T>(g.next())); B.push_back(frombits<T>(0)); B.push_back(frombits<T>((uint64_t)1 << (TI<T>::w - 1)));
  for (int k = 0; k < TI<T>::w; k++) B.push_back(frombits<T>((uint64_t)1 << k));
  for (int b = 0; b < 2; b++) { T m = nsimd::gpu_to_mask(T(), b != 0), s = nsimd::scalar_to_mask(T(), b); mon::eval((uint64_t)b + mon::hash_str(TI<T>::nm())); if (bits(m) != bits(frombits<T>(b ? ~0ull : 0)) || bits(s) != bits(m)) mon::viol(key("to_mask", TI<T>::nm(), "gpu"), "to_mask_%s(%d) on %s: got %s, host %s", TI<T>::nm(), b, ext_name(), hex(m).c_str(), hex(s).c_str()); }
  for (size_t i = 0; i < B.size(); i++) { mon::eval(mon::Rng::mix(bits(B[i])) + mon::hash_str(TI<T>::nm())); bool w = bits(B[i]) != 0, r = nsimd::gpu_to_logical(B[i]), h = nsimd::scalar_to_logical(B[i]) != 0; if (r != w || h != w) mon::viol(key("to_logical", TI<T>::nm(), "gpu"), "to_logical_%s(%s) on %s: got %d, host %d, want %d", TI<T>::nm(), hex(B[i]).c_str(), ext_name(), r, h, w); }
  mon::count("op:to_mask/to_logical", (long)B.size());
}
template <class T> static T shift(int kind, T x, int s) {
  typedef typename TI<T>::U U; U u = bits(x), r = kind == 0 ? (U)((uint64_t)u << s) : (U)((uint64_t)u >> s);
  if (kind == 2 && TI<T>::sgn && ((u >> (TI<T>::w - 1)) & 1)) for (int i = 0; i < s; i++) r |= (U)((U)1 << (TI<T>::w - 1 - i));
  return frombits<T>(r);
}
template <class T> static void shifts() {
  mon::Rng g(mon::seed() ^ mon::hash_str("gs") ^ mon::hash_str(TI<T>::nm())); std::vector<T> B = Gen<T>::boundary(); for (int i = 0; i < (mon::thorough() ? 20000 : 600); i++) B.push_back(Gen<T>::rnd(g));
  static const char *nm[] = {"shl", "shr", "shra"};
  for (int k = 0; k < 3; k++) for (int s = 0; s < TI<T>::w; s++) { mon::ctx("%s/%s/%s", ext_name(), nm[k], TI<T>::nm()); mon::count(std::string("op:") + nm[k], (long)B.size());
    for (size_t i = 0; i < B.size(); i++) { volatile int vs = s; T w = shift(k, B[i], s), r = k == 0 ? nsimd::gpu_shl(B[i], (int)vs) : k == 1 ? nsimd::gpu_shr(B[i], (int)vs) : nsimd::gpu_shra(B[i], (int)vs); mon::eval(mon::hash_str(nm[k]) + (uint64_t)s * 31 + mon::Rng::mix(bits(B[i]) + mon::hash_str(TI<T>::nm())));
      if (bits(r) != bits(w)) mon::viol(key(nm[k], TI<T>::nm(), "gpu"), "%s_%s(%s, %d) on %s: got %s want %s", nm[k], TI<T>::nm(), hex(B[i]).c_str(), s, ext_name(), hex(r).c_str(), hex(w).c_str()); } }
}
// --- conversions ---------------------------------------------------------------
template <class D> static D to(long double v) { return (D)v; }
template <> f16 to<f16>(long double v) { return frombits<f16>(o_d2h((double)v)); }
template <class D, class S> static void cvt() {
  mon::Rng g(mon::seed() ^ mon::hash_str(TI<D>::nm()) * 3 ^ mon::hash_str(TI<S>::nm())); std::vector<S> B = Gen<S>::boundary(); for (int i = 0; i < (mon::thorough() ? 400000 : 8000); i++) B.push_back(Gen<S>::rnd(g));
  if (TI<S>::w <= 16) for (uint32_t i = 0; i < (1u << TI<S>::w); i++) B.push_back(frombits<S>(i));
  mon::ctx("%s/cvt/%s_%s", ext_name(), TI<D>::nm(), TI<S>::nm());
  for (size_t i = 0; i < B.size(); i++) {
    S x = B[i]; long double v = ld(x); D want; bool nan = false;
    if (TI<D>::flt) { nan = isnan_(x); want = nan ? frombits<D>(0) : to<D>(v); }
    else if (TI<S>::flt) { // defined where the truncated value fits
      if (isnan_(x)) continue; long double t = truncl(v), lo = TI<D>::sgn ? -ldexpl(1, TI<D>::w - 1) : 0, hi = TI<D>::sgn ? ldexpl(1, TI<D>::w - 1) : ldexpl(1, TI<D>::w); if (!(t >= lo && t < hi)) continue; want = to<D>(t);
    } else want = frombits<D>((uint64_t)(__int128)v);
    D r = nsimd::gpu_cvt(D(), x), h = nsimd::scalar_cvt(D(), x); mon::eval(mon::hash_str(TI<D>::nm()) * 5 + mon::Rng::mix(bits(x) + mon::hash_str(TI<S>::nm())));
    if (nan ? !isnan_(r) : bits(r) != bits(want)) mon::viol(key("cvt", TI<D>::nm(), "gpu") + "/" + TI<S>::nm(), "cvt to %s of %s %s on %s: got %s want %s", TI<D>::nm(), TI<S>::nm(), hex(x).c_str(), ext_name(), hex(r).c_str(), hex(want).c_str());
    if (nan ? !isnan_(h) : bits(h) != bits(want)) mon::viol(key("cvt", TI<D>::nm(), "scalar") + "/" + TI<S>::nm(), "cvt to %s of %s %s on %s: got %s want %s", TI<D>::nm(), TI<S>::nm(), hex(x).c_str(), ext_name(), hex(h).c_str(), hex(want).c_str());
    D q = nsimd::gpu_reinterpret(D(), x), p = nsimd::scalar_reinterpret(D(), x); if ((uint64_t)bits(q) != (uint64_t)bits(x)) mon::viol(key("reinterpret", TI<D>::nm(), "gpu") + "/" + TI<S>::nm(), "reinterpret of %s %s as %s on %s: got %s", TI<S>::nm(), hex(x).c_str(), TI<D>::nm(), ext_name(), hex(q).c_str());
    if ((uint64_t)bits(p) != (uint64_t)bits(x)) mon::viol(key("reinterpret", TI<D>::nm(), "scalar") + "/" + TI<S>::nm(), "reinterpret of %s %s as %s on %s: got %s", TI<S>::nm(), hex(x).c_str(), TI<D>::nm(), ext_name(), hex(p).c_str());
  }
  mon::count("op:cvt/reinterpret", (long)B.size());
}
template <class D, class S> static void to_only() { // nsimd::to between types of any two widths
  mon::Rng g(mon::seed() ^ mon::hash_str(TI<D>::nm()) * 7 ^ mon::hash_str(TI<S>::nm())); std::vector<S> B = Gen<S>::boundary(); for (int i = 0; i < 3000; i++) B.push_back(Gen<S>::rnd(g));
  for (size_t i = 0; i < B.size(); i++) { S x = B[i]; long double v = ld(x); D want; bool nan = false;
    if (TI<D>::flt) { nan = isnan_(x); want = nan ? frombits<D>(0) : to<D>(v); if (TI<D>::w == 16) { float f = (float)v; want = frombits<D>(o_f2h(f)); } }
    else if (TI<S>::flt) { if (isnan_(x)) continue; long double t = truncl(v), lo = TI<D>::sgn ? -ldexpl(1, TI<D>::w - 1) : 0, hi = TI<D>::sgn ? ldexpl(1, TI<D>::w - 1) : ldexpl(1, TI<D>::w); if (!(t >= lo && t < hi)) continue; want = to<D>(t); }
    else want = frombits<D>((uint64_t)(__int128)v);
    D r = nsimd::to<D>(x); mon::eval(mon::hash_str(TI<D>::nm()) * 11 + mon::Rng::mix(bits(x) + mon::hash_str(TI<S>::nm())));
    if (nan ? !isnan_(r) : bits(r) != bits(want) && !(TI<D>::w == 16 && bits(r) == bits(to<D>(v)))) mon::viol(key("to", TI<D>::nm(), "gpu") + "/" + TI<S>::nm(), "to<%s> of %s %s on %s: got %s want %s", TI<D>::nm(), TI<S>::nm(), hex(x).c_str(), ext_name(), hex(r).c_str(), hex(want).c_str()); }
}
#define TO1(D) to_only<D, i8>(); to_only<D, u8>(); to_only<D, i16>(); to_only<D, u16>(); to_only<D, i32>(); to_only<D, u32>(); to_only<D, i64>(); to_only<D, u64>(); to_only<D, f16>(); to_only<D, f32>(); to_only<D, f64>();
#define P2(A, B) cvt<A, A>(); cvt<A, B>(); cvt<B, A>(); cvt<B, B>();
#define P3(A, B, C) cvt<A, A>(); cvt<A, B>(); cvt<A, C>(); cvt<B, A>(); cvt<B, B>(); cvt<B, C>(); cvt<C, A>(); cvt<C, B>(); cvt<C, C>();
#define GO(T) cmp<T>(); masks<T>();
#define GS(T) shifts<T>();
int main(int argc, char **argv) {
  mon::init(argc, argv); logic(); VF_FOR_ALL(GO) VF_FOR_INT(GS)
  P2(i8, u8) P3(i16, u16, f16) P3(i32, u32, f32) P3(i64, u64, f64)
  VF_FOR_ALL(TO1)
  mon::flush_report("ok");
}

// Contiguous, masked and logical loads and stores against guard pages and canaries.
#include "surf.hpp"
#include "arena.hpp"
using arena::Arena;
template <class T> static bool same(T a, T b) { return bits(a) == bits(b) || (TI<T>::w == 16 && TI<T>::flt && isnan_(a) && isnan_(b)); }
template <class T> static T mk(int b) { return frombits<T>(!b ? 0 : TI<T>::flt ? (TI<T>::w == 16 ? 0x3c00ull : TI<T>::w == 32 ? 0x3f800000ull : 0x3ff0000000000000ull) : 1); }
template <class T> static bool nz(T x) { return !iszero_(x); }
template <class T> static T rv(mon::Rng &g) { for (;;) { T x = g.below(4) ? frombits<T>(g.next()) : Gen<T>::rnd(g); if (!(TI<T>::w == 16 && TI<T>::flt && isnan_(x))) return x; } }

// Surfaces: S::N registers at once
template <class T, int NN> struct S { // packs
  enum { N = NN };
  typedef nsimd::pack<T, NN> V; typedef nsimd::packl<T, NN> L;
  static const char *nm() { return NN == 1 ? "pack1" : "packN"; }
  static V ld(bool al, const T *p) { return al ? nsimd::loada<V>(p) : nsimd::loadu<V>(p); }
  static void st(bool al, T *p, V v) { if (al) nsimd::storea(p, v); else nsimd::storeu(p, v); }
  static L ldl(bool al, const T *p) { return al ? nsimd::loadla<L>(p) : nsimd::loadlu<L>(p); }
  static void stl(bool al, T *p, L v) { if (al) nsimd::storela(p, v); else nsimd::storelu(p, v); }
  static V mo(bool al, L m, const T *p, V o) { return al ? nsimd::masko_loada1(m, p, o) : nsimd::masko_loadu1(m, p, o); }
  static V mz(bool al, L m, const T *p) { return al ? nsimd::maskz_loada1(m, p) : nsimd::maskz_loadu1(m, p); }
  static void ms(bool al, L m, T *p, V v) { if (al) nsimd::mask_storea1(m, p, v); else nsimd::mask_storeu1(m, p, v); }
};
template <class T> struct S<T, 0> { // base API
  enum { N = 1 };
  typedef typename VT<T>::v V; typedef typename VT<T>::l L;
  static const char *nm() { return "base"; }
  static V ld(bool al, const T *p) { return al ? nsimd::loada(p, T()) : nsimd::loadu(p, T()); }
  static void st(bool al, T *p, V v) { if (al) nsimd::storea(p, v, T()); else nsimd::storeu(p, v, T()); }
  static L ldl(bool al, const T *p) { return al ? nsimd::loadla(p, T()) : nsimd::loadlu(p, T()); }
  static void stl(bool al, T *p, L v) { if (al) nsimd::storela(p, v, T()); else nsimd::storelu(p, v, T()); }
  static V mo(bool al, L m, const T *p, V o) { return al ? nsimd::masko_loada1(m, p, o, T()) : nsimd::masko_loadu1(m, p, o, T()); }
  static V mz(bool al, L m, const T *p) { return al ? nsimd::maskz_loada1(m, p, T()) : nsimd::maskz_loadu1(m, p, T()); }
  static void ms(bool al, L m, T *p, V v) { if (al) nsimd::mask_storea1(m, p, v, T()); else nsimd::mask_storeu1(m, p, v, T()); }
};
template <class T, int NN> struct Run {
  typedef S<T, NN> Z; typedef typename Z::V V; typedef typename Z::L L;
  size_t n; mon::Rng g; Arena A; std::vector<T> src, out, msk, oth;
  Run() : n((size_t)vlen_<T>() * Z::N), g(mon::seed() ^ mon::hash_str(TI<T>::nm()) ^ (NN * 77)), A(2), src(n + 64), out(n + 64), msk(n + 64), oth(n + 64) {}
  std::string k(const char *op, const char *what) { return key(op, TI<T>::nm(), Z::nm()) + "/" + what; }
  void ev(const char *op, size_t a, uint64_t m) { mon::eval(mon::hash_str(op) * 3 + mon::hash_str(TI<T>::nm()) + 5 * NN + mon::Rng::mix(a * 977 + m)); mon::count(std::string("op:") + op); }
  void fault(const char *op, const T *p, const char *how) { mon::viol(k(op, "fault"), "%s_%s on %s via %s touched inaccessible memory: operand at %+ld bytes from start, %+ld from end of region, fault at %+ld from the operand (%s)", op, TI<T>::nm(), ext_name(), Z::nm(), (long)((unsigned char *)p - A.lo), (long)((unsigned char *)p - A.hi), (long)((unsigned char *)arena::fault_addr - (unsigned char *)p), how); }
  void stray(const char *op, const T *p, long d) { mon::viol(k(op, "stray-write"), "%s_%s on %s via %s changed a byte it must not: offset %ld relative to the operand of %zu bytes", op, TI<T>::nm(), ext_name(), Z::nm(), (long)(A.lo + d - (unsigned char *)p), n * sizeof(T)); A.resync(); }
  // Positions: flush against each guard, and aligned/misaligned in the middle
  std::vector<T *> places(bool al) {
    std::vector<T *> r; size_t sz = n * sizeof(T), step = al ? NSIMD_MAX_ALIGNMENT : sizeof(T);
    r.push_back((T *)A.lo);
    size_t e = (A.hi - A.lo) - sz; e -= e % step; r.push_back((T *)(A.lo + e));
    for (size_t o = 0; o < (size_t)(al ? 4 : 2 * NSIMD_MAX_ALIGNMENT / sizeof(T)); o++) r.push_back((T *)(A.lo + A.page - sz / 2 / step * step + o * step)); // straddles the page border
    for (int i = 0; i < 6; i++) { size_t o = g.below(A.shadow.size() - sz); r.push_back((T *)(A.lo + o / step * step)); }
    return r;
  }
  void plain() {
    for (int al = 0; al < 2; al++) for (T *p : places(al)) for (int rep = 0; rep < (mon::thorough() ? 20 : 3); rep++) {
      size_t at = (unsigned char *)p - A.lo; if ((unsigned char *)(p + n) > A.hi) continue;
      const char *lo = al ? "loada" : "loadu", *so = al ? "storea" : "storeu";
      A.paint(g); for (size_t i = 0; i < n; i++) { src[i] = rv<T>(g); } memcpy(p, &src[0], n * sizeof(T)); A.resync();
      mon::ctx("%s/%s/%s/%s", ext_name(), lo, TI<T>::nm(), Z::nm()); ev(lo, at, rep);
      bool q = arena::quiet([&] { V v = Z::ld(al, p); Z::st(0, &out[0], v); });
      if (!q) fault(lo, p, "full vector inside the region");
      else { for (size_t i = 0; i < n; i++) if (!same(out[i], src[i])) { mon::viol(k(lo, "value"), "%s_%s on %s: lane %zu got %s want %s", lo, TI<T>::nm(), ext_name(), i, hex(out[i]).c_str(), hex(src[i]).c_str()); break; } if (A.diff() >= 0) stray(lo, p, A.diff()); }
      for (size_t i = 0; i < n; i++) src[i] = rv<T>(g);
      mon::ctx("%s/%s/%s/%s", ext_name(), so, TI<T>::nm(), Z::nm()); ev(so, at, rep);
      V v = Z::ld(0, &src[0]); A.expect(p, &src[0], n * sizeof(T));
      q = arena::quiet([&] { Z::st(al, p, v); });
      if (!q) { fault(so, p, "full vector inside the region"); A.resync(); } else { long d = A.diff(); if (d >= 0) { if (d >= (long)at && d < (long)(at + n * sizeof(T))) { size_t i = (d - at) / sizeof(T); mon::viol(k(so, "value"), "%s_%s on %s: lane %zu stored %s want %s", so, TI<T>::nm(), ext_name(), i, hex(p[i]).c_str(), hex(src[i]).c_str()); A.resync(); } else stray(so, p, d); } }
      // logicals
      lo = al ? "loadla" : "loadlu"; so = al ? "storela" : "storelu";
      for (size_t i = 0; i < n; i++) src[i] = g.below(2) ? mk<T>(0) : g.below(3) ? mk<T>(1) : rv<T>(g);
      memcpy(p, &src[0], n * sizeof(T)); A.resync();
      mon::ctx("%s/%s/%s/%s", ext_name(), lo, TI<T>::nm(), Z::nm()); ev(lo, at, rep);
      q = arena::quiet([&] { L l = Z::ldl(al, p); Z::stl(0, &out[0], l); });
      if (!q) fault(lo, p, "full vector inside the region");
      else for (size_t i = 0; i < n; i++) if (bits(out[i]) != bits(mk<T>(nz(src[i])))) { mon::viol(k(lo, "value"), "%s_%s on %s: element %s gives %s", lo, TI<T>::nm(), ext_name(), hex(src[i]).c_str(), hex(out[i]).c_str()); break; }
      for (size_t i = 0; i < n; i++) { src[i] = mk<T>((int)g.below(2)); }
      L l = Z::ldl(0, &src[0]); A.expect(p, &src[0], n * sizeof(T));
      mon::ctx("%s/%s/%s/%s", ext_name(), so, TI<T>::nm(), Z::nm()); ev(so, at, rep);
      q = arena::quiet([&] { Z::stl(al, p, l); });
      if (!q) { fault(so, p, "full vector inside the region"); A.resync(); } else { long d = A.diff(); if (d >= 0) { if (d >= (long)at && d < (long)(at + n * sizeof(T))) { size_t i = (d - at) / sizeof(T); mon::viol(k(so, "value"), "%s_%s on %s: lane %zu stored %s want %s", so, TI<T>::nm(), ext_name(), i, hex(p[i]).c_str(), hex(src[i]).c_str()); A.resync(); } else stray(so, p, d); } }
    }
  }
  // one masked access at p; lanes outside the region are inactive
  void masked1(bool al, T *p, uint64_t tag) {
    size_t at = (size_t)((unsigned char *)p - A.lo); bool q; long d;
    auto inside = [&](size_t i) { return (unsigned char *)(p + i) >= A.lo && (unsigned char *)(p + i + 1) <= A.hi; };
    for (size_t i = 0; i < n; i++) oth[i] = rv<T>(g);
    L m = Z::ldl(0, &msk[0]); V o = Z::ld(0, &oth[0]);
    for (int zo = 0; zo < 2; zo++) {
      const char *op = zo ? (al ? "maskz_loada1" : "maskz_loadu1") : (al ? "masko_loada1" : "masko_loadu1");
      mon::ctx("%s/%s/%s/%s", ext_name(), op, TI<T>::nm(), Z::nm()); ev(op, at, tag);
      q = arena::quiet([&] { V v = zo ? Z::mz(al, m, p) : Z::mo(al, m, p, o); Z::st(0, &out[0], v); });
      if (!q) { fault(op, p, "inactive lane"); continue; }
      for (size_t i = 0; i < n; i++) {
        T w = nz(msk[i]) ? p[i] : zo ? mk<T>(0) : oth[i];
        if (!same(out[i], w)) { mon::viol(k(op, nz(msk[i]) ? "active" : "inactive"), "%s_%s on %s via %s: %s lane %zu got %s want %s", op, TI<T>::nm(), ext_name(), Z::nm(), nz(msk[i]) ? "active" : "inactive", i, hex(out[i]).c_str(), hex(w).c_str()); break; }
      }
    }
    if ((d = A.diff()) >= 0) stray("masked load", p, d);
    const char *op = al ? "mask_storea1" : "mask_storeu1";
    mon::ctx("%s/%s/%s/%s", ext_name(), op, TI<T>::nm(), Z::nm()); ev(op, at, tag);
    for (size_t i = 0; i < n; i++) if (nz(msk[i]) && inside(i)) A.expect(p + i, &oth[i], sizeof(T));
    q = arena::quiet([&] { Z::ms(al, m, p, o); });
    if (!q) { fault(op, p, "inactive lane"); A.resync(); return; }
    if ((d = A.diff()) >= 0) { long i = (d - (long)at) / (long)sizeof(T); if (d >= (long)at && i < (long)n) { mon::viol(k(op, nz(msk[i]) ? "active" : "inactive"), "%s_%s on %s via %s: lane %ld (mask %d) memory is %s, value operand %s", op, TI<T>::nm(), ext_name(), Z::nm(), i, (int)nz(msk[i]), hex(p[i]).c_str(), hex(oth[i]).c_str()); A.resync(); } else stray(op, p, d); }
  }
  void masked() {
    // half NaN patterns in memory do not survive the f32 emulation bit for bit: same() accounts for it
    for (int rep = 0; rep < (mon::thorough() ? 8 : 1); rep++) for (int al = 0; al < 2; al++) {
      A.paint(g);
      size_t step = al ? NSIMD_MAX_ALIGNMENT : sizeof(T);
      // tail: lanes >= c lie in the upper guard page
      for (size_t c = 0; c <= n; c++) { if ((c * sizeof(T)) % step) continue; T *p = (T *)(A.hi - c * sizeof(T));
        for (int var = 0; var < 3; var++) { for (size_t i = 0; i < n; i++) msk[i] = mk<T>(i < c && (var == 0 || g.below(2))); masked1(al, p, c * 4 + var); } }
      // head: lanes < c lie in the lower guard page
      for (size_t c = 0; c <= n; c++) { if ((c * sizeof(T)) % step) continue; T *p = (T *)(A.lo - c * sizeof(T));
        for (int var = 0; var < 3; var++) { for (size_t i = 0; i < n; i++) msk[i] = mk<T>(i >= c && (var == 0 || g.below(2))); masked1(al, p, c * 4 + var + 100000); } }
      // every single lane, every hole, and random masks at various places
      T *mid = (T *)(A.lo + 1024);
      for (size_t c = 0; c < n; c++) for (int inv = 0; inv < 2; inv++) { for (size_t i = 0; i < n; i++) msk[i] = mk<T>((i == c) != (inv == 1)); masked1(al, mid + (al ? 0 : c % 5), c * 2 + inv + 200000); }
      for (int r = 0; r < 60; r++) { uint64_t dens = g.below(9); for (size_t i = 0; i < n; i++) msk[i] = mk<T>(g.below(8) < dens); size_t o = g.below(A.shadow.size() - n * sizeof(T) - 64); masked1(al, (T *)(A.lo + o / step * step), 300000 + r); }
    }
  }
};
#define GO(T) { Run<T, 0> r; r.plain(); r.masked(); } { Run<T, 1> r; r.plain(); r.masked(); } { Run<T, PN> r; r.plain(); r.masked(); }
int main(int argc, char **argv) {
  mon::init(argc, argv); arena::init();
  VF_FOR_ALL(GO)
  mon::flush_report("ok");
}

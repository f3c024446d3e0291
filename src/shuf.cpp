// Shuffles, broadcasts, iota, loop tail masks and vector lengths.
#include "surf.hpp"
#include <climits>
template <class T> static bool same(T a, T b) { return bits(a) == bits(b) || (TI<T>::w == 16 && TI<T>::flt && isnan_(a) && isnan_(b)); }
template <class T> static T mk(int b) { return frombits<T>(!b ? 0 : TI<T>::flt ? (TI<T>::w == 16 ? 0x3c00ull : TI<T>::w == 32 ? 0x3f800000ull : 0x3ff0000000000000ull) : 1); }
template <class T> static T num(size_t i) { if (!TI<T>::flt) return frombits<T>(i); double v = (double)i; uint64_t b; if (TI<T>::w == 16) return frombits<T>(o_d2h(v)); if (TI<T>::w == 32) { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return frombits<T>(u); } memcpy(&b, &v, 8); return frombits<T>(b); }
template <class T> static T rv(mon::Rng &g) { for (;;) { T x = g.below(4) ? frombits<T>(g.next()) : Gen<T>::rnd(g); if (!(TI<T>::w == 16 && TI<T>::flt && isnan_(x))) return x; } }
template <class T, int NN> struct S {
  enum { N = NN };
  typedef nsimd::pack<T, NN> V; typedef nsimd::packl<T, NN> L;
  static const char *nm() { return NN == 1 ? "pack1" : NN == PN ? "packN" : "pack2"; }
  static V ld(const T *p) { return nsimd::loadu<V>(p); } static void st(T *p, V v) { nsimd::storeu(p, v); } static void stl(T *p, L v) { nsimd::storelu(p, v); }
  static V zl(V a, V b) { return nsimd::ziplo(a, b); } static V zh(V a, V b) { return nsimd::ziphi(a, b); }
  static V ul(V a, V b) { return nsimd::unziplo(a, b); } static V uh(V a, V b) { return nsimd::unziphi(a, b); }
  static void z(V a, V b, V *o) { nsimd::packx2<T, NN> r = nsimd::zip(a, b); o[0] = r.v0; o[1] = r.v1; }
  static void u(V a, V b, V *o) { nsimd::packx2<T, NN> r = nsimd::unzip(a, b); o[0] = r.v0; o[1] = r.v1; }
  static V s1(T x) { return nsimd::set1<V>(x); } static L s1l(int x) { return nsimd::set1l<L>(x); } static V io() { return nsimd::iota<V>(); }
  static L tail(int i, int n) { return nsimd::mask_for_loop_tail<L>(i, n); } static int len() { return nsimd::len(V()); }
};
template <class T> struct S<T, 0> {
  enum { N = 1 };
  typedef typename VT<T>::v V; typedef typename VT<T>::l L;
  static const char *nm() { return "base"; }
  static V ld(const T *p) { return nsimd::loadu(p, T()); } static void st(T *p, V v) { nsimd::storeu(p, v, T()); } static void stl(T *p, L v) { nsimd::storelu(p, v, T()); }
  static V zl(V a, V b) { return nsimd::ziplo(a, b, T()); } static V zh(V a, V b) { return nsimd::ziphi(a, b, T()); }
  static V ul(V a, V b) { return nsimd::unziplo(a, b, T()); } static V uh(V a, V b) { return nsimd::unziphi(a, b, T()); }
  static void z(V a, V b, V *o) { typename VT<T>::v2 r = nsimd::zip(a, b, T()); o[0] = r.v0; o[1] = r.v1; }
  static void u(V a, V b, V *o) { typename VT<T>::v2 r = nsimd::unzip(a, b, T()); o[0] = r.v0; o[1] = r.v1; }
  static V s1(T x) { return nsimd::set1(x, T()); } static L s1l(int x) { return nsimd::set1l(x, T()); } static V io() { return nsimd::iota(T()); }
  static L tail(int i, int n) { return nsimd::mask_for_loop_tail(i, n, T()); } static int len() { return nsimd::len(T()); }
};
template <class T, int NN> struct Run {
  typedef S<T, NN> Z; typedef typename Z::V V; typedef typename Z::L L;
  size_t l, n; mon::Rng g; std::vector<T> a, b, o, w;
  Run() : l(vlen_<T>()), n(l * Z::N), g(mon::seed() ^ mon::hash_str(TI<T>::nm()) ^ (NN * 7)), a(n), b(n), o(2 * n), w(2 * n) {}
  void ev(const char *op, uint64_t h) { mon::ctx("%s/%s/%s/%s", ext_name(), op, TI<T>::nm(), Z::nm()); mon::eval(mon::hash_str(op) * 3 + mon::hash_str(TI<T>::nm()) + 5 * NN + mon::Rng::mix(h)); mon::count(std::string("op:") + op); }
  void cmp(const char *op, size_t cnt, const char *what) { for (size_t i = 0; i < cnt; i++) if (!same(o[i], w[i])) { mon::viol(key(op, TI<T>::nm(), Z::nm()), "%s_%s on %s via %s (%s): lane %zu of %zu got %s want %s", op, TI<T>::nm(), ext_name(), Z::nm(), what, i, cnt, hex(o[i]).c_str(), hex(w[i]).c_str()); return; } }
  void shuffle(int mode, int rep) {
    for (size_t i = 0; i < n; i++) { // one marked lane, distinct lanes, or random values
      a[i] = mode == 0 ? num<T>(i % 120) : mode == 1 ? mk<T>(i == (size_t)rep % n) : rv<T>(g);
      b[i] = mode == 0 ? num<T>(120 + i % 120) : mode == 1 ? mk<T>(0) : rv<T>(g);
      if (mode == 1 && (rep & 1)) std::swap(a[i], b[i]); }
    V va = Z::ld(&a[0]), vb = Z::ld(&b[0]), r[2]; uint64_t h = mode * 1000003ull + rep; size_t k = l / 2;
    const char *m = mode == 0 ? "distinct lanes" : mode == 1 ? "one marked lane" : "random lanes";
    // the registers of a pack are shuffled one by one; a single-lane register keeps its lane
    for (size_t q = 0; q < n; q += l) for (size_t i = 0; i < k; i++) { w[q + 2 * i] = a[q + i]; w[q + 2 * i + 1] = b[q + i]; w[n + q + 2 * i] = a[q + k + i]; w[n + q + 2 * i + 1] = b[q + k + i]; }
    if (l == 1) return;
    ev("ziplo", h); Z::st(&o[0], Z::zl(va, vb)); cmp("ziplo", n, m);
    ev("zip", h); Z::z(va, vb, r); Z::st(&o[0], r[0]); Z::st(&o[n], r[1]); cmp("zip", 2 * n, m);
    // unzipping the zipped pair restores it
    ev("unzip", h + 1); Z::u(r[0], r[1], r); Z::st(&o[0], r[0]); Z::st(&o[n], r[1]);
    std::vector<T> ww = w; for (size_t i = 0; i < n; i++) { w[i] = a[i]; w[n + i] = b[i]; } cmp("unzip", 2 * n, "of a zipped pair");
    for (size_t i = 0; i < n; i++) w[i] = ww[n + i];
    ev("ziphi", h); Z::st(&o[0], Z::zh(va, vb)); cmp("ziphi", n, m);
    for (size_t q = 0; q < n; q += l) for (size_t i = 0; i < k; i++) { w[q + i] = a[q + 2 * i]; w[q + k + i] = b[q + 2 * i]; w[n + q + i] = a[q + 2 * i + 1]; w[n + q + k + i] = b[q + 2 * i + 1]; }
    ev("unziplo", h); Z::st(&o[0], Z::ul(va, vb)); cmp("unziplo", n, m);
    ev("unzip", h); Z::u(va, vb, r); Z::st(&o[0], r[0]); Z::st(&o[n], r[1]); cmp("unzip", 2 * n, m);
    for (size_t i = 0; i < n; i++) w[i] = w[n + i];
    ev("unziphi", h); Z::st(&o[0], Z::uh(va, vb)); cmp("unziphi", n, m);
  }
  void tail(int i, int m) {
    ev("mask_for_loop_tail", (uint64_t)(uint32_t)i << 32 | (uint32_t)m);
    Z::stl(&o[0], Z::tail(i, m)); for (size_t q = 0; q < n; q++) w[q] = mk<T>((long long)i + (long long)q < (long long)m);
    char s[64]; snprintf(s, sizeof s, "i=%d n=%d", i, m); cmp("mask_for_loop_tail", n, s);
  }
  void go() {
    ev("len", 0); if (Z::len() != (int)n || Z::len() <= 0 || Z::len() > (int)(NSIMD_MAX_LEN_BIT / TI<T>::w) * Z::N) mon::viol(key("len", TI<T>::nm(), Z::nm()), "len is %d", Z::len());
    if (sizeof(typename VT<T>::v) != l * sizeof(T) && !(TI<T>::flt && TI<T>::w == 16)) mon::viol(key("len", TI<T>::nm(), Z::nm()), "len %zu does not match a register of %zu bytes", l, sizeof(typename VT<T>::v));
    shuffle(0, 0);
    for (size_t i = 0; i < 2 * n; i++) shuffle(1, (int)i);
    for (int i = 0; i < (mon::thorough() ? 20000 : 800); i++) shuffle(2, i);
    std::vector<T> B = Gen<T>::boundary();
    if (TI<T>::w <= 16) { B.clear(); for (uint32_t i = 0; i < (1u << TI<T>::w); i++) B.push_back(frombits<T>(i)); }
    else for (int i = 0; i < (mon::thorough() ? 100000 : 4000); i++) B.push_back(Gen<T>::rnd(g));
    for (T x : B) { ev("set1", bits(x)); Z::st(&o[0], Z::s1(x)); for (size_t i = 0; i < n; i++) w[i] = x; cmp("set1", n, hex(x).c_str()); }
    int tv[] = {0, 1, -1, 2, 3, 4, 8, 16, 100, 255, 256, 257, 65535, 65536, 65537, INT_MAX, INT_MIN, 1 << 24, 1 << 30, -256, -65536};
    for (int x : tv) { ev("set1l", (uint32_t)x); Z::stl(&o[0], Z::s1l(x)); for (size_t i = 0; i < n; i++) w[i] = mk<T>(x != 0); char s[32]; snprintf(s, sizeof s, "%d", x); cmp("set1l", n, s); }
    ev("iota", 0); Z::st(&o[0], Z::io()); for (size_t i = 0; i < n; i++) w[i] = num<T>(i); cmp("iota", n, "");
    for (int i = 0; i <= (int)(2 * n + 3); i++) for (int d = -(int)n - 2; d <= (int)n + 2; d++) if (i + d >= 0) tail(i, i + d);
    int base[] = {0, 1, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 24, INT_MAX - 400, INT_MAX - 1, INT_MAX};
    for (int i : base) for (int m : base) { tail(i, m); for (int d = -3; d <= (int)n + 3; d++) { if (i > INT_MAX - 400) { long long q = (long long)i + d; if (q <= INT_MAX) tail(i, (int)q); } else if (i + d >= 0) tail(i, i + d); } }
    for (int i = INT_MAX - (int)n - 3; i < INT_MAX; i++) { tail(i, INT_MAX); tail(0, i); tail(i, 5); }
    for (int r = 0; r < (mon::thorough() ? 20000 : 300); r++) { int i = (int)(g.next() & 0x7fffffff), d = (int)g.below(3 * n) - (int)n; long long m = (long long)i + d; if (m < 0 || m > INT_MAX) m = i; tail(i, (int)m); }
  }
};
#define GO(T) { Run<T, 0> r; r.go(); } { Run<T, 1> r; r.go(); } { Run<T, 2> r; r.go(); } { Run<T, PN> r; r.go(); }
int main(int argc, char **argv) { mon::init(argc, argv); VF_FOR_ALL(GO) mon::flush_report("ok"); }

// De-interleaving loads, interleaving stores, gather and scatter against guard
// pages and canaries; indexed accesses additionally in a huge sparse mapping.
#include "surf.hpp"
#include "arena.hpp"
using arena::Arena;
template <class T> static bool same(T a, T b) { return bits(a) == bits(b) || (TI<T>::w == 16 && TI<T>::flt && isnan_(a) && isnan_(b)); }
template <class T> static T rv(mon::Rng &g) { for (;;) { T x = g.below(4) ? frombits<T>(g.next()) : Gen<T>::rnd(g); if (!(TI<T>::w == 16 && TI<T>::flt && isnan_(x))) return x; } }
template <class T> struct IT { typedef typename nsimd::traits<T>::itype t; };

template <class T, int NN> struct S {
  enum { N = NN };
  typedef nsimd::pack<T, NN> V; typedef typename IT<T>::t I; typedef nsimd::pack<I, NN> VI;
  static const char *nm() { return NN == 1 ? "pack1" : "packN"; }
  static V ld(const T *p) { return nsimd::loadu<V>(p); }
  static VI ldi(const I *p) { return nsimd::loadu<VI>(p); }
  static void st(T *p, V v) { nsimd::storeu(p, v); }
  static void l2(bool al, const T *p, V *o) { nsimd::packx2<T, NN> r = al ? nsimd::load2a<nsimd::packx2<T, NN> >(p) : nsimd::load2u<nsimd::packx2<T, NN> >(p); o[0] = r.v0; o[1] = r.v1; }
  static void l3(bool al, const T *p, V *o) { nsimd::packx3<T, NN> r = al ? nsimd::load3a<nsimd::packx3<T, NN> >(p) : nsimd::load3u<nsimd::packx3<T, NN> >(p); o[0] = r.v0; o[1] = r.v1; o[2] = r.v2; }
  static void l4(bool al, const T *p, V *o) { nsimd::packx4<T, NN> r = al ? nsimd::load4a<nsimd::packx4<T, NN> >(p) : nsimd::load4u<nsimd::packx4<T, NN> >(p); o[0] = r.v0; o[1] = r.v1; o[2] = r.v2; o[3] = r.v3; }
  static void s2(bool al, T *p, const V *o) { if (al) nsimd::store2a(p, o[0], o[1]); else nsimd::store2u(p, o[0], o[1]); }
  static void s3(bool al, T *p, const V *o) { if (al) nsimd::store3a(p, o[0], o[1], o[2]); else nsimd::store3u(p, o[0], o[1], o[2]); }
  static void s4(bool al, T *p, const V *o) { if (al) nsimd::store4a(p, o[0], o[1], o[2], o[3]); else nsimd::store4u(p, o[0], o[1], o[2], o[3]); }
  static V ga(const T *p, VI i) { return nsimd::gather(p, i); }
  static void sc(T *p, VI i, V v) { nsimd::scatter(p, i, v); }
  static V gl(const T *p, int s) { return nsimd::gather_linear<V>(p, s); }
  static void sl(T *p, int s, V v) { nsimd::scatter_linear(p, s, v); }
};
template <class T> struct S<T, 0> {
  enum { N = 1 };
  typedef typename VT<T>::v V; typedef typename IT<T>::t I; typedef typename VT<I>::v VI;
  static const char *nm() { return "base"; }
  static V ld(const T *p) { return nsimd::loadu(p, T()); }
  static VI ldi(const I *p) { return nsimd::loadu(p, I()); }
  static void st(T *p, V v) { nsimd::storeu(p, v, T()); }
  static void l2(bool al, const T *p, V *o) { typename VT<T>::v2 r = al ? nsimd::load2a(p, T()) : nsimd::load2u(p, T()); o[0] = r.v0; o[1] = r.v1; }
  static void l3(bool al, const T *p, V *o) { typename VT<T>::v3 r = al ? nsimd::load3a(p, T()) : nsimd::load3u(p, T()); o[0] = r.v0; o[1] = r.v1; o[2] = r.v2; }
  static void l4(bool al, const T *p, V *o) { typename VT<T>::v4 r = al ? nsimd::load4a(p, T()) : nsimd::load4u(p, T()); o[0] = r.v0; o[1] = r.v1; o[2] = r.v2; o[3] = r.v3; }
  static void s2(bool al, T *p, const V *o) { if (al) nsimd::store2a(p, o[0], o[1], T()); else nsimd::store2u(p, o[0], o[1], T()); }
  static void s3(bool al, T *p, const V *o) { if (al) nsimd::store3a(p, o[0], o[1], o[2], T()); else nsimd::store3u(p, o[0], o[1], o[2], T()); }
  static void s4(bool al, T *p, const V *o) { if (al) nsimd::store4a(p, o[0], o[1], o[2], o[3], T()); else nsimd::store4u(p, o[0], o[1], o[2], o[3], T()); }
  static V ga(const T *p, VI i) { return nsimd::gather(p, i, T()); }
  static void sc(T *p, VI i, V v) { nsimd::scatter(p, i, v, T()); }
  static V gl(const T *p, int s) { return nsimd::gather_linear(p, s, T()); }
  static void sl(T *p, int s, V v) { nsimd::scatter_linear(p, s, v, T()); }
};
// A large address range, inaccessible except for the pages opened on demand
struct Far {
  unsigned char *base; size_t half; std::vector<unsigned char *> open_;
  Far() : half((size_t)17 << 30) { base = (unsigned char *)mmap(0, 2 * half, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) base = 0; }
  unsigned char *mid() { return base + half; }
  void open(unsigned char *p) { p = (unsigned char *)((uintptr_t)p & ~(uintptr_t)4095); mprotect(p, 4096, PROT_READ | PROT_WRITE); open_.push_back(p); }
  void close() { for (unsigned char *p : open_) { madvise(p, 4096, MADV_DONTNEED); mprotect(p, 4096, PROT_NONE); } open_.clear(); }
};
static Far &far_() { static Far f; return f; }

template <class T, int NN, bool IDX> struct Indexed;
template <class T, int NN> struct Run {
  typedef S<T, NN> Z; typedef typename Z::V V;
  size_t n; mon::Rng g; Arena A; std::vector<T> src, out;
  Run() : n((size_t)vlen_<T>() * Z::N), g(mon::seed() ^ mon::hash_str(TI<T>::nm()) ^ (NN * 77) ^ 0x707), A(3), src(4 * n + 64), out(4 * n + 64) {}
  std::string k(const char *op, const char *what) { return key(op, TI<T>::nm(), Z::nm()) + "/" + what; }
  void ev(const char *op, uint64_t a, uint64_t m) { mon::ctx("%s/%s/%s/%s", ext_name(), op, TI<T>::nm(), Z::nm()); mon::eval(mon::hash_str(op) * 3 + mon::hash_str(TI<T>::nm()) + 5 * NN + mon::Rng::mix(a * 977 + m)); mon::count(std::string("op:") + op); }
  void fault(const char *op, const void *p, const char *how) { mon::viol(k(op, "fault"), "%s_%s on %s via %s touched inaccessible memory, fault at %+ld bytes from the operand (%s)", op, TI<T>::nm(), ext_name(), Z::nm(), (long)((unsigned char *)arena::fault_addr - (unsigned char *)p), how); }
  std::vector<T *> places(bool al, size_t sz) {
    std::vector<T *> r; size_t step = al ? NSIMD_MAX_ALIGNMENT : sizeof(T);
    r.push_back((T *)A.lo); size_t e = A.shadow.size() - sz; e -= e % step; r.push_back((T *)(A.lo + e));
    for (size_t o = 0; o < (size_t)(al ? 3 : NSIMD_MAX_ALIGNMENT / sizeof(T)); o++) r.push_back((T *)(A.lo + A.page - sz / 2 / step * step + o * step));
    for (int i = 0; i < 4; i++) r.push_back((T *)(A.lo + g.below(A.shadow.size() - sz) / step * step));
    return r;
  }
  static T num(size_t i) { if (!TI<T>::flt) return frombits<T>(i); double v = (double)i; uint64_t b; if (TI<T>::w == 16) return frombits<T>(o_d2h(v)); if (TI<T>::w == 32) { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return frombits<T>(u); } memcpy(&b, &v, 8); return frombits<T>(b); }
  static void ldn(int deg, bool al, const T *p, V *v) { if (deg == 2) Z::l2(al, p, v); else if (deg == 3) Z::l3(al, p, v); else Z::l4(al, p, v); }
  static void stn(int deg, bool al, T *p, const V *v) { if (deg == 2) Z::s2(al, p, v); else if (deg == 3) Z::s3(al, p, v); else Z::s4(al, p, v); }
  // Which structure does each lane hold? Identity unless all channels agree on another bijection.
  std::vector<size_t> laneorder(const char *op, int deg, bool al) {
    std::vector<size_t> id(n), r(n); for (size_t i = 0; i < n; i++) id[i] = i;
    T *p = (T *)A.lo; for (size_t i = 0; i < n; i++) for (int c = 0; c < deg; c++) p[deg * i + c] = num(i);
    ev(op, 7, 7); V v[4]; if (!arena::quiet([&] { ldn(deg, al, p, v); })) return id;
    for (int c = 0; c < deg; c++) Z::st(&out[c * n], v[c]);
    std::vector<int> hit(n, 0);
    for (size_t i = 0; i < n; i++) { size_t j = 0; while (j < n && !same(out[i], num(j))) j++; if (j == n || hit[j]++) return id; for (int c = 1; c < deg; c++) if (!same(out[c * n + i], num(j))) return id; r[i] = j; }
    return r;
  }
  void soa() {
    static const char *LN[2][3] = {{"load2u", "load3u", "load4u"}, {"load2a", "load3a", "load4a"}}, *SN[2][3] = {{"store2u", "store3u", "store4u"}, {"store2a", "store3a", "store4a"}};
    for (int deg = 2; deg <= 4; deg++) for (int al = 0; al < 2; al++) {
     std::vector<size_t> P = laneorder(LN[al][deg - 2], deg, al); bool inorder = true; size_t w = 0; for (size_t i = 0; i < n; i++) if (P[i] != i) { if (inorder) w = i; inorder = false; }
     if (!inorder) { mon::viol(k(LN[al][deg - 2], "lane-order"), "%s_%s on %s via %s: lane %zu holds structure %zu (all channels agree)", LN[al][deg - 2], TI<T>::nm(), ext_name(), Z::nm(), w, P[w]);
       mon::viol(k(SN[al][deg - 2], "lane-order"), "%s_%s on %s via %s: lane %zu is stored as structure %zu", SN[al][deg - 2], TI<T>::nm(), ext_name(), Z::nm(), w, P[w]); }
     for (T *p : places(al, deg * n * sizeof(T))) for (int rep = 0; rep < (mon::thorough() ? 24 : 3); rep++) {
      const size_t tot = deg * n; size_t at = (unsigned char *)p - A.lo;
      if ((unsigned char *)p < A.lo || (unsigned char *)(p + tot) > A.hi) continue;
      const char *op = LN[al][deg - 2];
      A.paint(g); for (size_t i = 0; i < tot; i++) src[i] = rv<T>(g); memcpy(p, &src[0], tot * sizeof(T)); A.resync();
      ev(op, at, rep); V v[4];
      if (!arena::quiet([&] { ldn(deg, al, p, v); })) { fault(op, p, "all elements inside the region"); continue; }
      for (int c = 0; c < deg; c++) Z::st(&out[c * n], v[c]);
      bool bad = false;
      for (int c = 0; c < deg && !bad; c++) for (size_t i = 0; i < n; i++) { T want = src[deg * P[i] + c]; if (!same(out[c * n + i], want)) { mon::viol(k(op, "value"), "%s_%s on %s via %s: channel %d lane %zu got %s want %s", op, TI<T>::nm(), ext_name(), Z::nm(), c, i, hex(out[c * n + i]).c_str(), hex(want).c_str()); bad = true; break; } }
      if (A.diff() >= 0) { mon::viol(k(op, "stray-write"), "%s_%s on %s changed memory", op, TI<T>::nm(), ext_name()); A.resync(); }
      op = SN[al][deg - 2];
      for (size_t i = 0; i < tot; i++) src[i] = rv<T>(g);
      for (int c = 0; c < deg; c++) { v[c] = Z::ld(&src[c * n]); for (size_t i = 0; i < n; i++) A.expect(p + deg * P[i] + c, &src[c * n + i], sizeof(T)); }
      ev(op, at, rep);
      if (!arena::quiet([&] { stn(deg, al, p, v); })) { fault(op, p, "all elements inside the region"); A.resync(); continue; }
      long d = A.diff();
      if (d >= 0) { bool in = d >= (long)at && d < (long)(at + tot * sizeof(T)); long i = (d - (long)at) / (long)sizeof(T);
        if (in) { T want; memcpy(&want, &A.shadow[at + i * sizeof(T)], sizeof want); mon::viol(k(op, "value"), "%s_%s on %s via %s: element %ld (channel %ld) stored %s want %s", op, TI<T>::nm(), ext_name(), Z::nm(), i, i % deg, hex(p[i]).c_str(), hex(want).c_str()); }
        else mon::viol(k(op, "stray-write"), "%s_%s on %s via %s changed a byte at offset %ld relative to an operand of %zu bytes", op, TI<T>::nm(), ext_name(), Z::nm(), d - (long)at, tot * sizeof(T));
        A.resync(); }
     }
    }
  }
  // strided forms: every stride for which all lanes stay in the region
  void linear1(T *p, long st) {
    ev("gather_linear", (uint64_t)((unsigned char *)p - A.lo), (uint64_t)st);
    if (!arena::quiet([&] { Z::st(&out[0], Z::gl(p, (int)st)); })) fault("gather_linear", p, "all lanes inside the region");
    else for (size_t i = 0; i < n; i++) if (!same(out[i], p[(long)i * st])) { mon::viol(k("gather_linear", "value"), "gather_linear_%s on %s via %s: stride %ld lane %zu got %s want %s", TI<T>::nm(), ext_name(), Z::nm(), st, i, hex(out[i]).c_str(), hex(p[(long)i * st]).c_str()); break; }
    for (size_t i = 0; i < n; i++) { src[i] = rv<T>(g); A.expect(p + (long)i * st, &src[i], sizeof(T)); }
    V v = Z::ld(&src[0]); ev("scatter_linear", (uint64_t)((unsigned char *)p - A.lo), (uint64_t)st);
    if (!arena::quiet([&] { Z::sl(p, (int)st, v); })) { fault("scatter_linear", p, "all lanes inside the region"); A.resync(); return; }
    long d = A.diff(); if (d >= 0) { mon::viol(k("scatter_linear", "value"), "scatter_linear_%s on %s via %s: stride %ld, byte at %ld from the base wrong", TI<T>::nm(), ext_name(), Z::nm(), st, d - (long)((unsigned char *)p - A.lo)); A.resync(); }
  }
  void linear() {
    long cap = (long)(A.shadow.size() / sizeof(T)); A.paint(g);
    for (size_t i = 0; i < A.shadow.size() / sizeof(T); i++) { T x = rv<T>(g); memcpy(A.lo + i * sizeof(T), &x, sizeof x); } A.resync();
    long mx = n > 1 ? (cap - 1) / (long)(n - 1) : 9;
    for (long s = -mx; s <= mx; s++) { if (!mon::thorough() && (s > 24 || s < -24) && s != mx && s != -mx && g.below(4)) continue;
      long span = s * (long)(n - 1); T *b = (T *)A.lo, *e = (T *)A.hi;
      T *lo = span < 0 ? b - span : b, *hi = span > 0 ? e - 1 - span : e - 1; // legal bases
      linear1(lo, s); linear1(hi, s); if (hi > lo) linear1(lo + g.below((uint64_t)(hi - lo)), s); }
    // far strides, one page per lane
    if (!far_().base || n < 2) return;
    for (int r = 0; r < (mon::thorough() ? 200 : 24); r++) {
      long lim = (long)((far_().half - 8192) / sizeof(T) / n); long lim2 = 2147483647L / (long)(n - 1); if (lim2 < lim) lim = lim2;
      long s = (long)g.below((uint64_t)lim); if (r & 2) s = lim - (long)g.below(3); if (r & 1) s = -s;
      T *p = (T *)far_().mid() + (g.below(2) ? 0 : -1);
      for (size_t i = 0; i < n; i++) { T *q = p + (long)i * s; far_().open((unsigned char *)q); }
      for (size_t i = 0; i < n; i++) { src[i] = rv<T>(g); p[(long)i * s] = src[i]; }
      ev("gather_linear", 1u << 30, (uint64_t)s);
      if (!arena::quiet([&] { Z::st(&out[0], Z::gl(p, (int)s)); })) fault("gather_linear", p, "far stride");
      else for (size_t i = 0; i < n; i++) if (!same(out[i], p[(long)i * s])) { mon::viol(k("gather_linear", "value"), "gather_linear_%s on %s via %s: stride %ld lane %zu got %s want %s", TI<T>::nm(), ext_name(), Z::nm(), s, i, hex(out[i]).c_str(), hex(p[(long)i * s]).c_str()); break; }
      for (size_t i = 0; i < n; i++) src[i] = rv<T>(g);
      V v = Z::ld(&src[0]); ev("scatter_linear", 1u << 30, (uint64_t)s);
      if (!arena::quiet([&] { Z::sl(p, (int)s, v); })) fault("scatter_linear", p, "far stride");
      else if (s) for (size_t i = 0; i < n; i++) if (!same(src[i], p[(long)i * s])) { mon::viol(k("scatter_linear", "value"), "scatter_linear_%s on %s via %s: stride %ld lane %zu got %s want %s", TI<T>::nm(), ext_name(), Z::nm(), s, i, hex(p[(long)i * s]).c_str(), hex(src[i]).c_str()); break; }
      far_().close();
    }
  }
  void go() { soa(); linear(); Indexed<T, NN, (TI<T>::w > 8)>::go(*this); }
};
template <class T, int NN> struct Indexed<T, NN, false> { static void go(Run<T, NN> &) {} };
template <class T, int NN> struct Indexed<T, NN, true> {
  typedef Run<T, NN> R; typedef typename R::Z Z; typedef typename Z::I I; typedef typename Z::V V;
  static void one(R &r, T *p, std::vector<I> &ix, const char *how, bool shadow) {
    size_t n = r.n; uint64_t h = 0; for (size_t i = 0; i < n; i++) h = mon::Rng::mix(h ^ (uint64_t)ix[i]);
    typename Z::VI vi = Z::ldi(&ix[0]);
    r.ev("gather", h, 1);
    if (!arena::quiet([&] { Z::st(&r.out[0], Z::ga(p, vi)); })) r.fault("gather", p, how);
    else for (size_t i = 0; i < n; i++) if (!same(r.out[i], p[(long)ix[i]])) { mon::viol(r.k("gather", "value"), "gather_%s on %s via %s (%s): lane %zu index %lld got %s want %s", TI<T>::nm(), ext_name(), Z::nm(), how, i, (long long)ix[i], hex(r.out[i]).c_str(), hex(p[(long)ix[i]]).c_str()); break; }
    if (shadow && r.A.diff() >= 0) { mon::viol(r.k("gather", "stray-write"), "gather changed memory"); r.A.resync(); }
    std::map<long, T> last;
    for (size_t i = 0; i < n; i++) { r.src[i] = rv<T>(r.g); last[(long)ix[i]] = r.src[i]; if (shadow) r.A.expect(p + (long)ix[i], &r.src[i], sizeof(T)); }
    V v = Z::ld(&r.src[0]); r.ev("scatter", h, 2);
    if (!arena::quiet([&] { Z::sc(p, vi, v); })) { r.fault("scatter", p, how); if (shadow) r.A.resync(); return; }
    for (auto &q : last) if (!same(p[q.first], q.second)) { mon::viol(r.k("scatter", "value"), "scatter_%s on %s via %s (%s): index %ld holds %s want %s", TI<T>::nm(), ext_name(), Z::nm(), how, q.first, hex(p[q.first]).c_str(), hex(q.second).c_str()); break; }
    if (shadow && r.A.diff() >= 0) { long d = r.A.diff() - (long)((unsigned char *)p - r.A.lo); mon::viol(r.k("scatter", "stray-write"), "scatter_%s on %s via %s changed a byte at %ld from the base that no lane names", TI<T>::nm(), ext_name(), Z::nm(), d); r.A.resync(); }
  }
  static void go(R &r) {
    size_t n = r.n, cap = r.A.shadow.size() / sizeof(T); std::vector<I> ix(n);
    for (size_t i = 0; i < cap; i++) { T x = rv<T>(r.g); memcpy(r.A.lo + i * sizeof(T), &x, sizeof x); } r.A.resync();
    for (int rep = 0; rep < (mon::thorough() ? 6000 : 400); rep++) {
      size_t b; switch (rep % 5) { case 0: b = 0; break; case 1: b = cap - 1; break; case 2: b = cap / 2; break; default: b = r.g.below(cap); }
      bool few = rep % 7 == 0; // heavily overlapping
      for (size_t i = 0; i < n; i++) { long t = few ? (long)r.g.below(3) * (long)(cap / 2 - 1) : r.g.below(4) ? (long)r.g.below(cap) : (r.g.below(2) ? 0 : (long)cap - 1); ix[i] = (I)(t - (long)b); }
      if (rep % 11 == 3) for (size_t i = 0; i < n; i++) ix[i] = (I)((long)(i < cap ? i : 0) - 0), b = 0;
      if (rep % 11 == 5) for (size_t i = 0; i < n; i++) ix[i] = (I)((long)(n - 1 - i)), b = 0;
      one(r, (T *)r.A.lo + b, ix, few ? "overlapping" : "spread", true);
    }
    if (!far_().base) return;
    for (int rep = 0; rep < (mon::thorough() ? 300 : 30); rep++) {
      long lim = (long)((far_().half - 8192) / sizeof(T)); if (sizeof(I) < 8) { long m = ((long)1 << (8 * sizeof(I) - 1)) - 1; if (m < lim) lim = m; }
      T *p = (T *)far_().mid() + (rep % 3) - 1;
      for (size_t i = 0; i < n; i++) {
        long t = (long)r.g.below((uint64_t)lim + 1); if (r.g.below(6) == 0) t = lim; if (r.g.below(2)) t = -t;
        if (r.g.below(3)) { // put the element at a page border
          uintptr_t a = (uintptr_t)(p + t) & ~(uintptr_t)4095; if (r.g.below(2)) a += 4096 - sizeof(T); t = (long)((T *)a - p); if (t > lim) t = lim; if (t < -lim) t = -lim; }
        ix[i] = (I)t; far_().open((unsigned char *)(p + t)); }
      for (size_t i = 0; i < n; i++) p[(long)ix[i]] = rv<T>(r.g);
      one(r, p, ix, "far indices", false); far_().close();
    }
  }
};
#define GO(T) { Run<T, 0> r; r.go(); } { Run<T, 1> r; r.go(); } { Run<T, PN> r; r.go(); }
int main(int argc, char **argv) {
  mon::init(argc, argv); arena::init();
  mon::count("sparse mapping available", far_().base != 0);
  VF_FOR_ALL(GO)
  mon::flush_report("ok");
}

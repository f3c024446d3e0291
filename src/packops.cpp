// The C++ pack API: operators, compound assignment, mixed scalar operands,
// tagged loads/stores, splitting and merging, for unrolls 1..4, the default
// extension and an explicitly named lower one.
#include "packref.hpp"
template <class T, class P, int N> struct Ar {
  typedef X::A<T> R;
  static void go(Buf<T> &B, T s) {
    const int L = nsimd::len(P()); P x = nsimd::loadu<P>(B.a), y = nsimd::loadu<P>(B.b), sp = nsimd::set1<P>(s); T sv[MAXL]; for (int i = 0; i < L; i++) sv[i] = s;
    (void)sp;
#define AR(nm, OP, f) { Ck<T> c(#nm, N); for (int i = 0; i < L; i++) B.w[i] = R::f(B.a[i], B.b[i]); nsimd::storeu(B.o, x OP y); c.lanes(B.o, B.w, B.a, B.b, L); \
    { Ck<T> d(#nm "_fn", N); nsimd::storeu(B.o, nsimd::f(x, y)); d.lanes(B.o, B.w, B.a, B.b, L); } \
    { Ck<T> d(#nm "_assign", N); P t = x; P &r = (t OP##= y); d.one(&r == &t, "compound assignment must return its left operand"); nsimd::storeu(B.o, t); d.lanes(B.o, B.w, B.a, B.b, L); } \
    { Ck<T> d(#nm "_self", N); P t = x; for (int i = 0; i < L; i++) B.w[i] = R::f(B.a[i], B.a[i]); t OP##= t; nsimd::storeu(B.o, t); d.lanes(B.o, B.w, B.a, B.a, L); } }
    AR(plus, +, add) AR(minus, -, sub) AR(times, *, mul)
#undef AR
    { Ck<T> c("neg", N); for (int i = 0; i < L; i++) B.w[i] = R::neg(B.a[i]); nsimd::storeu(B.o, -x); c.lanes(B.o, B.w, B.a, B.a, L); }
    { T d[MAXL]; for (int i = 0; i < L; i++) { d[i] = B.b[i]; if (!R::divok(B.a[i], d[i])) d[i] = nsimd::to<T>(3); B.w[i] = R::div(B.a[i], d[i]); } P z = nsimd::loadu<P>(d);
      { Ck<T> c("over", N); nsimd::storeu(B.o, x / z); c.lanes(B.o, B.w, B.a, d, L); } { Ck<T> c("over_assign", N); P t = x; t /= z; nsimd::storeu(B.o, t); c.lanes(B.o, B.w, B.a, d, L); } }
#define CM(nm, OP, k) { Ck<T> c(#nm, N); for (int i = 0; i < L; i++) B.m[i] = X::cmp(k, B.a[i], B.b[i]); nsimd::storelu(B.o, x OP y); c.mask(B.o, B.m, B.a, B.b, L); }
    CM(eq, ==, 0) CM(ne, !=, 1) CM(lt, <, 2) CM(le, <=, 3) CM(gt, >, 4) CM(ge, >=, 5)
#undef CM
    { Ck<T> c("splat", N); P t(s); nsimd::storeu(B.o, t); c.lanes(B.o, sv, sv, sv, L); }
    { Ck<T> c("copy", N); P t(x); P u; u = t; nsimd::storeu(B.o, u); c.lanes(B.o, B.a, B.a, B.a, L); }
  }
};
template <class T, class P, int N> static void bitw(Buf<T> &B) {
  const int L = nsimd::len(P()); P x = nsimd::loadu<P>(B.a), y = nsimd::loadu<P>(B.b);
  // bitwise operators act on the register image; for f16 the image is that of f32 pairs so it is only judged for exact formats
#define BI(nm, OP, k) { Ck<T> c(#nm, N); for (int i = 0; i < L; i++) B.w[i] = X::bit(k, B.a[i], B.b[i]); nsimd::storeu(B.o, x OP y); c.lanes(B.o, B.w, B.a, B.b, L); { Ck<T> d(#nm "_assign", N); P t = x; P &r = (t OP##= y); d.one(&r == &t, "returns left operand"); nsimd::storeu(B.o, t); d.lanes(B.o, B.w, B.a, B.b, L); } }
  BI(band, &, 0) BI(bor, |, 1) BI(bxor, ^, 2)
#undef BI
  { Ck<T> c("bitnot", N); for (int i = 0; i < L; i++) B.w[i] = X::bit(3, B.a[i], B.a[i]); nsimd::storeu(B.o, ~x); c.lanes(B.o, B.w, B.a, B.a, L); }
}
template <class T, class P, int N> static void shf(Buf<T> &B, int s) {
  const int L = nsimd::len(P()); P x = nsimd::loadu<P>(B.a); T sv[MAXL]; for (int i = 0; i < L; i++) sv[i] = (T)s;
  { Ck<T> c("shl", N); for (int i = 0; i < L; i++) B.w[i] = X::shl(B.a[i], s); nsimd::storeu(B.o, x << s); c.lanes(B.o, B.w, B.a, sv, L); }
  { Ck<T> c("shl_assign", N); P t = x; t <<= s; nsimd::storeu(B.o, t); c.lanes(B.o, B.w, B.a, sv, L); }
  { Ck<T> c("shr", N); for (int i = 0; i < L; i++) B.w[i] = X::shr(B.a[i], s); nsimd::storeu(B.o, x >> s); c.lanes(B.o, B.w, B.a, sv, L); }
  { Ck<T> c("shr_assign", N); P t = x; t >>= s; nsimd::storeu(B.o, t); c.lanes(B.o, B.w, B.a, sv, L); }
}
template <class T, class P, class PL, int N> static void logic(Buf<T> &B, mon::Rng &g) {
  const int L = nsimd::len(P()); T p[MAXL], q[MAXL]; bool bp[MAXL], bq[MAXL]; int mode = (int)g.below(6), hot = (int)g.below((uint64_t)L);
  for (int i = 0; i < L; i++) { bp[i] = mode == 0 ? true : mode == 1 ? false : mode == 2 ? i == hot : mode == 3 ? i != hot : (g.next() & 1); bq[i] = g.next() & 1; p[i] = nsimd::to<T>(bp[i] ? 1 : 0); q[i] = nsimd::to<T>(bq[i] ? 1 : 0); }
  PL x = nsimd::loadlu<PL>(p), y = nsimd::loadlu<PL>(q);
  { Ck<T> c("land", N); for (int i = 0; i < L; i++) B.m[i] = bp[i] && bq[i]; nsimd::storelu(B.o, x && y); c.mask(B.o, B.m, p, q, L); }
  { Ck<T> c("lor", N); for (int i = 0; i < L; i++) B.m[i] = bp[i] || bq[i]; nsimd::storelu(B.o, x || y); c.mask(B.o, B.m, p, q, L); }
  { Ck<T> c("lnot", N); for (int i = 0; i < L; i++) B.m[i] = !bp[i]; nsimd::storelu(B.o, !x); c.mask(B.o, B.m, p, p, L); }
  { Ck<T> c("splatl", N); for (int k = 0; k < 2; k++) { PL t(k); for (int i = 0; i < L; i++) B.m[i] = k; nsimd::storelu(B.o, t); c.mask(B.o, B.m, p, p, L); PL u(k == 1); nsimd::storelu(B.o, u); c.mask(B.o, B.m, p, p, L); } }
  int cnt = 0; for (int i = 0; i < L; i++) cnt += bp[i];
  { Ck<T> c("all", N); c.one((nsimd::all(x) != 0) == (cnt == L), "all() of a mask"); } { Ck<T> c("any", N); c.one((nsimd::any(x) != 0) == (cnt != 0), "any() of a mask"); }
  { Ck<T> c("nbtrue", N); c.one(nsimd::nbtrue(x) == cnt, "nbtrue() of a mask"); }
  P a = nsimd::loadu<P>(B.a), b = nsimd::loadu<P>(B.b);
  { Ck<T> c("if_else", N); for (int i = 0; i < L; i++) B.w[i] = bp[i] ? B.a[i] : B.b[i]; nsimd::storeu(B.o, nsimd::if_else(x, a, b)); c.lanes(B.o, B.w, B.a, B.b, L); }
  { Ck<T> c("len", N); c.one(nsimd::len(x) == L && nsimd::len<PL>() == L && nsimd::len<P>() == L && nsimd::len(a) == N * nsimd::len(T(), typename P::simd_ext()), "len() of pack and packl"); }
  // masks of another type of the same width
  typedef typename TI<T>::I I; typedef nsimd::packl<I, N, typename P::simd_ext> IL; I pi[MAXL]; for (int i = 0; i < L; i++) pi[i] = (I)bp[i]; IL xi = nsimd::loadlu<IL>(pi);
  { Ck<T> c("if_else_cross", N); nsimd::storeu(B.o, nsimd::if_else(xi, a, b)); for (int i = 0; i < L; i++) B.w[i] = bp[i] ? B.a[i] : B.b[i]; c.lanes(B.o, B.w, B.a, B.b, L); }
  { Ck<T> c("mask_store_cross", N); for (int i = 0; i < L; i++) B.o[i] = B.b[i]; nsimd::mask_storeu(xi, B.o, a); c.lanes(B.o, B.w, B.a, B.b, L); nsimd::storeu(B.o, nsimd::masko_loadu(xi, B.a, b)); c.lanes(B.o, B.w, B.a, B.b, L);
    for (int i = 0; i < L; i++) B.w[i] = bp[i] ? B.a[i] : nsimd::to<T>(0); nsimd::storeu(B.o, nsimd::maskz_loadu(xi, B.a)); c.lanes(B.o, B.w, B.a, B.b, L); }
}
template <class P> struct AlBuf { typename P::value_type *p; AlBuf() { void *q = 0; if (posix_memalign(&q, 64, (MAXL + 64) * sizeof(typename P::value_type))) abort(); p = (typename P::value_type *)q; } ~AlBuf() { free(p); } };
// tagged loads and stores
template <class T, class P, class PL, int N, class X_> static void tagged(Buf<T> &B, mon::Rng &g) {
  const int L = nsimd::len(P()); AlBuf<P> al, ao; memcpy(al.p, B.a, sizeof(T) * (size_t)L * 4); T *ap = al.p, *op = ao.p; T *ou = ao.p + 64 / sizeof(T) / 2 + 1;
  (void)ou; const int off = 1 + (int)g.below(3); T un[MAXL + 8]; memcpy(un + off, B.a, sizeof(T) * (size_t)L * 4); const T *up = un + off;
  T ml[MAXL]; bool bm[MAXL]; for (int i = 0; i < L; i++) { bm[i] = g.next() & 1; ml[i] = nsimd::to<T>(bm[i] ? 1 : 0); } PL m = nsimd::loadlu<PL>(ml); P bb = nsimd::loadu<P>(B.b);
  { Ck<T> c("load_tag", N); nsimd::storeu(B.o, nsimd::load<P, nsimd::aligned>(ap)); c.lanes(B.o, B.a, B.a, B.a, L); nsimd::storeu(B.o, nsimd::load<P, nsimd::unaligned>(up)); c.lanes(B.o, B.a, B.a, B.a, L); }
  { Ck<T> c("store_tag", N); P v = nsimd::loadu<P>(B.a); memset(op, 0x5a, sizeof(T) * (size_t)L); nsimd::store<nsimd::aligned>(op, v); c.lanes(op, B.a, B.a, B.a, L); memset(op, 0x5a, sizeof(T) * (size_t)L * 2); nsimd::store<nsimd::unaligned>(op + off, v); c.lanes(op + off, B.a, B.a, B.a, L); }
  { Ck<T> c("loadl_tag", N); AlBuf<P> q; memcpy(q.p, ml, sizeof(T) * (size_t)L); nsimd::storelu(B.o, nsimd::loadl<PL, nsimd::aligned>(q.p)); c.mask(B.o, bm, ml, ml, L); memcpy(q.p + off, ml, sizeof(T) * (size_t)L); nsimd::storelu(B.o, nsimd::loadl<PL, nsimd::unaligned>(q.p + off)); c.mask(B.o, bm, ml, ml, L); }
  { Ck<T> c("storel_tag", N); memset(op, 0x5a, sizeof(T) * (size_t)L); nsimd::storel<nsimd::aligned>(op, m); c.mask(op, bm, ml, ml, L); nsimd::storel<nsimd::unaligned>(op + off, m); c.mask(op + off, bm, ml, ml, L); }
  { Ck<T> c("maskload_tag", N); for (int i = 0; i < L; i++) B.w[i] = bm[i] ? B.a[i] : B.b[i];
    nsimd::storeu(B.o, nsimd::masko_load<nsimd::aligned>(m, ap, bb)); c.lanes(B.o, B.w, B.a, ml, L); nsimd::storeu(B.o, nsimd::masko_load<nsimd::unaligned>(m, up, bb)); c.lanes(B.o, B.w, B.a, ml, L);
    for (int i = 0; i < L; i++) B.w[i] = bm[i] ? B.a[i] : nsimd::to<T>(0);
    nsimd::storeu(B.o, nsimd::maskz_load<nsimd::aligned>(m, ap)); c.lanes(B.o, B.w, B.a, ml, L); nsimd::storeu(B.o, nsimd::maskz_load<nsimd::unaligned>(m, up)); c.lanes(B.o, B.w, B.a, ml, L); }
  { Ck<T> c("maskstore_tag", N); P v = nsimd::loadu<P>(B.a); for (int i = 0; i < L; i++) B.w[i] = bm[i] ? B.a[i] : B.b[i];
    memcpy(op, B.b, sizeof(T) * (size_t)L); nsimd::mask_store<nsimd::aligned>(m, op, v); c.lanes(op, B.w, B.a, ml, L); memcpy(op + off, B.b, sizeof(T) * (size_t)L); nsimd::mask_store<nsimd::unaligned>(m, op + off, v); c.lanes(op + off, B.w, B.a, ml, L); }
  // the tagged structured forms must equal the untagged ones, and store must invert load
#define AOS(K, ARGS) { Ck<T> c("load" #K "_tag", N); typedef nsimd::packx##K<T, N, X_> Q; Q q = nsimd::load##K##u<Q>(B.a), r = nsimd::load##K<Q, nsimd::aligned>(ap), s = nsimd::load##K<Q, nsimd::unaligned>(up); \
    nsimd::storeu(B.w, nsimd::to_pack(q)); nsimd::storeu(B.o, nsimd::to_pack(r)); c.lanes(B.o, B.w, B.a, B.a, K * L); nsimd::storeu(B.o, nsimd::to_pack(s)); c.lanes(B.o, B.w, B.a, B.a, K * L); \
    Ck<T> d("store" #K "_tag", N); memset(op, 0x5a, sizeof(T) * (size_t)L * K); nsimd::store##K<nsimd::aligned>(op, ARGS); d.lanes(op, B.a, B.a, B.a, K * L); memset(op, 0x5a, sizeof(T) * (size_t)L * K + off); nsimd::store##K<nsimd::unaligned>(op + off, ARGS); d.lanes(op + off, B.a, B.a, B.a, K * L); }
#define C_ ,
  AOS(2, q.v0 C_ q.v1) AOS(3, q.v0 C_ q.v1 C_ q.v2) AOS(4, q.v0 C_ q.v1 C_ q.v2 C_ q.v3)
}
// splitting and merging: v_k is filled from chunk k
template <class T, class P, int N, class X_> static void merge(Buf<T> &B) {
  const int L = nsimd::len(P()), R = L / N; P v[4]; for (int k = 0; k < 4; k++) v[k] = nsimd::loadu<P>(B.a + k * L);
#define INTER(K) for (int r = 0; r < N; r++) for (int k = 0; k < K; k++) memcpy(B.w + (r * K + k) * R, B.a + k * L + r * R, sizeof(T) * (size_t)R);
#define GET(K, i) { Ck<T> c("get_pack" #K, N); nsimd::storeu(B.o, nsimd::get_pack<i>(q)); c.lanes(B.o, B.a + i * L, B.a + i * L, B.a + i * L, L); }
#define MG(K) { Ck<T> c("to_pack" #K, N); c.one(nsimd::len(q) == K * L, "len() of a pack of registers sets"); nsimd::storeu(B.o, nsimd::to_pack(q)); c.lanes(B.o, B.a, B.a, B.a, K * L); Ck<T> d("to_pack_interleave" #K, N); INTER(K) nsimd::storeu(B.o, nsimd::to_pack_interleave(q)); d.lanes(B.o, B.w, B.a, B.a, K * L); }
  { nsimd::packx1<T, N, X_> q; q.v0 = v[0]; GET(1, 0) MG(1) }
  { nsimd::packx2<T, N, X_> q; q.v0 = v[0]; q.v1 = v[1]; GET(2, 0) GET(2, 1) MG(2) }
  { nsimd::packx3<T, N, X_> q; q.v0 = v[0]; q.v1 = v[1]; q.v2 = v[2]; GET(3, 0) GET(3, 1) GET(3, 2) MG(3) }
  { nsimd::packx4<T, N, X_> q; q.v0 = v[0]; q.v1 = v[1]; q.v2 = v[2]; q.v3 = v[3]; GET(4, 0) GET(4, 1) GET(4, 2) GET(4, 3) MG(4) }
  { P q = v[0]; GET(0, 0) { Ck<T> c("to_pack0", N); nsimd::storeu(B.o, nsimd::to_pack(q)); c.lanes(B.o, B.a, B.a, B.a, L); nsimd::storeu(B.o, nsimd::to_pack_interleave(q)); c.lanes(B.o, B.a, B.a, B.a, L); } }
}
// printing
template <class T, class P, int N> static void show_(Buf<T> &B, mon::Rng &g) {
  const int L = nsimd::len(P()), R = L / N; T v[MAXL]; double d[MAXL]; for (int i = 0; i < L; i++) { d[i] = (double)g.below(100); v[i] = nsimd::to<T>((int)d[i]); }
  std::ostringstream s, w; s << nsimd::loadu<P>(v); for (int r = 0; r < N; r++) { if (r) w << ", "; w << "{ "; for (int i = 0; i < R; i++) { if (i) w << ", "; w << d[r * R + i]; } w << " }"; }
  Ck<T> c("ostream", N); c.one(s.str() == w.str(), ("printed <" + s.str() + "> want <" + w.str() + ">").c_str()); (void)B;
}
template <class T, bool F> struct Al { template <class P> static void go(Buf<T> &, int) {} };
template <class T> struct Al<T, true> { template <class P> static void go(Buf<T> &B, int N) {
  const int L = nsimd::len(P()); P x = nsimd::loadu<P>(B.a), y = nsimd::loadu<P>(B.b); for (int i = 0; i < L; i++) B.use[i] = !isnan_(B.a[i]) && !isnan_(B.b[i]) && !(iszero_(B.a[i]) && iszero_(B.b[i]));
  { Ck<T> c("fabs", N); for (int i = 0; i < L; i++) B.w[i] = frombits<T>(bits(B.a[i]) & ~((typename TI<T>::U)1 << (TI<T>::w - 1))); nsimd::storeu(B.o, nsimd::fabs(x)); c.lanes(B.o, B.w, B.a, B.a, L); }
  { Ck<T> c("fmin", N); for (int i = 0; i < L; i++) B.w[i] = fval(B.a[i]) < fval(B.b[i]) ? B.a[i] : B.b[i]; nsimd::storeu(B.o, nsimd::fmin(x, y)); c.lanes(B.o, B.w, B.a, B.b, L, B.use); }
  { Ck<T> c("fmax", N); for (int i = 0; i < L; i++) B.w[i] = fval(B.a[i]) > fval(B.b[i]) ? B.a[i] : B.b[i]; nsimd::storeu(B.o, nsimd::fmax(x, y)); c.lanes(B.o, B.w, B.a, B.b, L, B.use); }
} };
template <class T, bool F> struct Sh { template <class P, int N> static void go(Buf<T> &B, mon::Rng &g) { shf<T, P, N>(B, (int)g.below((uint64_t)TI<T>::w)); bitw<T, P, N>(B); } };
template <class T> struct Sh<T, true> { template <class P, int N> static void go(Buf<T> &B, mon::Rng &) { bitw<T, P, N>(B); } };
template <> struct Sh<f16, true> { template <class P, int N> static void go(Buf<f16> &, mon::Rng &) {} };

template <class T, int N, class X_> static void all(mon::Rng &g, int rounds) {
  typedef nsimd::pack<T, N, X_> P; typedef nsimd::packl<T, N, X_> PL; static Buf<T> B; static std::vector<T> bd = Gen<T>::boundary();
  for (int r = 0; r < rounds; r++) {
    for (int i = 0; i < MAXL; i++) { B.a[i] = (g.next() & 1) ? bd[g.below(bd.size())] : Gen<T>::rnd(g); B.b[i] = (g.next() & 1) ? bd[g.below(bd.size())] : Gen<T>::rnd(g); if (g.below(16) == 0) B.b[i] = B.a[i];
      if (TI<T>::flt && sizeof(T) == 2 && isnan_(B.a[i])) B.a[i] = nsimd::to<T>(7); if (TI<T>::flt && sizeof(T) == 2 && isnan_(B.b[i])) B.b[i] = nsimd::to<T>(5); }
    Ar<T, P, N>::go(B, B.b[3]); Sh<T, TI<T>::flt>::template go<P, N>(B, g); logic<T, P, PL, N>(B, g); tagged<T, P, PL, N, X_>(B, g); merge<T, P, N, X_>(B); show_<T, P, N>(B, g); Al<T, TI<T>::flt>::template go<P>(B, N);
  }
  mon::sample("pack<%s,%d,%s> %d rounds of %d lanes", TI<T>::nm(), N, SFX.empty() ? ext_name() : SFX.c_str(), rounds, nsimd::len(P()));
}
#ifndef VF_TYPES
#define VF_TYPES VF_FOR_ALL
#endif
template <class T> static void type(mon::Rng &g) {
  const int R = mon::thorough() ? 3000 : 60; SFX = "";
  all<T, 1, nsimd::NSIMD_SIMD>(g, R); all<T, 2, nsimd::NSIMD_SIMD>(g, R); all<T, 3, nsimd::NSIMD_SIMD>(g, R); all<T, 4, nsimd::NSIMD_SIMD>(g, R);
#ifdef VF_LOW
  SFX = "-low"; all<T, 1, nsimd::VF_LOW>(g, R); all<T, 2, nsimd::VF_LOW>(g, R);
#endif
}
int main(int argc, char **argv) {
  mon::init(argc, argv); mon::Rng g(mon::seed());
#define GO(T) type<T>(g);
  VF_TYPES(GO)
  mon::flush_report("ok");
}

// friendly_but_not_optimized.hpp: operators with a scalar on either side.
#include "packref.hpp"
#include <nsimd/friendly_but_not_optimized.hpp>

template <class T, class P, int N, class S> static void ar(Buf<T> &B, S s, const char *sn) {
  typedef X::A<T> R; const int L = nsimd::len(P()); P x = nsimd::loadu<P>(B.a); T t = (T)s; T sv[MAXL]; for (int i = 0; i < L; i++) sv[i] = t; SFX = sn;
#define AR(nm, OP, f) { Ck<T> c(#nm "_vs", N); for (int i = 0; i < L; i++) B.w[i] = R::f(B.a[i], t); nsimd::storeu(B.o, x OP s); c.lanes(B.o, B.w, B.a, sv, L); \
    Ck<T> d(#nm "_sv", N); for (int i = 0; i < L; i++) B.w[i] = R::f(t, B.a[i]); nsimd::storeu(B.o, s OP x); d.lanes(B.o, B.w, sv, B.a, L); }
  AR(plus, +, add) AR(minus, -, sub) AR(times, *, mul)
#undef AR
  { T z[MAXL]; for (int i = 0; i < L; i++) z[i] = R::divok(t, B.a[i]) ? B.a[i] : (T)3; P y = nsimd::loadu<P>(z); Ck<T> d("over_sv", N); for (int i = 0; i < L; i++) B.w[i] = R::div(t, z[i]); nsimd::storeu(B.o, s / y); d.lanes(B.o, B.w, sv, z, L); }
  { T z[MAXL]; bool any = t != (T)0; for (int i = 0; i < L; i++) z[i] = R::divok(B.a[i], t) ? B.a[i] : (T)3; if (TI<T>::flt || any) { P y = nsimd::loadu<P>(z); Ck<T> d("over_vs", N); for (int i = 0; i < L; i++) B.w[i] = R::div(z[i], t); nsimd::storeu(B.o, y / s); d.lanes(B.o, B.w, z, sv, L); } }
#define CM(nm, OP, k) { Ck<T> c(#nm "_vs", N); for (int i = 0; i < L; i++) B.m[i] = X::cmp(k, B.a[i], t); nsimd::storelu(B.o, x OP s); c.mask(B.o, B.m, B.a, sv, L); \
    Ck<T> d(#nm "_sv", N); for (int i = 0; i < L; i++) B.m[i] = X::cmp(k, t, B.a[i]); nsimd::storelu(B.o, s OP x); d.mask(B.o, B.m, sv, B.a, L); }
  CM(eq, ==, 0) CM(ne, !=, 1) CM(lt, <, 2) CM(le, <=, 3) CM(gt, >, 4) CM(ge, >=, 5)
#undef CM
#define BI(nm, OP, k) { Ck<T> c(#nm "_vs", N); for (int i = 0; i < L; i++) B.w[i] = X::bit(k, B.a[i], t); nsimd::storeu(B.o, x OP s); c.lanes(B.o, B.w, B.a, sv, L); \
    Ck<T> d(#nm "_sv", N); nsimd::storeu(B.o, s OP x); d.lanes(B.o, B.w, sv, B.a, L); }
  BI(band, &, 0) BI(bor, |, 1) BI(bxor, ^, 2)
#undef BI
}
template <class T, int N> static void logic(Buf<T> &B, mon::Rng &g) {
  typedef nsimd::packl<T, N> PL; typedef typename TI<T>::I I; typedef nsimd::packl<I, N> IL; const int L = nsimd::len(PL()); T p[MAXL]; I q[MAXL]; bool bp[MAXL], bq[MAXL]; SFX = "";
  for (int i = 0; i < L; i++) { bp[i] = g.next() & 1; bq[i] = g.next() & 1; p[i] = (T)bp[i]; q[i] = (I)bq[i]; } PL x = nsimd::loadlu<PL>(p); IL y = nsimd::loadlu<IL>(q);
#define LG(nm, OP) { Ck<T> c(#nm "_cross", N); for (int i = 0; i < L; i++) B.m[i] = bp[i] OP bq[i]; nsimd::storelu(B.o, x OP y); c.mask(B.o, B.m, p, p, L); I oi[MAXL]; nsimd::storelu(oi, y OP x); for (int i = 0; i < L; i++) B.o[i] = (T)(oi[i] != 0); c.mask(B.o, B.m, p, p, L); \
    for (int k = 0; k < 2; k++) { bool s = k; Ck<T> d(#nm "_vs", N); for (int i = 0; i < L; i++) B.m[i] = bp[i] OP s; nsimd::storelu(B.o, x OP s); d.mask(B.o, B.m, p, p, L); nsimd::storelu(B.o, x OP (k * 3)); d.mask(B.o, B.m, p, p, L); \
      Ck<T> e(#nm "_sv", N); nsimd::storelu(B.o, s OP x); e.mask(B.o, B.m, p, p, L); nsimd::storelu(B.o, (k * 2.5) OP x); e.mask(B.o, B.m, p, p, L); } }
  LG(land, &&) LG(lor, ||)
}
template <class T, int N> static void all(mon::Rng &g, int rounds) {
  typedef nsimd::pack<T, N> P; static Buf<T> B; static std::vector<T> bd = Gen<T>::boundary();
  for (int r = 0; r < rounds; r++) {
    for (int i = 0; i < MAXL; i++) B.a[i] = (g.next() & 1) ? bd[g.below(bd.size())] : Gen<T>::rnd(g);
    T s = (g.next() & 1) ? bd[g.below(bd.size())] : Gen<T>::rnd(g); for (int i = 0; i < 4; i++) B.a[g.below((uint64_t)MAXL)] = s; B.a[0] = s;
    ar<T, P, N, T>(B, s, "-same"); int k = (int)g.below(100) - (TI<T>::sgn ? 50 : 0); B.a[1] = (T)k; ar<T, P, N, int>(B, k, "-int"); ar<T, P, N, double>(B, k + 0.5, "-double"); ar<T, P, N, signed char>(B, (signed char)k, "-char");
    logic<T, N>(B, g);
  }
  mon::sample("scalar op pack<%s,%d,%s>: %d rounds", TI<T>::nm(), N, ext_name(), rounds);
}
int main(int argc, char **argv) {
  mon::init(argc, argv); mon::Rng g(mon::seed() ^ 77); const int R = mon::thorough() ? 3000 : 60;
#define GO(T) all<T, 1>(g, R); all<T, 3>(g, R);
  VF_FOR_INT(GO) GO(f32) GO(f64)
  mon::flush_report("ok");
}

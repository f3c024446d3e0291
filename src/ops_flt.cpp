// Floating point arithmetic: IEEE-754 round-to-nearest-even, per lane.
#include "surf.hpp"
DEF2(add) DEF2(sub) DEF2(mul) DEF2(div) DEF2(min) DEF2(max) DEF2(adds) DEF2(subs)
DEF1(neg) DEF1(abs) DEF1(sqrt) DEF1(ceil) DEF1(floor) DEF1(trunc) DEF1(round_to_even)
DEF3(fma) DEF3(fnma) DEF3(fms) DEF3(fnms)

template <class T> struct R;
template <> struct R<f32> { static void op(Exp &e, int o, f32 a, f32 b, f32 c) { addexp(e, o_f32(o, a, b, c)); } };
template <> struct R<f64> { static void op(Exp &e, int o, f64 a, f64 b, f64 c) { addexp(e, o_f64(o, a, b, c)); } };
template <> struct R<f16> { static void op(Exp &e, int o, f16 a, f16 b, f16 c) {
  // single (or double) precision evaluation, then one rounding to half
  addexp(e, frombits<f16>(o_f2h(o_f32(o, (float)fval(a), (float)fval(b), (float)fval(c)))));
  addexp(e, frombits<f16>(o_d2h(o_f64(o, fval(a), fval(b), fval(c))))); } };
template <class T> static T flip(T x) { return frombits<T>(bits(x) ^ ((uint64_t)1 << (TI<T>::w - 1))); }
#define R1(n, o) template <class T> static Exp r_##n(T a) { Exp e; R<T>::op(e, o, a, a, a); return e; }
#define R2(n, o) template <class T> static Exp r_##n(T a, T b) { Exp e; R<T>::op(e, o, a, b, b); return e; }
R1(sqrt, O_SQRT) R1(ceil, O_CEIL) R1(floor, O_FLOOR) R1(trunc, O_TRUNC) R1(round_to_even, O_RINT)
R2(add, O_ADD) R2(sub, O_SUB) R2(mul, O_MUL) R2(div, O_DIV)
template <class T> static Exp r_neg(T a) { Exp e; addexp(e, flip(a)); return e; }
template <class T> static Exp r_abs(T a) { Exp e; addexp(e, frombits<T>(bits(a) & ~((uint64_t)1 << (TI<T>::w - 1)))); return e; }
// a NaN operand or a pair of zeros leaves the choice of operand open
template <class T> static Exp minmax(T a, T b, bool mx) {
  Exp e; if (isnan_(a) || isnan_(b)) { addexp(e, a); addexp(e, b); return e; }
  if (fval(a) == fval(b)) { addexp(e, a); addexp(e, b); return e; }
  addexp(e, (fval(a) > fval(b)) == mx ? a : b); return e;
}
template <class T> static Exp r_min(T a, T b) { return minmax(a, b, false); }
template <class T> static Exp r_max(T a, T b) { return minmax(a, b, true); }
template <class T> static Exp fmaexp(T a, T b, T c) { Exp e; R<T>::op(e, O_FMA, a, b, c); R<T>::op(e, O_FMA_UNFUSED, a, b, c); return e; }
template <class T> static Exp r_fma(T a, T b, T c) { return fmaexp(a, b, c); }
template <class T> static Exp r_fms(T a, T b, T c) { return fmaexp(a, b, flip(c)); }
template <class T> static Exp r_fnma(T a, T b, T c) { return fmaexp(flip(a), b, c); }
template <class T> static Exp r_fnms(T a, T b, T c) { return fmaexp(flip(a), b, flip(c)); }

#define GO(T) \
  run2<op_add, T>(r_add<T>); run2<op_sub, T>(r_sub<T>); run2<op_mul, T>(r_mul<T>); run2<op_div, T>(r_div<T>); \
  run2<op_min, T>(r_min<T>); run2<op_max, T>(r_max<T>); run2<op_adds, T>(r_add<T>); run2<op_subs, T>(r_sub<T>); \
  run1<op_neg, T>(r_neg<T>); run1<op_abs, T>(r_abs<T>); run1<op_sqrt, T>(r_sqrt<T>); \
  run1<op_ceil, T>(r_ceil<T>); run1<op_floor, T>(r_floor<T>); run1<op_trunc, T>(r_trunc<T>); run1<op_round_to_even, T>(r_round_to_even<T>); \
  run3<op_fma, T>(r_fma<T>); run3<op_fnma, T>(r_fnma<T>); run3<op_fms, T>(r_fms<T>); run3<op_fnms, T>(r_fnms<T>);

#ifndef VF_GPU
// --- horizontal sum ----------------------------------------------------------
template <class T> static T mkf(double v);
template <> f16 mkf<f16>(double v) { return frombits<f16>(o_d2h(v)); }
template <> f32 mkf<f32>(double v) { return (f32)v; }
template <> f64 mkf<f64>(double v) { return v; }
template <class T, int N> struct AddvP { static T go(const T *p) { return nsimd::addv(nsimd::loadu<nsimd::pack<T, N> >(p)); } };
template <class T> struct AddvP<T, 0> { static T go(const T *p) { return nsimd::addv(nsimd::loadu(p, T()), T()); } };
template <class T, int N> static void addv_one(const std::vector<T> &v, const char *surf, int kind, int hot) {
  const int n = (int)v.size();
  mon::ctx("%s/addv/%s/%s", ext_name(), TI<T>::nm(), surf);
  T got = AddvP<T, N>::go(&v[0]);
  long double s = 0, m = 0; bool nan = false; int pinf = 0, ninf = 0; bool anynz = false;
  for (int i = 0; i < n; i++) { double x = fval(v[i]); if (x != x) nan = true; else if (x == INFINITY) pinf++; else if (x == -INFINITY) ninf++; else { s += x; m += x < 0 ? -x : x; } if (x != 0) anynz = true; }
  bool good;
  double g = fval(got);
  if (nan || (pinf && ninf)) good = g != g;
  else if (pinf) good = g == INFINITY;
  else if (ninf) good = g == -INFINITY;
  else if (kind < 2) good = g == (double)s;  // exactly representable in any association
  else { long double u = TI<T>::w == 16 ? 1.0L / 1024 : TI<T>::w == 32 ? 1.0L / 8388608 : 1.0L / 4503599627370496.0L; long double d = g - s; if (d < 0) d = -d; good = d <= n * u * m; }
  uint64_t h = mon::hash_str(surf) + kind; for (int i = 0; i < n; i++) h = mon::Rng::mix(h ^ bits(v[i]));
  if (anynz) mon::eval(h); else mon::st().evals++;
  mon::count("op:addv");
  if (!good) mon::viol(key("addv", TI<T>::nm(), surf), "addv_%s on %s via %s: kind=%d hot=%d got=%s want~%Lg", TI<T>::nm(), ext_name(), surf, kind, hot, hex(got).c_str(), s);
}
template <class T, int N> static void addv(const char *surf) {
  mon::Rng g(mon::seed() ^ mon::hash_str("addv") ^ mon::hash_str(TI<T>::nm()) ^ N);
  const int n = vlen_<T>() * (N ? N : 1);
  std::vector<T> v(n, mkf<T>(0));
  for (int k = 0; k < n; k++) { v[k] = mkf<T>(1 + k % 7); addv_one<T, N>(v, surf, 0, k); v[k] = mkf<T>(-2.5); addv_one<T, N>(v, surf, 0, k); v[k] = mkf<T>(0); }
  for (int r = 0; r < (mon::thorough() ? 20000 : 1500); r++) {
    for (int k = 0; k < n; k++) v[k] = mkf<T>((double)(int)(g.below(TI<T>::w == 16 ? 17 : 2001)) - (TI<T>::w == 16 ? 8 : 1000));
    addv_one<T, N>(v, surf, 1, -1);
    // well scaled, so that no association order overflows
    for (int k = 0; k < n; k++) v[k] = mkf<T>(((double)(int64_t)(g.next() >> 11) * (1.0 / 9007199254740992.0) - 0.5) * (g.below(4) ? 100 : 0.01));
    addv_one<T, N>(v, surf, 2, -1);
    int h = (int)g.below(n); v[h] = frombits<T>(GenI<T, true>::mk((int)g.below(2), (1 << GenI<T, true>::E) - 1, g.below(3) == 0 ? 1ull << (GenI<T, true>::M - 1) : 0));
    addv_one<T, N>(v, surf, 3, h);
  }
}
#define GA(T) addv<T, 0>("base"); addv<T, 1>("pack1"); addv<T, 2>("pack2"); addv<T, 3>("packN"); addv<T, 4>("pack4");
#else
#define GA(T)
#endif
int main(int argc, char **argv) {
  mon::init(argc, argv);
  VF_FOR_FLT(GO)
  VF_FOR_FLT(GA)
  mon::flush_report("ok");
}

// Integer arithmetic: every lane equals the mathematical result reduced
// modulo 2^w (saturated for adds/subs).
#include "surf.hpp"
DEF2(add) DEF2(sub) DEF2(mul) DEF2(div) DEF2(min) DEF2(max) DEF2(adds) DEF2(subs)
DEF1(neg) DEF1(abs) DEF3(fma) DEF3(fnma) DEF3(fms) DEF3(fnms)
DEF1(ceil) DEF1(floor) DEF1(trunc) DEF1(round_to_even)
typedef __int128 W;
template <class T> static W wide(T x) { return (W)x; }
template <class T> static Exp wrap(W x) { Exp e; e.v[0] = (typename TI<T>::U)(unsigned __int128)x; e.n = 1; return e; }
template <class T> static Exp sat(W x) {
  W lo = TI<T>::sgn ? -((W)1 << (TI<T>::w - 1)) : 0, hi = TI<T>::sgn ? ((W)1 << (TI<T>::w - 1)) - 1 : ((W)1 << TI<T>::w) - 1;
  return wrap<T>(x < lo ? lo : x > hi ? hi : x);
}
// products of two 64-bit values need wrap-around only
static unsigned __int128 uw(W x) { return (unsigned __int128)x; }
#define R2(n, ex) template <class T> static Exp r_##n(T A, T B) { W a = wide(A), b = wide(B); (void)a; (void)b; return ex; }
R2(add, wrap<T>(a + b)) R2(sub, wrap<T>(a - b)) R2(mul, wrap<T>((W)(uw(a) * uw(b)))) R2(div, wrap<T>(a / b))
R2(min, wrap<T>(a < b ? a : b)) R2(max, wrap<T>(a > b ? a : b)) R2(adds, sat<T>(a + b)) R2(subs, sat<T>(a - b))
template <class T> static Exp r_neg(T a) { return wrap<T>(-wide(a)); }
template <class T> static Exp r_abs(T a) { return wrap<T>(wide(a) < 0 ? -wide(a) : wide(a)); }
template <class T> static Exp r_id(T a) { return wrap<T>(wide(a)); }
#define R3(n, ex) template <class T> static Exp r_##n(T A, T B, T C) { unsigned __int128 a = uw(wide(A)), b = uw(wide(B)), c = uw(wide(C)); return wrap<T>((W)(ex)); }
R3(fma, a * b + c) R3(fnma, -(a * b) + c) R3(fms, a * b - c) R3(fnms, -(a * b) - c)
template <class T> static bool dom_div(T a, T b, T) {
  if (b == 0) return false;
  if (TI<T>::sgn && b == (T)-1 && a == (T)((typename TI<T>::U)1 << (TI<T>::w - 1))) return false;
  return true;
}
// operator inputs are restricted only where the operation has no defined result
#define GO(T) \
  run2<op_add, T>(r_add<T>); run2<op_sub, T>(r_sub<T>); run2<op_mul, T>(r_mul<T>); run2<op_div, T>(r_div<T>, dom_div<T>); \
  run2<op_min, T>(r_min<T>); run2<op_max, T>(r_max<T>); run2<op_adds, T>(r_adds<T>); run2<op_subs, T>(r_subs<T>); \
  run1<op_neg, T>(r_neg<T>); run1<op_abs, T>(r_abs<T>); \
  run3<op_fma, T>(r_fma<T>); run3<op_fnma, T>(r_fnma<T>); run3<op_fms, T>(r_fms<T>); run3<op_fnms, T>(r_fnms<T>); \
  run1<op_ceil, T>(r_id<T>); run1<op_floor, T>(r_id<T>); run1<op_trunc, T>(r_id<T>); run1<op_round_to_even, T>(r_id<T>);
int main(int argc, char **argv) {
  mon::init(argc, argv);
  VF_FOR_INT(GO)
  mon::flush_report("ok");
}

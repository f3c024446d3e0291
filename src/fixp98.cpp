// The module is documented as a C++98 interface: its documented operations compile there.
#include <nsimd/modules/fixed_point.hpp>
namespace fx = nsimd::fixed_point;
template <class T> int use(T *a, T *b, T *o, typename T::logical_type *m) {
  typedef fx::pack<T> P; typedef fx::packl<T> L;
  P p = fx::loadu<P>(a), q = fx::loada<P>(b), r = fx::fma(p, q, fx::set1<P>(T(1)));
  r = fx::add(r, p + q); r = fx::sub(r, p - q); r = fx::mul(r, p * q); r = fx::div(r, p / q); r = fx::min(r, p); r = fx::max(r, fx::abs(fx::rec(q)));
  r = fx::andb(r, p); r = fx::orb(r, fx::xorb(p, q)); r = fx::andnotb(r, fx::notb(q));
  L l = fx::andl(p == q, p != q); l = fx::orl(l, fx::xorl(p < q, p <= q)); l = fx::andnotl(l, fx::notl(fx::andl(p > q, p >= q)));
  l = fx::andl(l, fx::andl(fx::andl(fx::eq(p, q), fx::ne(p, q)), fx::andl(fx::andl(fx::lt(p, q), fx::le(p, q)), fx::andl(fx::gt(p, q), fx::ge(p, q)))));
  l = fx::andl(l, fx::andl(fx::loadlu<L>(m), fx::loadla<L>(m)));
  r = fx::if_else1(l, r, p);
  fx::storeu(o, r); fx::storea(o, r); fx::storelu<L>(m, l); fx::storela<L>(m, l);
  return fx::len(T()) + fx::len(p) + (a[0] == b[0]) + (a[0] != b[0]) + (a[0] < 1.0f) + (2 <= b[0]) + (a[0] > b[0]) + (a[0] >= b[0]);
}
template int use(fx::fp_t<4, 2> *, fx::fp_t<4, 2> *, fx::fp_t<4, 2> *, i8 *);
template int use(fx::fp_t<4, 4> *, fx::fp_t<4, 4> *, fx::fp_t<4, 4> *, i16 *);
template int use(fx::fp_t<8, 8> *, fx::fp_t<8, 8> *, fx::fp_t<8, 8> *, i32 *);
template int use(fx::fp_t<16, 16> *, fx::fp_t<16, 16> *, fx::fp_t<16, 16> *, i64 *);

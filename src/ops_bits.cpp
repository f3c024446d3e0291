// Bitwise operators and shifts on every value type.
#include "surf.hpp"
DEF2(orb) DEF2(andb) DEF2(andnotb) DEF2(xorb) DEF1(notb)
template <class T> static Exp eb(uint64_t b) { Exp e; addexp(e, frombits<T>(b)); return e; }
template <class T> static Exp r_orb(T a, T b) { return eb<T>(bits(a) | bits(b)); }
template <class T> static Exp r_andb(T a, T b) { return eb<T>(bits(a) & bits(b)); }
template <class T> static Exp r_andnotb(T a, T b) { return eb<T>(bits(a) & (typename TI<T>::U)~bits(b)); }
template <class T> static Exp r_xorb(T a, T b) { return eb<T>(bits(a) ^ bits(b)); }
template <class T> static Exp r_notb(T a) { return eb<T>((typename TI<T>::U)~bits(a)); }
// On f16 the SIMD surfaces are known to combine the binary32 images of the
// lanes; such results get their own class so any other deviation stands out.
template <class T> static std::string cls(const char *, T, T, T, T, const char *) { return ""; }
static uint32_t img(f16 x) { float f = (float)o_h2d(bits(x)); uint32_t u; memcpy(&u, &f, 4); return u; }
template <> std::string cls<f16>(const char *op, f16 a, f16 b, f16, f16 got, const char *surf) {
  if (!strcmp(surf, "scalar")) return "";
  uint32_t x = img(a), y = img(b), r = !strcmp(op, "orb") ? x | y : !strcmp(op, "andb") ? x & y : !strcmp(op, "andnotb") ? x & ~y : !strcmp(op, "xorb") ? x ^ y : ~x;
  float f; memcpy(&f, &r, 4);
  uint16_t h = o_f2h(f);
  if ((h & 0x7fff) > 0x7c00 ? isnan_(got) : h == bits(got)) return "binary32-image";
  return "";
}
#define GO(T) run2<op_orb, T>(r_orb<T>, dom_all<T>, cls<T>); run2<op_andb, T>(r_andb<T>, dom_all<T>, cls<T>); run2<op_andnotb, T>(r_andnotb<T>, dom_all<T>, cls<T>); run2<op_xorb, T>(r_xorb<T>, dom_all<T>, cls<T>); run1<op_notb, T>(r_notb<T>, dom_all<T>, true, cls<T>);

#ifndef VF_GPU
struct op_shl { static const char *nm() { return "shl"; }
  template <class T> static typename VT<T>::v b(typename VT<T>::v x, int s, T) { return nsimd::shl(x, s, T()); }
  template <class P> static P p(P const &x, int s) { return nsimd::shl(x, s); }
  template <class P> static P q(P const &x, int s) { return x << s; }
  template <class T> static T s(T x, int s) { return nsimd::scalar_shl(x, s); } };
struct op_shr { static const char *nm() { return "shr"; }
  template <class T> static typename VT<T>::v b(typename VT<T>::v x, int s, T) { return nsimd::shr(x, s, T()); }
  template <class P> static P p(P const &x, int s) { return nsimd::shr(x, s); }
  template <class P> static P q(P const &x, int s) { return x >> s; }
  template <class T> static T s(T x, int s) { return nsimd::scalar_shr(x, s); } };
struct op_shra { static const char *nm() { return "shra"; }
  template <class T> static typename VT<T>::v b(typename VT<T>::v x, int s, T) { return nsimd::shra(x, s, T()); }
  template <class P> static P p(P const &x, int s) { return nsimd::shra(x, s); }
  template <class P> static P q(P const &x, int s) { return nsimd::shra(x, s); }
  template <class T> static T s(T x, int s) { return nsimd::scalar_shra(x, s); } };

template <class T> static T ref_shift(int kind, T x, int s) {
  typedef typename TI<T>::U U; U u = bits(x);
  if (kind == 0) return frombits<T>((U)((uint64_t)u << s));
  if (kind == 1 || !TI<T>::sgn) return frombits<T>((U)((uint64_t)u >> s));
  U r = (U)((uint64_t)u >> s);
  if ((u >> (TI<T>::w - 1)) & 1) for (int i = 0; i < s; i++) r |= (U)((U)1 << (TI<T>::w - 1 - i));
  return frombits<T>(r);
}
template <class OP, class T> static void run_shift(int kind) {
  mon::Rng g(mon::seed() ^ mon::hash_str(OP::nm()) ^ mon::hash_str(TI<T>::nm()));
  std::vector<T> B = Gen<T>::boundary();
  const size_t L = (size_t)vlen_<T>();
  for (int i = 0; i < (mon::thorough() ? 4000 : 300); i++) B.push_back(Gen<T>::rnd(g));
  if (TI<T>::w == 8) { B.clear(); for (int i = 0; i < 256; i++) B.push_back(frombits<T>(i)); }
  size_t n = (B.size() + L * PN - 1) / (L * PN) * (L * PN); pad(B, n);
  for (size_t i = n - 1; i > 0; i--) std::swap(B[i], B[g.below(i + 1)]);
  std::vector<T> o(n);
  for (int s = 0; s < TI<T>::w; s++) {
    const char *surf[] = {"base", "packN", "pack1", "operator", "scalar"};
    for (int k = 0; k < 5; k++) {
      mon::ctx("%s/%s/%s/%s", ext_name(), OP::nm(), TI<T>::nm(), surf[k]);
      volatile int vs = s;
      if (k == 0) VF_LOOP(L, nsimd::storeu(&o[i], OP::b(nsimd::loadu(&B[i], T()), (int)vs, T()), T());)
      if (k == 1) VF_LOOP(L * PN, nsimd::storeu(&o[i], OP::p(nsimd::loadu<typename PK<T>::pn>(&B[i]), (int)vs));)
      if (k == 2) VF_LOOP(L, nsimd::storeu(&o[i], OP::p(nsimd::loadu<typename PK<T>::p1>(&B[i]), (int)vs));)
      if (k == 3) VF_LOOP(L * PN, nsimd::storeu(&o[i], OP::q(nsimd::loadu<typename PK<T>::pn>(&B[i]), (int)vs));)
      if (k == 4) VF_LOOP(1, o[i] = OP::s(B[i], (int)vs);)
      for (size_t i = 0; i < n; i++) {
        T w = ref_shift(kind, B[i], s);
        mon::eval(mon::hash_str(OP::nm()) + 977 * k + 31 * s + mon::Rng::mix(bits(B[i]) + 1000003ull * mon::hash_str(TI<T>::nm())));
        if (bits(o[i]) != bits(w)) mon::viol(key(OP::nm(), TI<T>::nm(), surf[k]), "%s_%s(%s, %d) on %s: got %s want %s", OP::nm(), TI<T>::nm(), hex(B[i]).c_str(), s, ext_name(), hex(o[i]).c_str(), hex(w).c_str());
      }
      mon::count(std::string("op:") + OP::nm(), (long)n);
    }
  }
}
#define GS(T) run_shift<op_shl, T>(0); run_shift<op_shr, T>(1); run_shift<op_shra, T>(2);
#else
#define GS(T)
#endif
int main(int argc, char **argv) {
  mon::init(argc, argv);
  VF_FOR_ALL(GO)
  VF_FOR_INT(GS)
  mon::flush_report("ok");
}

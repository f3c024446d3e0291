// Comparisons, logical operators, reductions, selection, mask conversion.
#include "surf.hpp"
template <class T, bool F> struct Cmp { static int rel(int k, T a, T b) { switch (k) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } } };
template <class T> struct Cmp<T, true> { static int rel(int k, T A, T B) { return Cmp<double, false>::rel(k, fval(A), fval(B)); } };
static const char *cname[] = {"eq", "ne", "lt", "le", "gt", "ge"};

static bool one_(f16 x) { return bits(x) == 0x3c00; }
static bool one_(f32 x) { return bits(x) == 0x3f800000u; }
static bool one_(f64 x) { return bits(x) == 0x3ff0000000000000ull; }
template <class T> static bool one_(T x) { return x == 1; }
template <class T> static T mk(int b) { return frombits<T>(!b ? 0 : TI<T>::flt ? (TI<T>::w == 16 ? 0x3c00ull : TI<T>::w == 32 ? 0x3f800000ull : 0x3ff0000000000000ull) : 1); }

// logical result arrays must hold exactly 1 or 0
template <class T> static void judge_l(const char *op, const char *surf, const std::vector<T> &o, const std::vector<char> &w, const std::vector<T> &a, const std::vector<T> &b) {
  uint64_t hb = mon::hash_str(op) * 31 + mon::hash_str(surf) * 7 + mon::hash_str(TI<T>::nm());
  for (size_t i = 0; i < o.size(); i++) {
    mon::eval(hb ^ mon::Rng::mix(bits(a[i]) + 3 * mon::Rng::mix(bits(b[i]))));
    bool good = w[i] ? one_(o[i]) : bits(o[i]) == 0;
    if (!good) mon::viol(key(op, TI<T>::nm(), surf), "%s_%s on %s via %s: a=%s b=%s lane-index=%zu got=%s want=%d", op, TI<T>::nm(), ext_name(), surf, hex(a[i]).c_str(), hex(b[i]).c_str(), i % vlen_<T>(), hex(o[i]).c_str(), w[i]);
  }
  mon::count(std::string("op:") + op, (long)o.size());
}
template <class T> static void judge_v(const char *op, const char *surf, const std::vector<T> &o, const std::vector<T> &w) {
  uint64_t hb = mon::hash_str(op) * 31 + mon::hash_str(surf) * 7 + mon::hash_str(TI<T>::nm());
  for (size_t i = 0; i < o.size(); i++) {
    mon::eval(hb ^ mon::Rng::mix(bits(w[i]) + 77 * (i % 64)));
    if (bits(o[i]) != bits(w[i]) && !(TI<T>::w == 16 && isnan_(w[i]) && isnan_(o[i])))  // f16 NaN payloads pass through f32
      mon::viol(key(op, TI<T>::nm(), surf), "%s_%s on %s via %s: lane-index=%zu got=%s want=%s", op, TI<T>::nm(), ext_name(), surf, i % vlen_<T>(), hex(o[i]).c_str(), hex(w[i]).c_str());
  }
  mon::count(std::string("op:") + op, (long)o.size());
}
#define LD(p) nsimd::loadu(p, T())
#define LDN(p) nsimd::loadu<typename PK<T>::pn>(p)
#define LD1(p) nsimd::loadu<typename PK<T>::p1>(p)
template <class T> static void cmp() {
  mon::Rng g(mon::seed() ^ mon::hash_str("cmp") ^ mon::hash_str(TI<T>::nm()));
  Data<T> d; fill(d, 2, g, dom_all<T>); const size_t n = d.a.size(), L = vlen_<T>();
  // force equal neighbours and off-by-one pairs
  for (size_t i = 0; i < n; i++) { if (i % 5 == 0 && TI<T>::w > 8) d.b[i] = frombits<T>(bits(d.a[i]) + (g.below(3) - 1)); }
  std::vector<T> o(n); std::vector<char> w(n);
  for (int k = 0; k < 6; k++) {
    for (size_t i = 0; i < n; i++) w[i] = Cmp<T, TI<T>::flt>::rel(k, d.a[i], d.b[i]);
#define C(K, NAME, OP) if (k == K) { \
    mon::ctx("%s/" #NAME "/%s", ext_name(), TI<T>::nm()); \
    VF_LOOP(L, nsimd::storelu(&o[i], nsimd::NAME(LD(&d.a[i]), LD(&d.b[i]), T()), T());) judge_l(#NAME, "base", o, w, d.a, d.b); \
    VF_LOOP(L, nsimd::storelu(&o[i], nsimd::NAME(LD1(&d.a[i]), LD1(&d.b[i])));) judge_l(#NAME, "pack1", o, w, d.a, d.b); \
    VF_LOOP(L * PN, nsimd::storelu(&o[i], nsimd::NAME(LDN(&d.a[i]), LDN(&d.b[i])));) judge_l(#NAME, "packN", o, w, d.a, d.b); \
    VF_LOOP(L * PN, nsimd::storelu(&o[i], LDN(&d.a[i]) OP LDN(&d.b[i]));) judge_l(#NAME, "operator", o, w, d.a, d.b); \
    for (size_t i = 0; i < n; i++) { int r = nsimd::scalar_##NAME(d.a[i], d.b[i]); o[i] = mk<T>(r != 0); } judge_l(#NAME, "scalar", o, w, d.a, d.b); }
    C(0, eq, ==) C(1, ne, !=) C(2, lt, <) C(3, le, <=) C(4, gt, >) C(5, ge, >=)
  }
}
// logical vectors are made in three ways: loaded, from a comparison, from a mask
template <class T> struct Mk {
  typedef typename VT<T>::l l;
  static l go(int how, const T *p) {
    if (how == 0) return nsimd::loadlu(p, T());
    if (how == 1) return nsimd::ne(LD(p), nsimd::set1(frombits<T>(0), T()), T());
    return nsimd::to_logical(nsimd::to_mask(nsimd::loadlu(p, T()), T()), T());
  }
};
template <class T> static void logicals() {
  mon::Rng g(mon::seed() ^ mon::hash_str("log") ^ mon::hash_str(TI<T>::nm()));
  const size_t L = vlen_<T>(), S = L * PN;
  std::vector<std::vector<T> > ms; // mask images of one pack
  auto push = [&](uint64_t (*f)(size_t, uint64_t), uint64_t arg) { std::vector<T> v(S); for (size_t i = 0; i < S; i++) v[i] = mk<T>((int)f(i, arg)); ms.push_back(v); };
  push([](size_t, uint64_t) { return (uint64_t)0; }, 0); push([](size_t, uint64_t) { return (uint64_t)1; }, 0);
  for (size_t k = 0; k < S; k++) { push([](size_t i, uint64_t a) { return (uint64_t)(i == a); }, k); push([](size_t i, uint64_t a) { return (uint64_t)(i != a); }, k); push([](size_t i, uint64_t a) { return (uint64_t)(i < a); }, k); }
  push([](size_t i, uint64_t) { return (uint64_t)(i & 1); }, 0); push([](size_t i, uint64_t) { return (uint64_t)((i >> 1) & 1); }, 0);
  if (L <= 8) for (uint64_t m = 0; m < (1u << L); m++) push([](size_t i, uint64_t a) { return (a >> (i % (size_t)vlen_<T>())) & 1; }, m);
  size_t fixed = ms.size();
  for (int r = 0; r < (mon::thorough() ? 4000 : 400); r++) { std::vector<T> v(S); uint64_t dens = 1 + g.below(7); for (size_t i = 0; i < S; i++) v[i] = mk<T>(g.below(8) < dens); ms.push_back(v); }
  std::vector<T> o(S), w1(S), a(S), b(S), wv(S); std::vector<char> w(S);
  const size_t M = ms.size();
  for (size_t q = 0; q < M; q++) {
    const std::vector<T> &m = ms[q], &m2 = ms[q < fixed ? g.below(M) : (q * 7 + 1) % M];
    mon::ctx("%s/logical/%s", ext_name(), TI<T>::nm());
#define LOGI(NAME, EXPR) for (size_t i = 0; i < S; i++) { int x = bits(m[i]) != 0, y = bits(m2[i]) != 0; (void)y; w[i] = (EXPR) != 0; }
#define LOG2(NAME, EXPR) LOGI(NAME, EXPR) \
    for (int how = 0; how < 3; how++) { for (size_t i = 0; i < S; i += L) nsimd::storelu(&o[i], nsimd::NAME(Mk<T>::go(how, &m[i]), Mk<T>::go((how + (int)q) % 3, &m2[i]), T()), T()); judge_l(#NAME, "base", o, w, m, m2); } \
    nsimd::storelu(&o[0], nsimd::NAME(nsimd::loadlu<typename PK<T>::ln>(&m[0]), nsimd::loadlu<typename PK<T>::ln>(&m2[0]))); judge_l(#NAME, "packN", o, w, m, m2); \
    for (size_t i = 0; i < S; i += L) nsimd::storelu(&o[i], nsimd::NAME(nsimd::loadlu<typename PK<T>::l1>(&m[i]), nsimd::loadlu<typename PK<T>::l1>(&m2[i]))); judge_l(#NAME, "pack1", o, w, m, m2); \
    for (size_t i = 0; i < S; i++) o[i] = mk<T>(nsimd::scalar_##NAME((int)(bits(m[i]) != 0), (int)(bits(m2[i]) != 0)) != 0); judge_l(#NAME, "scalar", o, w, m, m2);
    LOG2(andl, x && y) LOG2(orl, x || y) LOG2(xorl, x != y) LOG2(andnotl, x && !y)
    LOGI(andl, x && y) nsimd::storelu(&o[0], nsimd::loadlu<typename PK<T>::ln>(&m[0]) && nsimd::loadlu<typename PK<T>::ln>(&m2[0])); judge_l("andl", "operator", o, w, m, m2);
    LOGI(orl, x || y) nsimd::storelu(&o[0], nsimd::loadlu<typename PK<T>::ln>(&m[0]) || nsimd::loadlu<typename PK<T>::ln>(&m2[0])); judge_l("orl", "operator", o, w, m, m2);
    LOGI(notl, !x) for (int how = 0; how < 3; how++) { for (size_t i = 0; i < S; i += L) nsimd::storelu(&o[i], nsimd::notl(Mk<T>::go(how, &m[i]), T()), T()); judge_l("notl", "base", o, w, m, m); }
    nsimd::storelu(&o[0], nsimd::notl(nsimd::loadlu<typename PK<T>::ln>(&m[0]))); judge_l("notl", "packN", o, w, m, m);
    nsimd::storelu(&o[0], !nsimd::loadlu<typename PK<T>::ln>(&m[0])); judge_l("notl", "operator", o, w, m, m);
    for (size_t i = 0; i < S; i += L) nsimd::storelu(&o[i], nsimd::notl(nsimd::loadlu<typename PK<T>::l1>(&m[i]))); judge_l("notl", "pack1", o, w, m, m);
    for (size_t i = 0; i < S; i++) o[i] = mk<T>(nsimd::scalar_notl((int)(bits(m[i]) != 0)) != 0); judge_l("notl", "scalar", o, w, m, m);
    // reductions: base per register, on logicals straight out of every producer incl. notl
#define RED(SURF, LOGV, FROM, CNT) { int c = 0; for (size_t z_ = (FROM); z_ < (FROM) + (CNT); z_++) c += (bits(m[z_]) != 0) != neg; \
      int ga = nsimd::all LOGV, gy = nsimd::any LOGV, gn = nsimd::nbtrue LOGV; \
      mon::eval(mon::Rng::mix(mon::hash_str(SURF TAG) + q * 64 + (FROM) + neg) + mon::hash_str(TI<T>::nm())); mon::count("op:all/any/nbtrue", 3); \
      if ((ga != 0) != (c == (int)(CNT))) mon::viol(key("all", TI<T>::nm(), SURF), "all on %s: %d of %d lanes true, got %d (pattern %zu, negated %d)", ext_name(), c, (int)(CNT), ga, q, neg); \
      if ((gy != 0) != (c > 0)) mon::viol(key("any", TI<T>::nm(), SURF), "any on %s: %d of %d lanes true, got %d (pattern %zu, negated %d)", ext_name(), c, (int)(CNT), gy, q, neg); \
      if (gn != c) mon::viol(key("nbtrue", TI<T>::nm(), SURF), "nbtrue on %s: %d of %d lanes true, got %d (pattern %zu, negated %d)", ext_name(), c, (int)(CNT), gn, q, neg); }
#define TAG "x"
    for (int neg = 0; neg < 2; neg++) {
      for (int how = 0; how < 3; how++) for (size_t i = 0; i < S; i += L) { typename VT<T>::l v = Mk<T>::go(how, &m[i]); if (neg) v = nsimd::notl(v, T()); RED("base", (v, T()), i, L) }
      typename PK<T>::ln p = nsimd::loadlu<typename PK<T>::ln>(&m[0]); if (neg) p = nsimd::notl(p); RED("packN", (p), 0, S)
      for (size_t i = 0; i < S; i += L) { typename PK<T>::l1 p1 = nsimd::loadlu<typename PK<T>::l1>(&m[i]); if (neg) p1 = nsimd::notl(p1); RED("pack1", (p1), i, L) }
    }
    // selection, with arbitrary bit patterns in both operands
    for (size_t i = 0; i < S; i++) { a[i] = frombits<T>(g.next()); b[i] = frombits<T>(g.next()); if (g.below(6) == 0) { a[i] = Gen<T>::rnd(g); b[i] = frombits<T>(bits(a[i]) ^ 1); } wv[i] = bits(m[i]) ? a[i] : b[i]; }
    for (int how = 0; how < 3; how++) { for (size_t i = 0; i < S; i += L) nsimd::storeu(&o[i], nsimd::if_else1(Mk<T>::go(how, &m[i]), LD(&a[i]), LD(&b[i]), T()), T()); judge_v("if_else1", "base", o, wv); }
    nsimd::storeu(&o[0], nsimd::if_else1(nsimd::loadlu<typename PK<T>::ln>(&m[0]), LDN(&a[0]), LDN(&b[0]))); judge_v("if_else1", "packN", o, wv);
    for (size_t i = 0; i < S; i += L) nsimd::storeu(&o[i], nsimd::if_else1(nsimd::loadlu<typename PK<T>::l1>(&m[i]), LD1(&a[i]), LD1(&b[i]))); judge_v("if_else1", "pack1", o, wv);
    // masks: all ones / zero, and back
    for (size_t i = 0; i < S; i++) wv[i] = frombits<T>(bits(m[i]) ? ~0ull : 0);
    for (int how = 0; how < 3; how++) { for (size_t i = 0; i < S; i += L) nsimd::storeu(&o[i], nsimd::to_mask(Mk<T>::go(how, &m[i]), T()), T()); judge_v("to_mask", "base", o, wv); }
    nsimd::storeu(&o[0], nsimd::to_mask(nsimd::loadlu<typename PK<T>::ln>(&m[0]))); judge_v("to_mask", "packN", o, wv);
    for (size_t i = 0; i < S; i++) o[i] = nsimd::scalar_to_mask(T(), (int)(bits(m[i]) != 0)); judge_v("to_mask", "scalar", o, wv);
    for (size_t i = 0; i < S; i++) w[i] = bits(m[i]) != 0;
    for (size_t i = 0; i < S; i++) b[i] = w[i] ? (q & 1 ? frombits<T>(~0ull) : TI<T>::flt ? mk<T>(1) : frombits<T>(1ull << (g.next() % TI<T>::w))) : frombits<T>(0);
    for (size_t i = 0; i < S; i += L) nsimd::storelu(&o[i], nsimd::to_logical(LD(&b[i]), T()), T()); judge_l("to_logical", "base", o, w, b, b);
    nsimd::storelu(&o[0], nsimd::to_logical(LDN(&b[0]))); judge_l("to_logical", "packN", o, w, b, b);
    for (size_t i = 0; i < S; i++) o[i] = mk<T>(nsimd::scalar_to_logical(b[i]) != 0); judge_l("to_logical", "scalar", o, w, b, b);
  }
  mon::count("mask patterns", (long)M);
}
#define GO(T) cmp<T>(); logicals<T>();
int main(int argc, char **argv) {
  mon::init(argc, argv);
  VF_FOR_ALL(GO)
  mon::flush_report("ok");
}

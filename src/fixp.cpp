// Fixed point module against exact integer arithmetic on the raw values: scalars, packs, masks, memory.
#include "gen.hpp"
#include "arena.hpp"
#include <nsimd/modules/fixed_point.hpp>
#include <nsimd/modules/fixed_point/fixed_math.hpp>
#include <nsimd/modules/fixed_point/function/abs.hpp>
#include <nsimd/modules/fixed_point/function/ceil.hpp>
#include <nsimd/modules/fixed_point/function/floor.hpp>
#include <nsimd/modules/fixed_point/function/is_int.hpp>
#include <sstream>
namespace fx = nsimd::fixed_point;
typedef __int128 big;
static mon::Rng *G;
static arena::Arena *AR;
static const int NV = 64; // at most 64 lanes

template <class R> static bool fits(big v) { return v >= (big)std::numeric_limits<R>::min() && v <= (big)std::numeric_limits<R>::max(); }
static big fdiv(big a, int k) { big d = (big)1 << k; big q = a / d; if (a % d && a < 0) q--; return q; } // floor(a / 2^k)
static std::string s(big v) { char b[50]; snprintf(b, sizeof b, "%lld", (long long)v); return b; }

template <int LF, int RT> struct F {
  typedef fx::fp_t<LF, RT> fp; typedef typename fp::value_type R; typedef typename std::make_unsigned<R>::type UR;
  typedef fx::pack<fp> P; typedef fx::packl<fp> L;
  static constexpr int W = 8 * (int)sizeof(R);
  static char nm[24];
  static std::string key(const char *op, const char *surf) { return std::string(ext_name()) + "/" + op + "/" + nm + "/" + surf; }
  static fp mk(R r) { fp x; x._raw = r; return x; }
  static bool bad(const char *op, const char *surf, big a, big b, big got, big want) { return mon::viol(key(op, surf), "fp_t<%d,%d> raw operands %s, %s: got raw %s, expected %s", LF, RT, s(a).c_str(), s(b).c_str(), s(got).c_str(), s(want).c_str()); }
  // what each binary operation must give; false when the result is out of the storage range
  static bool expect(int op, big a, big b, big &w) {
    switch (op) {
    case 0: w = a + b; return fits<R>(w);
    case 1: w = a - b; return fits<R>(w);
    case 2: w = a * b; if (!fits<R>(w)) return false; w = fdiv(w, RT); return true;
    case 3: if (!b || !fits<R>(a * ((big)1 << RT))) return false; w = a * ((big)1 << RT) / b; return fits<R>(w);
    case 4: w = a < b ? a : b; return true;
    case 5: w = a > b ? a : b; return true;
    case 6: w = a & b; return true;
    case 7: w = a | b; return true;
    case 8: w = a ^ b; return true;
    case 9: w = a & ~b; return true;
    case 10: w = ~a; return true;
    case 11: w = a < 0 ? -a : a; return fits<R>(w);
    case 12: { big one = (big)1 << RT, n = one << RT; if (!a || !fits<R>(one) || !fits<R>(n)) return false; w = n / a; return fits<R>(w); }
    case 13: w = -a; return fits<R>(w);
    }
    return false;
  }
  static P pack_op(int op, const P &a, const P &b, int form) {
    switch (op) {
    case 0: return form ? a + b : fx::add(a, b); case 1: return form ? a - b : fx::sub(a, b);
    case 2: return form ? a * b : fx::mul(a, b); case 3: return form ? a / b : fx::div(a, b);
    case 4: return fx::min(a, b); case 5: return fx::max(a, b); case 6: return fx::andb(a, b); case 7: return fx::orb(a, b);
    case 8: return fx::xorb(a, b); case 9: return fx::andnotb(a, b); case 10: return fx::notb(a); case 11: return fx::abs(a);
    default: return fx::rec(a);
    }
  }
  static const char *opn(int i) { static const char *n[] = {"add", "sub", "mul", "div", "min", "max", "andb", "orb", "xorb", "andnotb", "notb", "abs", "rec", "neg"}; return n[i]; }
  static const char *cmpn(int i) { static const char *n[] = {"eq", "ne", "lt", "le", "gt", "ge"}; return n[i]; }
  static bool cmp(int i, big a, big b) { switch (i) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
  static L cmp_op(int i, const P &a, const P &b, int form) {
    if (form) switch (i) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; }
    switch (i) { case 0: return fx::eq(a, b); case 1: return fx::ne(a, b); case 2: return fx::lt(a, b); case 3: return fx::le(a, b); case 4: return fx::gt(a, b); default: return fx::ge(a, b); }
  }
  // ---- scalars ----
  static void scal(R ra, R rb) {
    fp a = mk(ra), b = mk(rb); big A = ra, B = rb, w;
    mon::eval(((uint64_t)(UR)ra << 32 ^ (uint64_t)(UR)rb) * 0x9E3779B97F4A7C15ull ^ (LF * 97 + RT));
#define SC(op, form, e) if (expect(op, A, B, w)) { fp r = e; if ((big)r._raw != w) bad(opn(op), "scalar" form, A, B, r._raw, w); }
    SC(0, "", fx::add(a, b)) SC(0, "/op", a + b) SC(1, "", fx::sub(a, b)) SC(1, "/op", a - b) SC(2, "", fx::mul(a, b)) SC(2, "/op", a * b) SC(3, "", fx::div(a, b)) SC(3, "/op", a / b)
    SC(13, "", fx::neg(a)) SC(13, "/op", -a)
#define SA(op, o) if (expect(op, A, B, w)) { fp r = a; fp &q = (r o b); if ((big)r._raw != w || &q != &r) bad(opn(op), "scalar/assign", A, B, r._raw, w); }
    SA(0, +=) SA(1, -=) SA(2, *=) SA(3, /=)
#define SB(name, e, x) { fp r = e; if (r._raw != (R)(x)) bad(name, "scalar", A, B, r._raw, (R)(x)); }
    SB("bitwise_and", fx::bitwise_and(a, rb), ra & rb) SB("bitwise_and", (a & rb), ra & rb) SB("bitwise_or", fx::bitwise_or(a, rb), ra | rb) SB("bitwise_or", (a | rb), ra | rb)
    SB("bitwise_xor", fx::bitwise_xor(a, rb), ra ^ rb) SB("bitwise_xor", (a ^ rb), ra ^ rb) SB("bitwise_nor", fx::bitwise_nor(a, rb), ~(ra | rb)) SB("bitwise_not", fx::bitwise_not(a), ~ra) SB("bitwise_not", ~a, ~ra)
    int k = (int)((UR)rb % (W - 1));
    SB("shift_right", fx::shift_right(a, k), ra >> k) SB("shift_right", a >> k, ra >> k)
    if (fits<R>(A * ((big)1 << k))) { SB("shift_left", fx::shift_left(a, k), A * ((big)1 << k)) SB("shift_left", a << k, A * ((big)1 << k)) }
#define SQ(i, e) { bool r = e; if (r != cmp(i, A, B)) bad(cmpn(i), "scalar", A, B, r, !r); }
    SQ(0, a == b) SQ(1, a != b) SQ(2, fx::lt(a, b)) SQ(2, a < b) SQ(3, fx::lte(a, b)) SQ(3, a <= b) SQ(4, fx::gt(a, b)) SQ(4, a > b) SQ(5, fx::gte(a, b)) SQ(5, a >= b)
    if (fits<R>(A - B)) for (int u = 0; u < 4; u++) { big d = A > B ? A - B : B - A; bool r = fx::equal_ulp(a, b, u); if (r != (d <= u)) bad("equal_ulp", "scalar", A, B, r, !r); }
  }
  // rounding to integers, square root (truncated, like the quotients it is made of), powers of integers
  static void math(R ra, R rb) {
    fp a = mk(ra); big A = ra, one = (big)1 << RT, f = fdiv(A, RT) * one;
    if (!fits<R>(one)) return;
#define SM(name, e, x) { fp r = e; mon::bulk(1); if ((big)r._raw != (big)(x)) bad(name, "scalar", A, 0, r._raw, x); }
    SM("floor", fx::floor(a), f)
    if (f == A || fits<R>(f + one)) SM("ceil", fx::ceil(a), f == A ? A : f + one)
    { bool r = fx::is_int(a); if (r != (f == A)) bad("is_int", "scalar", A, 0, r, !r); }
    if (fits<R>(-A * one) && fits<R>(A * one)) SM("abs", fx::abs(a), A < 0 ? -A : A)
    if (A >= 0 && fits<R>((A + one) * one) && fits<R>(2 * one * one)) {
      big q = A * one, lo = 0, hi = (big)1 << 63; while (hi - lo > 1) { big m = (lo + hi) / 2; if (m * m <= q) lo = m; else hi = m; }
      SM("sqrt", fx::sqrt(a), lo)
    }
    int e = (int)((UR)rb % 12); big v = f / one, w = 1; if (LF < 2 || !fits<R>(f) || !fits<R>(f * one) || !fits<R>(one * one)) return;
    for (int i = 0; i < e; i++) { w *= v; if (!fits<R>(w * one * one)) return; }
    SM("exp", fx::exp(mk((R)f), (i64)e), w * one)
  }
  // operands of other types
  static void mixed(R ra, int v) {
    fp a = mk(ra), b; big A = ra, B = (big)v << RT, w; if (!fits<R>(B)) return; b._raw = (R)B;
#define MX(T) { T t = (T)v; fp c(t); if ((big)c._raw != B) bad("construct", #T, v, 0, c._raw, B); \
    if (expect(0, A, B, w)) { if ((big)(a + t)._raw != w || (big)(t + a)._raw != w || (big)fx::add(a, t)._raw != w || (big)fx::add(t, a)._raw != w) bad("add", "mixed/" #T, A, B, (a + t)._raw, w); } \
    if (expect(1, A, B, w)) { if ((big)(a - t)._raw != w || (big)fx::sub(a, t)._raw != w) bad("sub", "mixed/" #T, A, B, (a - t)._raw, w); } \
    if (expect(1, B, A, w)) { if ((big)(t - a)._raw != w || (big)fx::sub(t, a)._raw != w) bad("sub", "mixed/left/" #T, B, A, (t - a)._raw, w); } \
    if (expect(2, A, B, w)) { if ((big)(a * t)._raw != w || (big)(t * a)._raw != w || (big)fx::mul(a, t)._raw != w) bad("mul", "mixed/" #T, A, B, (a * t)._raw, w); } \
    if (expect(3, A, B, w)) { if ((big)(a / t)._raw != w || (big)fx::div(a, t)._raw != w) bad("div", "mixed/" #T, A, B, (a / t)._raw, w); } \
    if (expect(3, B, A, w)) { if ((big)(t / a)._raw != w || (big)fx::div(t, a)._raw != w) bad("div", "mixed/left/" #T, B, A, (t / a)._raw, w); } \
    if ((a < t) != (A < B) || (a <= t) != (A <= B) || (a > t) != (A > B) || (a >= t) != (A >= B)) bad("compare", "mixed/" #T, A, B, (a < t) | (a <= t) << 1 | (a > t) << 2 | (a >= t) << 3, (A < B) | (A <= B) << 1 | (A > B) << 2 | (A >= B) << 3); \
    if ((t < a) != (B < A) || (t <= a) != (B <= A) || (t > a) != (B > A) || (t >= a) != (B >= A)) bad("compare", "mixed/left/" #T, B, A, 0, 0); }
    MX(int) MX(float) MX(double) MX(short)
    mon::eval((uint64_t)(UR)ra * 31 + (uint64_t)v * 7919 + LF * 131 + RT);
  }
  static void conv() {
    // float -> raw: nearest, halves away from zero; raw -> float exact when it fits 24 bits
    const double scale = std::ldexp(1.0, RT), hi = std::ldexp(1.0, LF - 1);
    for (int n = 0; n < 6000; n++) {
      float f;
      switch (n % 4) {
      case 0: f = (float)(((double)G->below(1u << 24) / (1u << 23) - 1.0) * hi); break;
      case 1: f = (float)((double)(int64_t)(G->below(4001)) - 2000.0) / (float)(scale * 4); break; // quarters: ties
      case 2: f = (float)((double)(int64_t)(G->below(2u << (LF < 20 ? LF : 20)) - (1u << (LF < 20 ? LF : 20))) / 4); break;
      default: f = (float)(std::ldexp((double)G->below(1u << 24), -(int)G->below(60)) * (G->below(2) ? 1 : -1));
      }
      double q = (double)f * scale; if (!(std::fabs((double)f) < hi)) continue;
      double w = std::floor(std::fabs(q) + 0.5); if (std::fabs(q) < 4503599627370496.0 && w - std::fabs(q) > 0.5) w -= 1; if (q < 0) w = -w;
      if (std::fabs(q) >= 8388608.0) w = q; // float has no fraction there
      if (!fits<R>((big)w)) continue;
      mon::eval(bits(f) * 977ull + LF * 131 + RT);
      fp x(f); if ((big)x._raw != (big)w) bad("from-float", "scalar", (big)std::ldexp((double)f, 20), 20, x._raw, (big)w);
      fp y; y = fp((double)f); if ((big)y._raw != (big)w) bad("from-double", "scalar", (big)std::ldexp((double)f, 20), 20, y._raw, (big)w);
      if (std::fabs(w) < 16777216.0) {
        float back = (float)x; double e = w / scale; if ((double)back != e) bad("to-float", "scalar", x._raw, 0, (big)std::ldexp(back, RT), (big)w);
        double bd = (double)x; if (bd != e) bad("to-double", "scalar", x._raw, 0, (big)std::ldexp(bd, RT), (big)w);
        if (std::fabs(e) < 2147483648.0) { int bi = (int)x; if ((double)bi != std::trunc(e)) bad("to-int", "scalar", x._raw, 0, bi, (big)std::trunc(e)); }
        fp z(back); if (z._raw != x._raw) bad("round-trip", "scalar", x._raw, 0, z._raw, x._raw);
        std::ostringstream o1, o2; o1 << x; o2 << (float)(e + 0.0); if (o1.str() != o2.str()) mon::viol(key("stream", "scalar"), "raw %s printed %s, expected %s", s(x._raw).c_str(), o1.str().c_str(), o2.str().c_str());
      }
    }
    if ((int)fx::left(fp(1.0f)) != LF || (int)fx::right(fp(1.0f)) != RT) bad("left-right", "scalar", LF, RT, fx::left(fp(1.0f)), fx::right(fp(1.0f)));
#define CST(name, v, lim) if (LF >= lim) { fp c = fx::constants::name<LF, RT>(); double e = (double)(float)(v) * scale; big w = (big)(e < 0 ? -std::floor(-e + 0.5) : std::floor(e + 0.5)); if ((big)c._raw != w) bad("constant-" #name, "scalar", 0, 0, c._raw, w); }
    CST(zero, 0, 1) CST(one, 1, 2) CST(two, 2, 3) CST(neg, -1, 2) CST(e, 2.718281828459045, 3) CST(pi, 3.14159265359, 3) CST(twopi, 2 * 3.14159265359, 4) CST(halfpi, 3.14159265359 / 2, 2)
  }
  // ---- packs ----
  static P get(const R *v) { fp t[NV]; int n = fx::len(fp()); for (int i = 0; i < n; i++) t[i] = mk(v[i]); return fx::loadu<P>(t); }
  static void packs(const R *a, const R *b, const R *c) {
    const int n = fx::len(fp()); int form = (int)G->below(2); big w;
    P pa = get(a), pb = get(b), pc = get(c); fp o[NV]; R m[NV];
    mon::eval(((uint64_t)(UR)a[0] << 20 ^ (uint64_t)(UR)b[0]) * 0x9E3779B97F4A7C15ull ^ (uint64_t)(UR)a[n - 1] ^ ((uint64_t)LF << 50 | (uint64_t)RT << 56));
    for (int op = 0; op < 13; op++) {
      R xa[NV], xb[NV]; // replace lanes whose result does not fit by ones that do (a hardware trap must not end the run)
      for (int i = 0; i < n; i++) { xa[i] = a[i]; xb[i] = b[i]; if (!expect(op, xa[i], xb[i], w)) { xa[i] = 0; xb[i] = (R)1; if (op == 12) xa[i] = (R)((R)1 << (W - 2)); } }
      P qa = get(xa), qb = get(xb); fx::storeu(o, pack_op(op, qa, qb, form));
      for (int i = 0; i < n; i++) if (expect(op, xa[i], xb[i], w) && (big)o[i]._raw != w) bad(opn(op), form ? "pack/op" : "pack", xa[i], xb[i], o[i]._raw, w);
    }
    fx::storeu(o, fx::fma(pa, pb, pc));
    for (int i = 0; i < n; i++) if (expect(2, a[i], b[i], w) && fits<R>(w + (big)c[i]) && (big)o[i]._raw != w + (big)c[i]) bad("fma", "pack", a[i], b[i], o[i]._raw, w + (big)c[i]);
    L lx[6];
    for (int q = 0; q < 6; q++) {
      lx[q] = cmp_op(q, pa, pb, form); fx::storelu<L>(m, lx[q]);
      for (int i = 0; i < n; i++) if ((m[i] != 0) != cmp(q, a[i], b[i])) bad(cmpn(q), form ? "pack/op" : "pack", a[i], b[i], m[i], cmp(q, a[i], b[i]));
    }
    // masks: logic, selection, memory round trip
    int q1 = (int)G->below(6), q2 = (int)G->below(6); L l1 = lx[q1], l2 = cmp_op(q2, pb, pc, 0);
    L r[5] = {fx::andl(l1, l2), fx::orl(l1, l2), fx::xorl(l1, l2), fx::andnotl(l1, l2), fx::notl(l1)};
    static const char *ln[] = {"andl", "orl", "xorl", "andnotl", "notl"};
    for (int k = 0; k < 5; k++) {
      fx::storelu<L>(m, r[k]);
      for (int i = 0; i < n; i++) { bool x = cmp(q1, a[i], b[i]), y = cmp(q2, b[i], c[i]), e = k == 0 ? x && y : k == 1 ? x || y : k == 2 ? x != y : k == 3 ? x && !y : !x; if ((m[i] != 0) != e) bad(ln[k], "pack", x, y, m[i], e); }
    }
    fx::storeu(o, fx::if_else1(l1, pb, pc));
    for (int i = 0; i < n; i++) { R e = cmp(q1, a[i], b[i]) ? b[i] : c[i]; if (o[i]._raw != e) bad("if_else1", "pack", cmp(q1, a[i], b[i]), b[i], o[i]._raw, e); }
    R k[NV]; for (int i = 0; i < n; i++) k[i] = (R)(G->below(2) ? (G->below(2) ? 1 : (R)(G->next() | 1)) : 0);
    fx::storelu<L>(m, fx::loadlu<L>(k));
    for (int i = 0; i < n; i++) if ((m[i] != 0) != (k[i] != 0)) bad("loadlu", "pack", k[i], 0, m[i], k[i] != 0);
    fx::storeu(o, fx::set1<P>(mk(a[0])));
    for (int i = 0; i < n; i++) if (o[i]._raw != a[0]) bad("set1", "pack", a[0], i, o[i]._raw, a[0]);
  }
  static void memory() {
    const int n = fx::len(fp()); const size_t sz = (size_t)n * sizeof(R), al = NSIMD_MAX_ALIGNMENT;
    if (n != nsimd::len(R())) bad("len", "pack", n, 0, n, nsimd::len(R()));
    P dummy = get(std::vector<R>(NV, 0).data()); if (fx::len(dummy) != n) bad("len", "pack", n, 1, fx::len(dummy), n);
    for (int t = 0; t < 24; t++) {
      AR->paint(*G);
      size_t off = t % 3 == 0 ? (size_t)(AR->hi - AR->lo) - sz : t % 3 == 1 ? 0 : G->below(3000) / sizeof(R) * sizeof(R); bool algn = t & 1; if (algn) off = off / al * al;
      R *src = (R *)(AR->lo + off); fp *fs = (fp *)src; R got[NV], want[NV]; memcpy(want, src, sz); fp o[NV];
      mon::ctx("%s load/store off %zu aligned %d", nm, off, algn); mon::eval((uint64_t)off * 64 + t + (uint64_t)LF * 7717 + RT * 31);
      if (!arena::quiet([&] { P p = algn ? fx::loada<P>(fs) : fx::loadu<P>(fs); fx::storeu(o, p); })) { mon::viol(key(algn ? "loada" : "loadu", "memory"), "fault at %p, region ends at %p", arena::fault_addr, (void *)AR->hi); continue; }
      for (int i = 0; i < n; i++) if (o[i]._raw != want[i]) { bad(algn ? "loada" : "loadu", "memory", want[i], i, o[i]._raw, want[i]); break; }
      if (!arena::quiet([&] { L l = algn ? fx::loadla<L>(src) : fx::loadlu<L>(src); fx::storelu<L>(got, l); })) { mon::viol(key(algn ? "loadla" : "loadlu", "memory"), "fault at %p, region ends at %p", arena::fault_addr, (void *)AR->hi); continue; }
      for (int i = 0; i < n; i++) if ((got[i] != 0) != (want[i] != 0)) { bad(algn ? "loadla" : "loadlu", "memory", want[i], i, got[i], want[i] != 0); break; }
      R v[NV]; for (int i = 0; i < n; i++) v[i] = (R)G->next();
      P p = get(v);
      if (!arena::quiet([&] { if (algn) fx::storea(fs, p); else fx::storeu(fs, p); })) { mon::viol(key(algn ? "storea" : "storeu", "memory"), "fault at %p, region ends at %p", arena::fault_addr, (void *)AR->hi); continue; }
      AR->expect(src, v, sz); if (AR->diff() >= 0) { mon::viol(key(algn ? "storea" : "storeu", "memory"), "storing %d lanes at offset %zu: byte %ld differs from what must be there", n, off, AR->diff()); AR->resync(); }
      R kk[NV], ws[NV]; for (int i = 0; i < n; i++) kk[i] = (R)G->below(2);
      L l = fx::loadlu<L>(kk); for (int i = 0; i < n; i++) ws[i] = kk[i]; // a stored mask is 0 or 1
      if (!arena::quiet([&] { if (algn) fx::storela<L>(src, l); else fx::storelu<L>(src, l); })) { mon::viol(key(algn ? "storela" : "storelu", "memory"), "fault at %p, region ends at %p", arena::fault_addr, (void *)AR->hi); continue; }
      AR->expect(src, ws, sz); if (AR->diff() >= 0) { mon::viol(key(algn ? "storela" : "storelu", "memory"), "storing a mask of %d lanes at offset %zu: byte %ld differs from what must be there", n, off, AR->diff()); AR->resync(); }
      std::ostringstream os, e; os << p; e << "{ "; for (int i = 0; i < n; i++) { e << (float)mk(v[i]); if (i < n - 1) e << ", "; } e << " }"; if (os.str() != e.str()) mon::viol(key("stream", "pack"), "printed %s, expected %s", os.str().substr(0, 200).c_str(), e.str().substr(0, 200).c_str());
      mon::count("memory-accesses", 4);
    }
  }
  static R raw() {
    const int bits = LF + RT < W ? LF + RT : W; // a value of the format
    switch (G->below(8)) {
    case 0: return (R)((int64_t)G->below(9) - 4);
    case 1: return (R)(((int64_t)G->below(9) - 4) * ((int64_t)1 << RT));
    case 2: { big e = ((big)1 << (bits - 1)); big v = G->below(2) ? e - 1 - (big)G->below(3) : -e + (big)G->below(3); return (R)v; }
    case 3: return (R)((int64_t)((uint64_t)((int64_t)G->next() >> (63 - bits / 2))));
    case 4: return (R)G->next(); // any stored value
    default: { int64_t v = (int64_t)G->next() >> (64 - bits); return (R)v; }
    }
  }
  static void run() {
    snprintf(nm, sizeof nm, "fp%d_%d", LF, RT); mon::ctx("%s", nm); mon::count("formats");
    const int n = fx::len(fp());
    conv();
    const int N = mon::st().thorough ? 60000 : 5000;
    for (int i = 0; i < N; i++) { R a = raw(), b = raw(); if (i % 5 == 0) b = a; if (i % 7 == 0) b = (R)(UR)((UR)a + 1); scal(a, b); math(a, b); if (i % 4 == 0) math((R)(fdiv(a, RT) * ((big)1 << RT)), b), math((R)(a & 0xff), b), math((R)(b >> (RT / 2)), a); }
    for (int i = 0; i < 2000; i++) { int lim = LF < 12 ? 1 << (LF - 1) : 2000; mixed(raw(), (int)G->below(2 * (uint64_t)lim) - lim); }
    R a[NV], b[NV], c[NV];
    for (int i = 0; i < N / 4; i++) { for (int k = 0; k < n; k++) { a[k] = raw(); b[k] = G->below(5) ? raw() : a[k]; c[k] = G->below(5) ? raw() : b[k]; } packs(a, b, c); }
    if (W == 8) { // every pair of stored values
      int x = -128, y = -128; bool end = false;
      while (!end) { for (int k = 0; k < n; k++) { a[k] = (R)x; b[k] = (R)y; c[k] = (R)(x ^ y); if (!end) { scal(a[k], b[k]); math(a[k], b[k]); } if (++x == 128) { x = -128; if (++y == 128) { y = -128; end = true; } } } packs(a, b, c); }
      mon::count("exhaustive-formats");
    }
    memory();
  }
};
template <int LF, int RT> char F<LF, RT>::nm[24];

template <int LF> static void row() { F<LF, 1>::run(); F<LF, 2>::run(); F<LF, 3>::run(); F<LF, 4>::run(); F<LF, 5>::run(); F<LF, 6>::run(); F<LF, 7>::run(); F<LF, 8>::run(); }
int main(int argc, char **argv) {
  mon::init(argc, argv); arena::init(); mon::Rng g(mon::st().seed * 77 + mon::hash_str(ext_name())); G = &g; arena::Arena ar(2); AR = &ar;
  row<4>(); row<8>(); row<16>();
  F<1, 1>::run(); F<2, 3>::run(); F<6, 1>::run(); F<3, 1>::run(); F<8, 12>::run(); F<12, 10>::run(); F<24, 4>::run(); F<16, 16>::run(); F<20, 20>::run(); F<32, 16>::run(); F<48, 8>::run(); F<10, 27>::run();
  F<8, 0>::run(); F<16, 0>::run(); F<32, 0>::run(); F<2, 31>::run(); F<4, 30>::run();
  mon::flush_report("ok"); return 0;
}

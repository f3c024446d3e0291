// Half precision conversions, classification and ufp distance. part=k/n
// selects a slice of the exhaustive enumerations.
#include "surf.hpp"
static uint64_t P, NP;
#define V(k, ...) mon::viol(std::string("lib/") + k, __VA_ARGS__)
static float f32b(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static uint32_t b32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static void h2f() {
  for (uint32_t i = 0; i < 65536; i++) {
    f16 h = frombits<f16>(i); double w = o_h2d((uint16_t)i); float r[5] = {nsimd_u16_to_f32((u16)i), nsimd_f16_to_f32(h), nsimd::u16_to_f32((u16)i), nsimd::f16_to_f32(h), nsimd::to<f32>(h)};
    const char *nm[5] = {"nsimd_u16_to_f32", "nsimd_f16_to_f32", "nsimd::u16_to_f32", "nsimd::f16_to_f32", "nsimd::to"};
    for (int k = 0; k < 5; k++) { bool nn = (i & 0x7fff) > 0x7c00; bool okk = nn ? r[k] != r[k] && (b32(r[k]) >> 31) == (i >> 15) : (double)r[k] == w && (b32(r[k]) >> 31) == (i >> 15);
      if (!okk) V(std::string("half-to-single/") + nm[k], "%s(0x%04x) = 0x%08x, want %.9g", nm[k], i, b32(r[k]), w);
      if (!nn) { u16 back = nsimd_f32_to_u16(r[k]); if (back != i) V("round-trip", "0x%04x -> %s -> nsimd_f32_to_u16 = 0x%04x", i, nm[k], back); } }
  }
  mon::bulk(65536 * 6);
}
static void f2h() {
  uint64_t lo = (P << 32) / NP, hi = ((P + 1) << 32) / NP, step = 1;
  for (uint64_t q = lo; q < hi; q += step) {
    float x = f32b((uint32_t)q); u16 g = nsimd_f32_to_u16(x); uint32_t w = o_f2h(x);
    bool nn = x != x; if (nn ? (g & 0x7fff) <= 0x7c00 : g != w) V("single-to-half/nsimd_f32_to_u16", "nsimd_f32_to_u16(0x%08x = %.9g) = 0x%04x, want %s0x%04x", (uint32_t)q, x, g, nn ? "NaN, e.g. " : "", w);
    if ((q & 63) == 0) { u16 a = bits(nsimd_f32_to_f16(x)), b = nsimd::f32_to_u16(x), c = bits(nsimd::f32_to_f16(x)), d = bits(nsimd::to<f16>(x)); if (a != g || b != g || c != g || d != g) V("single-to-half/agreement", "0x%08x: %04x %04x %04x %04x %04x", (uint32_t)q, g, a, b, c, d); }
  }
  mon::bulk(hi - lo); mon::count("f32 to f16 exhaustive", (long)(hi - lo));
}
template <class T> static void cls(T x) {
  const int M = TI<T>::w == 16 ? 10 : TI<T>::w == 32 ? 23 : 52, E = TI<T>::w - 1 - M; uint64_t b = bits(x), m = b & ((1ull << M) - 1), e = (b >> M) & ((1ull << E) - 1), ff = (1ull << E) - 1;
  int n = e == ff && m, i = e == ff && !m, no = !(e == 0 && m);
  if (!!nsimd::isnan(x) != n) V(std::string("isnan/") + TI<T>::nm(), "isnan_%s(%s) = %d", TI<T>::nm(), hex(x).c_str(), nsimd::isnan(x));
  if (!!nsimd::isinf(x) != i) V(std::string("isinf/") + TI<T>::nm(), "isinf_%s(%s) = %d", TI<T>::nm(), hex(x).c_str(), nsimd::isinf(x));
  if (!!nsimd::isnormal(x) != no) V(std::string("isnormal/") + TI<T>::nm(), "isnormal_%s(%s) = %d", TI<T>::nm(), hex(x).c_str(), nsimd::isnormal(x));
}
static int cufp(f16 a, f16 b) { return nsimd_ufp_f16(a, b); } static int cufp(f32 a, f32 b) { return nsimd_ufp_f32(a, b); } static int cufp(f64 a, f64 b) { return nsimd_ufp_f64(a, b); }
template <class T> static void ufp1(T x, T y) { // normal numbers of the same sign
  const int M = TI<T>::w == 16 ? 10 : TI<T>::w == 32 ? 23 : 52, E = TI<T>::w - 1 - M; uint64_t a = bits(x), b = bits(y); int ea = (int)((a >> M) & ((1u << E) - 1)), eb = (int)((b >> M) & ((1u << E) - 1));
  int w = 0; if (ea - eb <= 1 && eb - ea <= 1) { int e = ea < eb ? ea : eb; uint64_t ma = ((a & ((1ull << M) - 1)) | (1ull << M)) << (ea - e), mb = ((b & ((1ull << M) - 1)) | (1ull << M)) << (eb - e), d = ma > mb ? ma - mb : mb - ma; int l = 0; while (d >> l) l++; w = M + 1 - l; if (w < 0) w = 0; }
  int g = nsimd::ufp(x, y), h = cufp(y, x);
  if (g != w || h != w) V(std::string("ufp/") + TI<T>::nm(), "ufp_%s(%s, %s) = %d, swapped %d, want %d", TI<T>::nm(), hex(x).c_str(), hex(y).c_str(), g, h, w);
}
template <class T> static void ufpr(mon::Rng &g, long n) {
  const int M = TI<T>::w == 32 ? 23 : 52, E = TI<T>::w - 1 - M;
  for (long i = 0; i < n; i++) { uint64_t e = 1 + g.below((1u << E) - 2), a = (e << M) | (g.next() & ((1ull << M) - 1)); int k = (int)g.below(M + 3); uint64_t d = g.next() & ((1ull << k) - 1), b = g.below(2) ? a + d : a - d; if (g.below(8) == 0) b = a; if (g.below(8) == 0) a = (e << M) | ((1ull << M) - 1 - g.below(3)), b = ((e + 1) << M) | g.below(3); if (g.below(8) == 0) b = g.next() >> 1;
    uint64_t eb = b >> M; if (eb == 0 || eb >= (1u << E) - 1) continue; uint64_t s = (uint64_t)g.below(2) << (TI<T>::w - 1); ufp1(frombits<T>(a | s), frombits<T>(b | s)); mon::eval(a * 31 + mon::Rng::mix(b)); }
}
int main(int argc, char **argv) {
  mon::init(argc, argv); P = strtoull(mon::arg("part", "0").c_str(), 0, 10); NP = strtoull(mon::arg("parts", "1").c_str(), 0, 10);
  mon::ctx("half"); if (P == 0) h2f();
  f2h();
  mon::ctx("classification"); if (P == 0) { for (uint32_t i = 0; i < 65536; i++) cls(frombits<f16>(i)); mon::bulk(65536 * 3); }
  { uint64_t lo = (P << 32) / NP, hi = ((P + 1) << 32) / NP; for (uint64_t q = lo; q < hi; q++) { uint32_t u = (uint32_t)q; uint32_t e = (u >> 23) & 255; if (e > 1 && e < 254 && (q & 1023)) continue; cls(f32b(u)); mon::bulk(1); } }
  mon::Rng g(mon::seed() * 77 + P);
  for (f64 x : Gen<f64>::boundary()) cls(x);
  for (long i = 0; i < (mon::thorough() ? 20000000 : 1000000); i++) { uint64_t r = g.next(); int k = (int)g.below(6); if (k == 0) r |= 0x7ff0000000000000ull; if (k == 1) r &= 0x800fffffffffffffull; if (k == 2) r = (r & 0x8000000000000000ull) | 0x7ff0000000000000ull | (1ull << g.below(52)); if (k == 3) r = (r & 0x8000000000000000ull) | (1ull << g.below(52)); cls(frombits<f64>(r)); mon::eval(r); }
  mon::ctx("ufp"); long np = 0;
  for (uint32_t a = 0x400 + (uint32_t)P; a < 0x7c00; a += (uint32_t)NP) { uint32_t e = a >> 10; for (uint32_t b = 0x400; b < 0x7c00; b++) { uint32_t f = b >> 10; if (!mon::thorough() && (f > e + 2 || e > f + 2) && (b & 255)) continue; if (!mon::thorough() && ((a ^ b) & 3) == 3) continue; ufp1(frombits<f16>(a), frombits<f16>(b)); np++; if ((b & 15) == 0) ufp1(frombits<f16>(a | 0x8000), frombits<f16>(b | 0x8000)); } }
  mon::bulk(np); mon::count("ufp f16 pairs", np);
  ufpr<f32>(g, mon::thorough() ? 30000000 : 600000); ufpr<f64>(g, mon::thorough() ? 30000000 : 600000);
  mon::flush_report("ok");
}

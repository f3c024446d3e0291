// Counter-based generators against an independent scalar implementation of the published algorithms.
#include "gen.hpp"
#include <nsimd/modules/random/functions.hpp>
namespace rn = nsimd::random;
static mon::Rng *G;
static std::string key2(const char *op, const char *surf) { return std::string(ext_name()) + "/" + op + "/" + surf; }

// ---- the published algorithms (Salmon et al., SC'11), one lane ----
template <class U> struct C;
template <> struct C<uint32_t> {
  typedef uint64_t D; static const int w = 32; static const uint32_t W0 = 0x9E3779B9u, W1 = 0xBB67AE85u, M2 = 0xD256D193u, M40 = 0xD2511F53u, M41 = 0xCD9E8D57u, KS = 0x1BD11BDAu;
};
template <> struct C<uint64_t> {
  typedef unsigned __int128 D; static const int w = 64; static const uint64_t W0 = 0x9E3779B97F4A7C15ull, W1 = 0xBB67AE8584CAA73Bull, M2 = 0xD2B74407B1CE6E93ull, M40 = 0xD2E7470EE14C6C93ull, M41 = 0xCA5A826395121157ull, KS = 0x1BD11BDAA9FC1A22ull;
};
static const int R232[8] = {13, 15, 26, 6, 17, 29, 16, 24}, R264[8] = {16, 42, 12, 31, 16, 32, 24, 21};
static const int R432[8][2] = {{10, 26}, {11, 21}, {13, 27}, {23, 5}, {6, 20}, {17, 11}, {25, 10}, {18, 20}};
static const int R464[8][2] = {{14, 16}, {52, 57}, {23, 40}, {5, 37}, {25, 33}, {46, 12}, {58, 22}, {32, 32}};
template <class U> static U rotl(U x, int n) { return (U)(x << n) | (U)(x >> (C<U>::w - n)); }
template <class U> static void ref_philox(int nw, int rounds, const U *in, const U *k, U *o) {
  typedef typename C<U>::D D; U x[4], kk[2] = {k[0], nw == 4 ? k[1] : 0}; for (int i = 0; i < nw; i++) x[i] = in[i];
  for (int r = 0; r < rounds; r++) {
    if (nw == 2) { D p = (D)C<U>::M2 * x[0]; U hi = (U)(p >> C<U>::w), lo = (U)p; U y0 = hi ^ kk[0] ^ x[1]; x[0] = y0; x[1] = lo; }
    else { D p = (D)C<U>::M40 * x[0], q = (D)C<U>::M41 * x[2]; U y0 = (U)(q >> C<U>::w) ^ x[1] ^ kk[0], y1 = (U)q, y2 = (U)(p >> C<U>::w) ^ x[3] ^ kk[1], y3 = (U)p; x[0] = y0; x[1] = y1; x[2] = y2; x[3] = y3; }
    kk[0] = (U)(kk[0] + C<U>::W0); kk[1] = (U)(kk[1] + C<U>::W1);
  }
  for (int i = 0; i < nw; i++) o[i] = x[i];
}
template <class U> static void ref_threefry(int nw, int rounds, const U *in, const U *k, U *o) {
  U ks[5], x[4]; ks[nw] = C<U>::KS; for (int i = 0; i < nw; i++) { ks[i] = k[i]; ks[nw] ^= k[i]; x[i] = (U)(in[i] + k[i]); }
  for (int r = 0; r < rounds; r++) {
    if (nw == 2) { x[0] = (U)(x[0] + x[1]); x[1] = rotl<U>(x[1], C<U>::w == 32 ? R232[r % 8] : R264[r % 8]); x[1] ^= x[0]; }
    else {
      const int *R = C<U>::w == 32 ? R432[r % 8] : R464[r % 8]; int a = r % 2 ? 3 : 1, b = r % 2 ? 1 : 3;
      x[0] = (U)(x[0] + x[a]); x[a] = rotl<U>(x[a], R[0]) ^ x[0]; x[2] = (U)(x[2] + x[b]); x[b] = rotl<U>(x[b], R[1]) ^ x[2];
    }
    if (r % 4 == 3) { int d = r / 4 + 1; for (int i = 0; i < nw; i++) x[i] = (U)(x[i] + ks[(d + i) % (nw + 1)]); x[nw - 1] = (U)(x[nw - 1] + (U)d); }
  }
  for (int i = 0; i < nw; i++) o[i] = x[i];
}
// known answers published with Random123
static void kat() {
  struct K { int w, nw, rounds, philox; uint64_t c[4], k[4], o[4]; };
  static const K T[] = {
    {32, 4, 10, 1, {0, 0, 0, 0}, {0, 0}, {0x6627e8d5, 0xe169c58d, 0xbc57ac4c, 0x9b00dbd8}},
    {32, 4, 10, 1, {0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff}, {0xffffffff, 0xffffffff}, {0x408f276d, 0x41c83b0e, 0xa20bc7c6, 0x6d5451fd}},
    {32, 4, 10, 1, {0x243f6a88, 0x85a308d3, 0x13198a2e, 0x03707344}, {0xa4093822, 0x299f31d0}, {0xd16cfe09, 0x94fdcceb, 0x5001e420, 0x24126ea1}},
    {64, 4, 20, 0, {0, 0, 0, 0}, {0, 0, 0, 0}, {0x09218ebde6c85537ull, 0x55941f5266d86105ull, 0x4bd25e16282434dcull, 0xee29ec846bd2e40bull}},
    {32, 2, 20, 0, {0, 0}, {0, 0}, {0x6b200159, 0x99ba4efe}},
    {32, 2, 20, 0, {0xffffffff, 0xffffffff}, {0xffffffff, 0xffffffff}, {0x1cb996fc, 0xbb002be7}},
    {32, 2, 20, 0, {0x243f6a88, 0x85a308d3}, {0x13198a2e, 0x03707344}, {0xc4923a9c, 0x483df7a0}},
  };
  for (size_t n = 0; n < sizeof T / sizeof *T; n++) {
    const K &t = T[n]; bool ok = true;
    if (t.w == 32) { uint32_t c[4], k[4], o[4]; for (int i = 0; i < 4; i++) { c[i] = (uint32_t)t.c[i]; k[i] = (uint32_t)t.k[i]; } if (t.philox) ref_philox<uint32_t>(t.nw, t.rounds, c, k, o); else ref_threefry<uint32_t>(t.nw, t.rounds, c, k, o); for (int i = 0; i < t.nw; i++) ok = ok && o[i] == t.o[i]; }
    else { uint64_t o[4]; if (t.philox) ref_philox<uint64_t>(t.nw, t.rounds, t.c, t.k, o); else ref_threefry<uint64_t>(t.nw, t.rounds, t.c, t.k, o); for (int i = 0; i < t.nw; i++) ok = ok && o[i] == t.o[i]; }
    if (!ok) { fprintf(stderr, "reference does not reproduce known answer %d\n", (int)n); _exit(3); }
    mon::count("known-answers");
  }
}
template <class U, int N> static nsimd::pack<U, N> ld(const U *p, int) { return nsimd::loadu<nsimd::pack<U, N> >(p); }
template <class P, class U> static void put(P &p, int i, const U *v) { nsimd::pack<U> q = nsimd::loadu<nsimd::pack<U> >(v); (i == 0 ? p.v0 : p.v1) = q; }
template <class U> static void put4(nsimd::packx4<U> &p, int i, const U *v) { nsimd::pack<U> q = nsimd::loadu<nsimd::pack<U> >(v); (i == 0 ? p.v0 : i == 1 ? p.v1 : i == 2 ? p.v2 : p.v3) = q; }
template <class U> static void put2(nsimd::packx2<U> &p, int i, const U *v) { nsimd::pack<U> q = nsimd::loadu<nsimd::pack<U> >(v); (i == 0 ? p.v0 : p.v1) = q; }
template <class U> static void mk(nsimd::packx1<U> &p, const U *v) { p.v0 = nsimd::loadu<nsimd::pack<U> >(v); }
template <class U> static void mk(nsimd::packx2<U> &p, const U *v) { for (int i = 0; i < 2; i++) put2(p, i, v + i * 64); }
template <class U> static void mk(nsimd::packx4<U> &p, const U *v) { for (int i = 0; i < 4; i++) put4(p, i, v + i * 64); }
template <class U> static void un(const nsimd::packx2<U> &p, U *v) { nsimd::storeu(v, p.v0); nsimd::storeu(v + 64, p.v1); }
template <class U> static void un(const nsimd::packx4<U> &p, U *v) { nsimd::storeu(v, p.v0); nsimd::storeu(v + 64, p.v1); nsimd::storeu(v + 128, p.v2); nsimd::storeu(v + 192, p.v3); }

template <class U> static U val() {
  uint64_t r = G->next();
  switch (G->below(8)) { case 0: return (U)(r % 3); case 1: return (U)(0 - r % 3 - 1); case 2: return (U)((U)1 << (r % C<U>::w)); case 3: return (U)(r >> 33); case 4: return (U)((r << 32) & ~(uint64_t)0xffff); default: return (U)r; }
}
template <class U, class IN, class KEY> static void one(const char *nm, IN (*f)(IN, KEY), bool philox, int nw, int rounds) {
  const int L = nsimd::len(U()), kw = philox ? nw / 2 : nw; U in[256], k[256], o[256]; mon::ctx("%s", nm);
  const int N = mon::st().thorough ? 30000 : 1500; long distinct_out = 0;
  for (int t = 0; t < N; t++) {
    for (int i = 0; i < 256; i++) { in[i] = t % 3 == 0 ? (U)((uint64_t)t * 64 + i % 64) : val<U>(); k[i] = t % 4 == 0 ? (U)(t / 4) : val<U>(); }
    if (t == 0) { memset(in, 0, sizeof in); memset(k, 0, sizeof k); }
    if (t == 1) { memset(in, 255, sizeof in); memset(k, 255, sizeof k); }
    IN a; KEY b; mk(a, in); mk(b, k); un(f(a, b), o);
    for (int l = 0; l < L; l++) {
      U ri[4], rk[4], ro[4]; for (int i = 0; i < nw; i++) ri[i] = in[i * 64 + l]; for (int i = 0; i < kw; i++) rk[i] = k[i * 64 + l];
      if (philox) ref_philox<U>(nw, rounds, ri, rk, ro); else ref_threefry<U>(nw, rounds, ri, rk, ro);
      mon::eval(mon::Rng::mix((uint64_t)ri[0] ^ mon::Rng::mix((uint64_t)rk[0] + ri[1])) ^ mon::hash_str(nm));
      for (int i = 0; i < nw; i++) if (ro[i] != o[i * 64 + l]) { mon::viol(key2(nm, "words"), "lane %d word %d counter %llx,%llx key %llx: got %llx expected %llx", l, i, (unsigned long long)ri[0], (unsigned long long)ri[1], (unsigned long long)rk[0], (unsigned long long)o[i * 64 + l], (unsigned long long)ro[i]); break; }
      distinct_out++;
    }
    // the same call again: no hidden state
    if (t % 50 == 0) { U o2[256]; un(f(a, b), o2); for (int l = 0; l < L; l++) for (int i = 0; i < nw; i++) if (o2[i * 64 + l] != o[i * 64 + l]) mon::viol(key2(nm, "stateless"), "a second call gave another result"); }
  }
  mon::count("generators"); mon::count("lanes", distinct_out);
}
template <class U> static void mulhilo(const char *nm, void (*f)(nsimd::pack<U>, nsimd::pack<U>, nsimd::pack<U> *, nsimd::pack<U> *)) {
  const int L = nsimd::len(U()); U a[64], b[64], lo[64], hi[64]; mon::ctx("%s", nm);
  for (int t = 0; t < 8000; t++) {
    for (int i = 0; i < L; i++) { a[i] = val<U>(); b[i] = val<U>(); }
    nsimd::pack<U> pl, ph; f(nsimd::loadu<nsimd::pack<U> >(a), nsimd::loadu<nsimd::pack<U> >(b), &pl, &ph); nsimd::storeu(lo, pl); nsimd::storeu(hi, ph);
    for (int i = 0; i < L; i++) {
      typename C<U>::D p = (typename C<U>::D)a[i] * b[i]; mon::eval(mon::Rng::mix((uint64_t)a[i] * 3 + (uint64_t)b[i] * 7) + C<U>::w);
      if (lo[i] != (U)p || hi[i] != (U)(p >> C<U>::w)) mon::viol(key2(nm, "product"), "%llx * %llx: got hi %llx lo %llx", (unsigned long long)a[i], (unsigned long long)b[i], (unsigned long long)hi[i], (unsigned long long)lo[i]);
    }
  }
}
void randm_other_unit(); // a second translation unit that includes the module too
int main(int argc, char **argv) {
  mon::init(argc, argv); mon::Rng g(mon::st().seed * 131 + mon::hash_str(ext_name())); G = &g;
  kat();
  mulhilo<u32>("mulhilo32", rn::mulhilo32); mulhilo<u64>("mulhilo64", rn::mulhilo64);
#define PH(nw, w, r) one<u##w>("philox_" #nw "x" #w "_" #r, rn::philox_##nw##x##w##_##r, true, nw, r);
#define TF(nw, w, r) one<u##w>("threefry_" #nw "x" #w "_" #r, rn::threefry_##nw##x##w##_##r, false, nw, r);
  PH(2, 32, 10) PH(4, 32, 7) PH(4, 32, 10) PH(2, 64, 6) PH(2, 64, 10) PH(4, 64, 7) PH(4, 64, 10)
  TF(2, 32, 12) TF(2, 32, 20) TF(2, 32, 32) TF(4, 32, 12) TF(4, 32, 20) TF(4, 32, 72) TF(2, 64, 13) TF(2, 64, 20) TF(2, 64, 32) TF(4, 64, 12) TF(4, 64, 20) TF(4, 64, 72)
  randm_other_unit();
  mon::flush_report("ok"); return 0;
}

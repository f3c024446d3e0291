// Runs the generated TET1D assignments (lib/gen_tet.py) for every size around the register length, with slices and
// alignments of all kinds and arrays flush against inaccessible pages, and compares every byte of every array with
// what the scalar program of one element does.
#include "gen.hpp"
#include <sys/mman.h>
struct args { void *p[7]; nsimd_nat pre[6], post[6]; int mode[6]; };
typedef void (*fn)(nsimd_nat, struct args *);
struct Row { const char *name; int bits; char ty; int unroll, alias; const char *kind; fn run, ref; };
struct One { const char *name, *op; char ty, to; int bits; fn run, ref, pk; };
#include VF_TABLE
static const size_t AREA = 1 << 15, PAGE = 4096;
struct Area { char *lo, *base, *end; Area() { lo = (char *)mmap(0, AREA + 2 * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (lo == (char *)MAP_FAILED) abort(); base = lo + PAGE; end = base + AREA; mprotect(lo, PAGE, PROT_NONE); mprotect(end, PAGE, PROT_NONE); } };
static Area A[7], B[7], C[7];
#ifdef VF_GPU
static const int LEAST = 1; // a grid of no block is not a launch
static int reglen(int) { return 128; } // threads per block
#else
static const int LEAST = 0;
static int reglen(int bits) { return bits == 8 ? vlen_<i8>() : bits == 16 ? vlen_<i16>() : bits == 32 ? vlen_<i32>() : vlen_<i64>(); }
#endif
static void put(mon::Rng &g, char *q, int bits, char ty, int mode) {
  int64_t v = mode == 0 ? (int64_t)g.below(12) - 3 : mode == 1 ? (int64_t)g.below(3) : mode == 2 ? (int64_t)g.next() : (int64_t)(g.below(2) ? 5 : -(int64_t)g.below(200));
  if (ty == 'f') {
    double d = (double)(v % 50); if (mode == 2 && bits > 16) d = ((double)(int64_t)(g.next() >> 40) - 8388608.0) * (g.below(2) ? 1.0 : 0.0078125);
    if (mode == 0 && g.below(3) == 0) d += 0.5;
    if (bits == 16) { uint16_t h = o_d2h(d); memcpy(q, &h, 2); } else if (bits == 32) { float f = (float)d; memcpy(q, &f, 4); } else memcpy(q, &d, 8);
  } else memcpy(q, &v, (size_t)bits / 8);
}
static std::vector<int> sizes(mon::Rng &g, int len, int extra) { std::vector<int> s; for (int k = 0; k <= 3; k++) for (int d = -1; d <= 1; d++) if (k * len + d >= LEAST) s.push_back(k * len + d); s.push_back(2); for (int k = 0; k < extra; k++) s.push_back(LEAST + (int)g.below((uint64_t)(4 * len + 7))); return s; }
// lays out array q with pre elements before and post after its n elements, against the upper or the lower guard page
static void place(mon::Rng &g, args &a, int q, int bits, int n, bool slice) {
  const size_t w = (size_t)bits / 8; size_t post = 0, pre = 0; if (slice) { post = g.below(9); pre = g.below(9); }
  char *p; if (g.below(2)) p = A[q].end - (post + (size_t)n) * w; else p = A[q].base + pre * w + (g.below(2) ? 0 : g.below(16) * w);
  a.p[q] = p; if (q < 6) { a.pre[q] = (nsimd_nat)pre; a.post[q] = (nsimd_nat)post; a.mode[q] = slice ? (int)g.below(6) : 0; }
}
static void mirror(const args &a, args &b, Area *X) { b = a; for (int q = 0; q < 7; q++) { memcpy(X[q].base, A[q].base, AREA); b.p[q] = X[q].base + ((char *)a.p[q] - A[q].base); } }
template <class T> static bool same_(const char *x, const char *y, bool flt) { T p, q; memcpy(&p, x, sizeof p); memcpy(&q, y, sizeof q); if (p == q) return true; if (!flt) return false; const T m = (T)((T)1 << (8 * sizeof p - 1)); return (T)(p | m) == m && (T)(q | m) == m; }
static bool same(const char *x, const char *y, int bits, bool flt) { return bits == 8 ? *x == *y : bits == 16 ? same_<uint16_t>(x, y, flt) : bits == 32 ? same_<uint32_t>(x, y, flt) : same_<uint64_t>(x, y, flt); }
static bool nan2(const char *x, const char *y, int bits) {
  auto isn = [&](const char *p) { if (bits == 16) { uint16_t h; memcpy(&h, p, 2); return (h & 0x7fff) > 0x7c00; } if (bits == 32) { uint32_t h; memcpy(&h, p, 4); return (h & 0x7fffffffu) > 0x7f800000u; } uint64_t h; memcpy(&h, p, 8); return (h & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; };
  return isn(x) && isn(y);
}
int main(int argc, char **argv) {
  mon::init(argc, argv);
  const char ty[6] = {'i', 'i', 'u', 'u', 'f', 'f'}; int done = 0;
  for (const Row &r : TABLE) {
    mon::Rng g(mon::seed() * 7919 + mon::hash_str(r.name)); const int len = reglen(r.bits) * (LEAST ? 1 : r.unroll); const size_t w = (size_t)r.bits / 8; long wr = 0;
    std::vector<int> ss = sizes(g, len, mon::thorough() ? 60 : 14);
    for (size_t k = 0; k < ss.size(); k++) {
      const int n = ss[k], mode = (int)g.below(4); args a, b;
      for (int q = 0; q < 7; q++) { for (size_t o = 0; o + w <= AREA; o += w) A[q].base[o] = (char)0xC7; const char t = q < 6 ? ty[q] : r.ty; for (size_t o = 0; o + w <= AREA; o += w) if (o < 800 * w || o + 800 * w > AREA) put(g, A[q].base + o, r.bits, r.bits == 8 && t == 'f' ? 'i' : t, mode); place(g, a, q, r.bits, n, q < 6); }
      mirror(a, b, B);
      std::string key = std::string(ext_name()) + "/" + r.name + "/" + r.kind + "/unroll" + std::to_string(r.unroll); mon::ctx("%s n=%d", key.c_str(), n);
      r.run(n, &a); r.ref(n, &b); mon::eval(mon::hash_str(r.name) * 31 + (uint64_t)k);
      const int z = r.alias >= 0 ? r.alias : 6;
      for (int q = 0; q < 7; q++) for (size_t o = 0; o + w <= AREA; o += w) if (memcmp(A[q].base + o, B[q].base + o, w)) {
        const long e = ((long)o - ((char *)a.p[q] - A[q].base)) / (long)w; if (q == z && r.ty == 'f' && e >= 0 && e < n && same(A[q].base + o, B[q].base + o, r.bits, true)) continue;
        uint64_t x = 0, y = 0; memcpy(&x, A[q].base + o, w); memcpy(&y, B[q].base + o, w);
        mon::viol(key, "n=%d (register length %d), output %s: element %ld of array %d is 0x%llx, the scalar program gives 0x%llx (data mode %d)", n, len, r.alias >= 0 ? "is also an input" : "separate", e, q, (unsigned long long)x, (unsigned long long)y, mode); goto next; }
      next: wr += n > len;
    }
    mon::count("random assignments run on more than one register", wr); mon::count("random assignments"); if (done++ % 17 == 0) mon::sample("%s (%s) bits=%d unroll=%d output %s: %d sizes", r.name, r.kind, r.bits, r.unroll, r.alias >= 0 ? "in place" : "separate", (int)ss.size());
  }
  done = 0;
  for (const One &r : ONES) {
    mon::Rng g(mon::seed() * 104729 + mon::hash_str(r.name)); const int len = reglen(r.bits); const size_t w = (size_t)r.bits / 8;
    std::vector<int> ss = sizes(g, len, mon::thorough() ? 30 : 4);
    for (size_t k = 0; k < ss.size(); k++) {
      const int n = ss[k], mode = (int)g.below(4); args a, b, c;
      for (int q = 0; q < 7; q++) { const char t = q < 6 ? r.ty : r.to; for (size_t o = 0; o + w <= AREA; o += w) if (o < 300 * w || o + 300 * w > AREA) { put(g, A[q].base + o, r.bits, t, mode); if (q == 1 && t != 'f' && !strcmp(r.op, "div")) { uint64_t one = 3; memcpy(A[q].base + o, &one, w); } } place(g, a, q, r.bits, n, q < 6); }
      a.mode[5] = (int)g.below((uint64_t)r.bits);
      mirror(a, b, B); mirror(a, c, C);
      std::string key = std::string(ext_name()) + "/" + r.name; mon::ctx("%s n=%d", key.c_str(), n);
      r.run(n, &a); r.ref(n, &b); r.pk(n, &c); mon::eval(mon::hash_str(r.name) * 31 + (uint64_t)k);
      for (int q = 0; q < 7; q++) for (size_t o = 0; o + w <= AREA; o += w) {
        const char *x = A[q].base + o, *y = B[q].base + o, *v = C[q].base + o; if (!memcmp(x, y, w) || !memcmp(x, v, w)) continue;
        if (q == 6 && r.to == 'f' && (same(x, y, r.bits, true) || nan2(x, y, r.bits))) continue;
        const long e = ((long)o - ((char *)a.p[q] - A[q].base)) / (long)w; uint64_t xx = 0, yy = 0; memcpy(&xx, x, w); memcpy(&yy, y, w);
        mon::viol(key, "n=%d (register length %d): element %ld of array %d is 0x%llx, the scalar operator gives 0x%llx (data mode %d)", n, len, e, q, (unsigned long long)xx, (unsigned long long)yy, mode); goto next2; }
      next2:;
    }
    mon::count("single operator assignments"); if (done++ % 60 == 0) mon::sample("%s: %d sizes", r.name, (int)ss.size());
  }
  mon::flush_report("ok");
}

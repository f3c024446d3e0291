// Arrays of more than 2^31 elements: the counts and indices of the loops over arrays are 64-bit numbers everywhere, or
// elements are skipped, read or written somewhere else. The middle of every array is one window of memory mapped many
// times, so that it costs no memory; the first and the last window of an array are its own.
//   mode=tet   array expressions, plain and masked      mode=spmd  a kernel      mode=mem  fills and copies
#include "mon.hpp"
#include <sys/mman.h>
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/spmd.hpp>
#include <nsimd/modules/tet1d.hpp>
#include <nsimd/modules/memory_management.hpp>
static const size_t W = (size_t)1 << 24, NW = ((size_t)1 << 31) / W + 1, EXTRA = 67, N = ((size_t)1 << 31) + EXTRA;
// NW windows: the first, the ones after 2^31 elements: own memory; between them: one window again and again
struct Big {
  unsigned char *p; int fd;
  Big() {
    fd = memfd_create("huge", 0); if (fd < 0 || ftruncate(fd, (off_t)(4 * W))) { perror("memfd"); exit(3); }
    p = (unsigned char *)mmap(0, NW * W + 2 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    p += 4096;
    for (size_t w = 0; w < NW; w++) {
      size_t f = w == 0 ? 0 : w < NW - 2 ? 1 : w == NW - 2 ? 2 : 3;
      if (mmap(p + w * W, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, (off_t)(f * W)) == MAP_FAILED) { perror("mmap"); exit(3); }
    }
  }
  // byte of window class f at offset o
  static size_t at(size_t f, size_t o) { return (f == 0 ? 0 : f == 1 ? 1 : f == 2 ? NW - 2 : NW - 1) * W + o; }
};
static size_t sh(size_t o) { return o * 31 + (o >> 8) * 7; }
static unsigned char va(size_t o) { return (unsigned char)sh(o); }
static unsigned char vb(size_t o) { return (unsigned char)(sh(o) >> 3); }
template <class F> static void fill(Big &b, F f) { for (size_t k = 0; k < 4; k++) { unsigned char *q = b.p + Big::at(k, 0); for (size_t o = 0; o < W; o++) q[o] = f(o); } }
// every window holds want up to N, and the old contents after it
template <class F, class G> static void judge(const char *what, Big &b, F want, G old) {
  static const char *nm[] = {"first", "middle", "last full", "part"};
  for (size_t k = 0; k < 4; k++) { const unsigned char *q = b.p + Big::at(k, 0); size_t bad = 0, at = 0;
    for (size_t o = 0; o < W; o++) { unsigned char e = k < 3 || o < EXTRA ? want(o) : old(o); if (q[o] != e && !bad++) at = o; }
    mon::bulk(1);
    if (bad) mon::viol(std::string(what) + "/" + nm[k], "array of 2^31 + %zu elements: %zu bytes of the %s window are wrong, the first at offset %zu", EXTRA, bad, nm[k], at);
  }
  mon::count("elements in arrays beyond 2^31", (long)N); mon::sample("%s: 2^31 + %zu elements", what, EXTRA);
}
static unsigned char poison(size_t) { return 0xC3; }
spmd_kernel_1d(k_huge, i8 *a, i8 *b, i8 *c)
  k_int x = k_unmasked_load(a); k_int y = k_unmasked_load(b);
  k_unmasked_store(c, (x | y) - (x & y));
spmd_kernel_end
nsimd_fill_dev_mem_func(fill_bytes, (unsigned char)(i * 31 + (i >> 8) * 7))
static size_t differ(const unsigned char *d) {
  std::vector<unsigned char> ref(W); size_t bad = 0; for (size_t o = 0; o < W; o++) ref[o] = va(o);
  for (size_t i = 0; i < N; i += W) bad += memcmp(d + i, &ref[0], N - i < W ? N - i : W) != 0;
  return bad;
}
int main(int argc, char **argv) {
  mon::init(argc, argv); std::string m = mon::arg("mode", ""); Big c;
  if (m == "tet") {
    Big a, b; fill(a, va); fill(b, vb); fill(c, poison);
    const u8 *pa = a.p, *pb = b.p; u8 *pc = c.p;
    mon::ctx("huge/assign");
    TET1D_OUT(u8) out = tet1d::out(pc); out = tet1d::in(pa, N) + tet1d::in(pb, N);
    judge("assign", c, [](size_t o) { return (unsigned char)(va(o) + vb(o)); }, poison);
    mon::ctx("huge/masked"); fill(c, poison);
    out(tet1d::in(pa, N) < tet1d::in(pb, N)) = tet1d::in(pa, N) - tet1d::in(pb, N);
    judge("masked", c, [](size_t o) { return va(o) < vb(o) ? (unsigned char)(va(o) - vb(o)) : (unsigned char)0xC3; }, poison);
    mon::ctx("huge/slice"); fill(c, poison);
    // elements 2^31 - 1 - 1000 ... of a, counted from its end, to the start of c
    nsimd_nat i0 = (nsimd_nat)N - 1000; out = tet1d::in(pa, N)(i0, -1) + tet1d::in(pb, N)(-1000, (nsimd_nat)N - 1);
    for (size_t i = 0; i < 1000; i++) { size_t o = (N - 1000 + i) % W; mon::bulk(1); if (c.p[i] != (unsigned char)(va(o) + vb(o))) { mon::viol("slice", "slice that starts after 2^31 - 1000 elements: element %zu is wrong", i); break; } }
  } else if (m == "spmd") {
    Big a, b; fill(a, va); fill(b, vb); fill(c, poison);
    mon::ctx("huge/kernel"); spmd_launch_kernel_1d(k_huge, 8, 1, (nsimd_nat)N, (i8 *)a.p, (i8 *)b.p, (i8 *)c.p);
    judge("kernel", c, [](size_t o) { signed char x = (signed char)va(o), y = (signed char)vb(o); return (unsigned char)((x | y) - (x & y)); }, poison);
  } else {
    Big a; fill(a, va); fill(c, poison);
    mon::ctx("huge/to_device"); unsigned char *d = nsimd::device_malloc<unsigned char>(N); if (!d) { fprintf(stderr, "no memory\n"); return 3; }
    d[N - 1] = d[0] = 0; nsimd::copy_to_device(d, a.p, N);
    size_t bad = differ(d);
    mon::bulk(1); if (bad) mon::viol("to_device", "%zu windows of 2^31 + %zu elements are wrong after a copy to the device", bad, EXTRA);
    mon::ctx("huge/to_host"); nsimd::copy_to_host(c.p, d, N); judge("to_host", c, va, poison);
    mon::ctx("huge/fill"); fill_bytes(d, N); bad = differ(d);
    mon::bulk(1); if (bad) mon::viol("fill", "%zu windows of 2^31 + %zu elements are wrong after a fill", bad, EXTRA);
    nsimd::device_free(d);
  }
  mon::flush_report("ok");
  return 0;
}

// Runs the generated SPMD kernels (lib/gen_spmd.py) for every size around the register length on arrays that end at
// an inaccessible page, and compares all arrays with those of the scalar program.
#include "gen.hpp"
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/time.h>
struct args { void *p[7]; long long s, t; };
struct Row { const char *name; int bits, unroll; void (*run)(nsimd_nat, struct args *); void (*ref)(nsimd_nat, struct args *); };
#include VF_TABLE
static const size_t AREA = 1 << 16;
struct Area { char *base, *end; Area() { base = (char *)mmap(0, AREA + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == (char *)MAP_FAILED) abort(); end = base + AREA; mprotect(end, 4096, PROT_NONE); } };
static Area A[7], B[7];
static sigjmp_buf jb; static volatile int jumping;
static void onsig(int s) { if (jumping) { jumping = 0; siglongjmp(jb, s); } mon::vf_crash_handler(s); }
static void fill(mon::Rng &g, char *p, int bits, int ty, size_t n, int mode) {
  for (size_t i = 0; i < n; i++) {
    char *q = p + i * (size_t)bits / 8; int64_t v = mode == 0 ? (int64_t)g.below(12) - 3 : mode == 1 ? (int64_t)g.below(4) : mode == 2 ? (int64_t)g.next() : (int64_t)(g.below(2) ? 5 : 0);
    if (ty == 2 && bits > 8) { v = v % 50; if (bits == 16) { uint16_t h = o_d2h((double)v); memcpy(q, &h, 2); } else if (bits == 32) { float f = (float)v; memcpy(q, &f, 4); } else { double d = (double)v; memcpy(q, &d, 8); } }
    else memcpy(q, &v, (size_t)bits / 8);
  }
}
int main(int argc, char **argv) {
  mon::init(argc, argv);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGALRM, &sa, 0); sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
  const int ty[7] = {0, 0, 0, 1, 1, 2, 2}; const char *nm[7] = {"a", "b", "x", "c", "y", "d", "z"};
  const int reps = mon::thorough() ? 40 : 8; int done = 0;
  for (const Row &r : TABLE) {
#ifdef VF_GPU
    const int len = r.unroll, least = 1; // threads per block; a grid of no block is not a launch
#else
    const int len = (r.bits == 8 ? vlen_<i8>() : r.bits == 16 ? vlen_<i16>() : r.bits == 32 ? vlen_<i32>() : vlen_<i64>()) * r.unroll, least = 0;
#endif
    mon::Rng g(mon::seed() * 7919 + mon::hash_str(r.name)); long diverged = 0;
    std::vector<int> sizes; for (int k = 0; k <= 3; k++) for (int d = -1; d <= 1; d++) if (k * len + d >= least) sizes.push_back(k * len + d);
    for (int k = 0; k < reps; k++) sizes.push_back(least + (int)g.below((uint64_t)(4 * len + 7)));
    bool hung = false;
    for (size_t k = 0; k < sizes.size() && !hung; k++) {
      const int n = sizes[k], mode = (int)g.below(4); const size_t by = (size_t)n * (size_t)r.bits / 8; args a, b; a.s = b.s = (long long)g.below(20) - 5; a.t = b.t = (long long)g.below(20);
      for (int q = 0; q < 7; q++) {
        memset(A[q].base, 0xC7, AREA); if (by > AREA) abort(); fill(g, A[q].end - by, r.bits, ty[q], (size_t)n, mode); memcpy(B[q].base, A[q].base, AREA);
        a.p[q] = A[q].end - by; b.p[q] = B[q].end - by;
      }
      std::string key = std::string(ext_name()) + "/" + r.name + "/unroll" + std::to_string(r.unroll); mon::ctx("%s", key.c_str());
      int s; struct itimerval tv = {{0, 0}, {4, 0}}, off = {{0, 0}, {0, 0}};
      if ((s = sigsetjmp(jb, 1)) == 0) { jumping = 1; setitimer(ITIMER_REAL, &tv, 0); r.run(n, &a); jumping = 0; setitimer(ITIMER_REAL, &off, 0); }
      else { setitimer(ITIMER_REAL, &off, 0); mon::viol(key, s == SIGALRM ? "kernel does not terminate for n=%d (the scalar program does)" : "kernel accesses memory outside its %d elements", n); hung = true; break; }
      r.ref(n, &b); mon::eval(mon::hash_str(r.name) * 31 + (uint64_t)k * 1000 + (uint64_t)r.unroll);
      for (int q = 0; q < 7; q++) if (memcmp(A[q].base, B[q].base, AREA)) {
        size_t i = 0; while (A[q].base[i] == B[q].base[i]) i++; long e = ((long)i - (long)(AREA - by)) / (r.bits / 8); uint64_t x = 0, y = 0; if (e >= 0) { memcpy(&x, (char *)a.p[q] + e * r.bits / 8, (size_t)r.bits / 8); memcpy(&y, (char *)b.p[q] + e * r.bits / 8, (size_t)r.bits / 8); }
        mon::viol(key, "n=%d (register length %d): element %ld of %s is 0x%llx, the scalar program gives 0x%llx (data mode %d)", n, len, e, nm[q], (unsigned long long)x, (unsigned long long)y, mode); }
      diverged += n >= len;
    }
    mon::count("kernel runs with at least one full register", diverged); mon::count("kernels"); if (done++ % 9 == 0) mon::sample("%s bits=%d unroll=%d: %d sizes, element 0 of x", r.name, r.bits, r.unroll, (int)sizes.size());
  }
  mon::flush_report("ok");
}

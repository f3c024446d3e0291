// A scratch region between two inaccessible pages, with byte canaries, and
// recovery from faults so that one bad access does not end the run.
#ifndef VF_ARENA_HPP
#define VF_ARENA_HPP
#include "mon.hpp"
#include <setjmp.h>
#include <sys/mman.h>

namespace arena {
static sigjmp_buf jb;
static volatile sig_atomic_t armed = 0;
static void *fault_addr = 0;
extern "C" inline void vf_arena_segv(int sig, siginfo_t *si, void *) {
  if (armed) { armed = 0; fault_addr = si->si_addr; siglongjmp(jb, sig); }
  mon::vf_crash_handler(sig);
}
inline void init() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = vf_arena_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
}
// run f; true when it did not fault
template <class F> bool quiet(F f) {
  int s = sigsetjmp(jb, 1);
  if (s) return false;
  armed = 1; f(); armed = 0; return true;
}
struct Arena {
  unsigned char *base, *lo, *hi; size_t page, pages;
  std::vector<unsigned char> shadow;
  explicit Arena(size_t npages = 2) : page(4096), pages(npages) {
    base = (unsigned char *)mmap(0, (npages + 2) * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(3); }
    mprotect(base, page, PROT_NONE); mprotect(base + (npages + 1) * page, page, PROT_NONE);
    lo = base + page; hi = lo + npages * page; shadow.resize(npages * page);
  }
  ~Arena() { munmap(base, (pages + 2) * page); }
  void paint(mon::Rng &g) { for (size_t i = 0; i + 8 <= shadow.size(); i += 8) { uint64_t r = g.next(); memcpy(&shadow[i], &r, 8); } memcpy(lo, &shadow[0], shadow.size()); }
  void expect(const void *p, const void *src, size_t n) { memcpy(&shadow[(unsigned char *)p - lo], src, n); }
  // first byte that differs from the shadow, or -1
  long diff() const { if (!memcmp(lo, &shadow[0], shadow.size())) return -1; for (size_t i = 0; i < shadow.size(); i++) if (lo[i] != shadow[i]) return (long)i; return -1; }
  void resync() { memcpy(&shadow[0], lo, shadow.size()); }
};
} // namespace arena
#endif

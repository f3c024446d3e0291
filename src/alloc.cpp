// Interposes the C allocator below the library (ld --wrap), injects failures, keeps the set of live blocks and
// collects the verdicts of alloc_std.cpp.
#include "alloc.h"
#include "mon.hpp"
#include <atomic>
#include <errno.h>
#include <mutex>
#include <thread>
#include <unordered_map>
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); void *__real_memalign(size_t, size_t);
}
static std::mutex mx; static std::unordered_map<void *, size_t> &tab() { static auto *t = new std::unordered_map<void *, size_t>; return *t; }
static int arm_ = 0; static bool failed_ = false; static std::atomic<long> nalloc, nfree, nfail;
static bool failing() { std::lock_guard<std::mutex> l(mx); if (arm_ && --arm_ == 0) { failed_ = true; nfail++; return true; } return false; }
static void *add(void *p, size_t n) { if (p) { std::lock_guard<std::mutex> l(mx); nalloc++; if (tab().count(p)) mon::viol("interposer/duplicate", "the C allocator handed out a live block"); tab()[p] = n; } return p; }
extern "C" {
void *__wrap_malloc(size_t n) { if (failing()) { errno = ENOMEM; return 0; } return add(__real_malloc(n), n); }
void *__wrap_calloc(size_t n, size_t m) { if (failing()) { errno = ENOMEM; return 0; } return add(__real_calloc(n, m), n * m); }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (failing()) { errno = ENOMEM; return 0; } return add(__real_aligned_alloc(a, n), n); }
void *__wrap_memalign(size_t a, size_t n) { if (failing()) { errno = ENOMEM; return 0; } return add(__real_memalign(a, n), n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (failing()) { *p = (void *)(uintptr_t)0xdead0000; return ENOMEM; } void *q = 0; int r = __real_posix_memalign(&q, a, n); if (r) { *p = (void *)(uintptr_t)0xdead0000; return r; } *p = add(q, n); return 0; }
void *__wrap_realloc(void *o, size_t n) { if (failing()) { errno = ENOMEM; return 0; } { std::lock_guard<std::mutex> l(mx); if (o) { tab().erase(o); nfree++; } } return add(__real_realloc(o, n), n); }
void __wrap_free(void *p) {
  if (!p) return;
  { std::lock_guard<std::mutex> l(mx); if (!tab().erase(p)) { mon::viol("free/unknown-block", "a pointer that is not a live block was passed to free (%s)", mon::st().ctx); return; } nfree++; }
  __real_free(p);
}
void vf_viol(const char *k, const char *d) { std::lock_guard<std::mutex> l(mx); mon::viol(k, "%s", d); }
void vf_eval(uint64_t h) { mon::eval(h); }
void vf_ctx(const char *c) { mon::ctx("%s", c); }
long vf_live(void) { std::lock_guard<std::mutex> l(mx); return (long)tab().size(); }
void vf_fail_in(int n) { std::lock_guard<std::mutex> l(mx); arm_ = n; if (n) failed_ = false; }
int vf_failed(void) { std::lock_guard<std::mutex> l(mx); bool f = failed_; failed_ = false; return f; }
}
int main(int argc, char **argv) {
  mon::init(argc, argv); const int sc = mon::thorough() ? 40 : 3;
  if (mon::arg("mode", "seq") == "threads") {
    std::vector<std::thread> t; for (int i = 0; i < 8; i++) t.emplace_back([=] { vf_alloc_thread(mon::seed() * 100 + (uint64_t)i, 6000 * sc); });
    for (auto &x : t) x.join();
    mon::bulk((uint64_t)nalloc);
  } else vf_alloc_run(mon::seed(), sc);
  if (vf_live()) mon::viol("leak/end", "%ld blocks were never given back", vf_live());
  mon::count("C allocations observed", nalloc); mon::count("C frees observed", nfree); mon::count("failures injected", nfail);
  mon::sample("%s: %ld allocations, %ld frees, %ld injected failures, %ld live at the end", mon::arg("mode", "seq").c_str(), (long)nalloc, (long)nfree, (long)nfail, vf_live());
  mon::flush_report("ok");
}

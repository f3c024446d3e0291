// Histories of the memory management module against a byte model, with the C allocator interposed (ld --wrap) and,
// when built for the stand-in GPU runtime, a device memory the host cannot touch.
#include "mon.hpp"
#include <nsimd/nsimd.h>
#include <nsimd/modules/memory_management.hpp>
#include <errno.h>
#include <new>
#include <sys/wait.h>
#include <unordered_map>
#ifdef NSIMD_ROCM
#include "hipstub.h"
#define DEV "hip"
#else
#define DEV "cpu"
static void vf_hip_fail_in(int) {}
static int vf_hip_failed() { return 0; }
static long vf_hip_live() { return 0; }
#endif
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *); }
static std::unordered_map<void *, size_t> *tab_; static bool tracking = false; static int arm_ = 0; static bool failed_ = false; static long nalloc = 0, nfree = 0, nfail = 0;
static bool failing() { if (tracking && arm_ && --arm_ == 0) { failed_ = true; nfail++; errno = ENOMEM; return true; } return false; }
struct Track { Track() { tracking = true; } ~Track() { tracking = false; } };
static void *add(void *p, size_t n) { if (p && tracking) { tracking = false; (*tab_)[p] = n; nalloc++; tracking = true; } return p; }
extern "C" {
void *__wrap_malloc(size_t n) { return failing() ? 0 : add(__real_malloc(n), n); }
void *__wrap_calloc(size_t n, size_t m) { return failing() ? 0 : add(__real_calloc(n, m), n * m); }
void __wrap_free(void *p) {
  if (p && tracking) { tracking = false; bool known = tab_->erase(p); nfree++; if (!known) mon::viol(DEV "/free/unknown-block", "free of a pointer that is not a live block (%s)", mon::st().ctx); tracking = true; if (!known) return; }
  __real_free(p);
}
}
static long live() { return (long)tab_->size(); }
static mon::Rng *G;
nsimd_fill_dev_mem_func(fill_lin, (i * 1103515245 + 12345) / 65536 % 120)
nsimd_fill_dev_mem_func(fill_neg, i % 100)
nsimd_fill_dev_mem_func(fill_one, 1)
template <class T> static const char *tn();
#define TN(T) template <> const char *tn<T>() { return #T; }
TN(i8) TN(u8) TN(i16) TN(u16) TN(i32) TN(u32) TN(i64) TN(u64) TN(f16) TN(f32) TN(f64)
template <class T> static void bad(const char *op, const char *fmt, unsigned long long a = 0, unsigned long long b = 0) { char d[300]; snprintf(d, sizeof d, fmt, a, b); mon::viol(std::string(DEV) + "/" + op + "/" + tn<T>(), "%s (%s)", d, mon::st().ctx); }
template <class T> static T conv(size_t v) { return nsimd::to<T>(v); }
typedef std::vector<unsigned char> Bytes;
static Bytes noise(size_t n) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(G->next() >> 11); return b; }
// what the device holds, read without the module
static Bytes dev(const void *p, size_t n) {
  Bytes b(n ? n : 1);
#ifdef NSIMD_ROCM
  if (n) hipMemcpy(&b[0], p, n, hipMemcpyDeviceToHost);
#else
  if (n) memcpy(&b[0], p, n);
#endif
  b.resize(n); return b;
}
static void put_dev(void *p, const Bytes &b) {
#ifdef NSIMD_ROCM
  if (b.size()) hipMemcpy(p, &b[0], b.size(), hipMemcpyHostToDevice);
#else
  if (b.size()) memcpy(p, &b[0], b.size());
#endif
}
static bool same(const void *p, const Bytes &b) { return b.empty() || !memcmp(p, &b[0], b.size()); }
template <class T> static size_t some() { switch (G->below(6)) { case 0: return G->below(4); case 1: return 1 + G->below(20); case 2: return 126 + G->below(6); case 3: return 255 + G->below(4); case 4: return 1 + G->below(2000); default: return 1 + G->below(300); } }
template <class T> static long block_size(T *p) {
#ifdef NSIMD_ROCM
  return vf_hip_size((void *)p);
#else
  return tab_->count((void *)p) ? (long)(*tab_)[(void *)p] : -1;
#endif
}
template <class T> struct One { T *p; size_t n; Bytes m; };
template <class T> struct Pair { nsimd::paired_pointers_t<T> p; size_t n; Bytes d, h; };

template <class T> static void history(int steps) {
  std::vector<One<T> > ones; std::vector<Pair<T> > pairs; const size_t S = sizeof(T); const bool one_buffer = !strcmp(DEV, "cpu");
  for (int s = 0; s < steps; s++) {
    int op = (int)G->below(12); mon::ctx("%s step %d op %d", tn<T>(), s, op); mon::eval((uint64_t)s * 64 + (uint64_t)op + mon::hash_str(tn<T>()));
    if (op < 2 && ones.size() < 12) { // allocate on the device
      One<T> o; o.n = some<T>(); { Track t; o.p = op ? nsimd::device_calloc<T>(o.n) : nsimd::device_malloc<T>(o.n); }
      if (!o.p) { if (o.n) bad<T>("refused", "allocation of %llu elements failed without cause", o.n); else { } continue; }
      if (block_size(o.p) < (long)(o.n * S)) { bad<T>(op ? "device_calloc" : "device_malloc", "asked for %llu elements, the block has %llu bytes", o.n, (unsigned long long)block_size(o.p)); Track t; nsimd::device_free(o.p); continue; }
      if (op) { o.m.assign(o.n * S, 0); if (dev(o.p, o.n * S) != o.m) bad<T>("device_calloc", "block of %llu elements is not all zero", o.n); }
      else { o.m = noise(o.n * S); put_dev(o.p, o.m); }
      ones.push_back(o);
    } else if (op == 2 && !ones.empty()) { size_t k = G->below(ones.size()); if (dev(ones[k].p, ones[k].m.size()) != ones[k].m) bad<T>("contents", "a device block of %llu elements changed", ones[k].n); { Track t; nsimd::device_free(ones[k].p); } ones[k] = ones.back(); ones.pop_back(); }
    else if (op == 3 && !ones.empty()) { // host -> device, part of a block
      One<T> &o = ones[G->below(ones.size())]; if (!o.n) continue; size_t a = G->below(o.n), n = G->below(o.n - a + 1); Bytes src = noise(n * S); if (src.empty()) src.resize(1); Bytes keep = src;
      nsimd::copy_to_device(o.p + a, (T *)&src[0], n); if (n) memcpy(&o.m[a * S], &keep[0], n * S);
      if (src != keep) bad<T>("copy_to_device", "the source of a copy of %llu elements changed", n);
      if (dev(o.p, o.n * S) != o.m) { bad<T>("copy_to_device", "copy of %llu elements to element %llu: the block differs from what it must hold", n, a); put_dev(o.p, o.m); }
    } else if (op == 4 && !ones.empty()) { // device -> host
      One<T> &o = ones[G->below(ones.size())]; if (!o.n) continue; size_t a = G->below(o.n), n = G->below(o.n - a + 1); Bytes dst = noise(n * S + 64), want = dst; if (n) memcpy(&want[32], &o.m[a * S], n * S);
      nsimd::copy_to_host((T *)&dst[32], o.p + a, n); if (dst != want) bad<T>("copy_to_host", "copy of %llu elements from element %llu: the destination or its neighbourhood differs", n, a);
      if (dev(o.p, o.n * S) != o.m) { bad<T>("copy_to_host", "the source of a copy of %llu elements changed", n); put_dev(o.p, o.m); }
    } else if (op == 5 && !ones.empty()) { // fill from an index expression
      One<T> &o = ones[G->below(ones.size())]; if (!o.n) continue; size_t a = G->below(o.n), n = 1 + G->below(o.n - a); int which = (int)G->below(3);
      if (which == 0) fill_lin(o.p + a, n); else if (which == 1) fill_neg(o.p + a, n); else fill_one(o.p + a, n);
      for (size_t i = 0; i < n; i++) { T v = which == 0 ? conv<T>((i * 1103515245 + 12345) / 65536 % 120) : which == 1 ? conv<T>(i % 100) : conv<T>(1); memcpy(&o.m[(a + i) * S], &v, S); }
      if (dev(o.p, o.n * S) != o.m) { bad<T>("fill", "filling %llu elements from element %llu: the block differs from what it must hold", n, a); put_dev(o.p, o.m); }
    } else if ((op == 6 || op == 7) && pairs.size() < 12) {
      Pair<T> q; q.n = some<T>(); { Track t; q.p = op == 6 ? nsimd::pair_malloc<T>(q.n) : G->below(2) ? nsimd::pair_calloc<T>(q.n) : nsimd::pair_calloc_or_exit<T>(q.n ? q.n : q.n = 1); }
      if (!q.p.device_ptr || !q.p.host_ptr) { if (q.n) bad<T>("refused", "pair of %llu elements failed without cause", q.n); continue; }
      if (q.p.sz != q.n) bad<T>("pair", "pair of %llu elements records %llu", q.n, q.p.sz);
      long hs = tab_->count((void *)q.p.host_ptr) ? (long)(*tab_)[(void *)q.p.host_ptr] : -1;
      if (block_size(q.p.device_ptr) < (long)(q.n * S) || hs < (long)(q.n * S)) { bad<T>("pair", "asked for %llu elements, the host block has %llu bytes", q.n, (unsigned long long)hs); Track t; nsimd::pair_free(q.p); continue; }
      if (op == 7) { q.h.assign(q.n * S, 0); q.d = q.h; if (dev(q.p.device_ptr, q.n * S) != q.d || !same(q.p.host_ptr, q.h)) bad<T>("pair_calloc", "pair of %llu elements is not all zero", q.n); }
      else { q.h = noise(q.n * S); q.d = one_buffer ? q.h : noise(q.n * S); if (q.n) memcpy((void *)q.p.host_ptr, &q.h[0], q.h.size()); put_dev(q.p.device_ptr, q.d); }
      pairs.push_back(q);
    } else if (op >= 8 && !pairs.empty()) {
      size_t k = G->below(pairs.size()); Pair<T> &q = pairs[k];
      if (op == 8) { q.h = noise(q.n * S); if (q.n) memcpy((void *)q.p.host_ptr, &q.h[0], q.h.size()); if (one_buffer) q.d = q.h; }
      else if (op == 9) { nsimd::copy_to_device(q.p); q.d = q.h; }
      else if (op == 10) { if (q.n && G->below(2)) { fill_lin(q.p.device_ptr, q.n); for (size_t i = 0; i < q.n; i++) { T v = conv<T>((i * 1103515245 + 12345) / 65536 % 120); memcpy(&q.d[i * S], &v, S); } if (one_buffer) q.h = q.d; } nsimd::copy_to_host(q.p); q.h = q.d; }
      if (dev(q.p.device_ptr, q.n * S) != q.d) bad<T>("pair", "after operation %llu the device side of a pair of %llu elements differs from what it must hold", (unsigned)op, q.n);
      if (!same(q.p.host_ptr, q.h)) bad<T>("pair", "after operation %llu the host side of a pair of %llu elements differs from what it must hold", (unsigned)op, q.n);
      if (op == 11 && G->below(2)) { long b = live(), d = vf_hip_live(); { Track t; nsimd::pair_free(q.p); } if (live() != b - 1 || (!one_buffer && vf_hip_live() != d - 1)) bad<T>("pair_free", "freeing a pair released %llu host and %llu device blocks", (unsigned long long)(b - live()), (unsigned long long)(d - vf_hip_live())); pairs[k] = pairs.back(); pairs.pop_back(); }
    }
    if (s % 500 == 7) { char d[200]; snprintf(d, sizeof d, "%s %s step %d: operation %d, %zu single blocks and %zu pairs live", DEV, tn<T>(), s, op, ones.size(), pairs.size()); mon::sample(d); }
    // failures
    if (s % 7 == 0) {
      size_t n = 1 + some<T>(); long b = live(), d = vf_hip_live(); int which = (int)G->below(4), site = (int)G->below(3); bool ok = false, null = false; const char *nm = "";
      vf_hip_fail_in(0); arm_ = 0; failed_ = false;
      if (site == 0) arm_ = 1; else vf_hip_fail_in(site);
      { Track t; T *p = 0; nsimd::paired_pointers_t<T> q; q.device_ptr = q.host_ptr = 0;
        if (which == 0) { nm = "device_malloc"; p = nsimd::device_malloc<T>(n); null = !p; if (p) nsimd::device_free(p); }
        else if (which == 1) { nm = "device_calloc"; p = nsimd::device_calloc<T>(n); null = !p; if (p) nsimd::device_free(p); }
        else { nm = which == 2 ? "pair_malloc" : "pair_calloc"; q = which == 2 ? nsimd::pair_malloc<T>(n) : nsimd::pair_calloc<T>(n); null = !q.device_ptr && !q.host_ptr; ok = q.device_ptr && q.host_ptr; if (ok) nsimd::pair_free(q); else if (!null) { bad<T>(nm, "a failed pair has one null and one non-null pointer"); } } }
      bool f = vf_hip_failed() || failed_; arm_ = 0; vf_hip_fail_in(0); if (f) mon::count("failures observed");
      if (f && !null) bad<T>(nm, "an allocation failed underneath but %llu elements were reported allocated", n);
      if (live() != b || vf_hip_live() != d) bad<T>(nm, "%llu host and %llu device blocks remain after a failed allocation", (unsigned long long)(live() - b), (unsigned long long)(vf_hip_live() - d));
      mon::eval((uint64_t)s * 131 + (uint64_t)which * 8 + (uint64_t)site);
    }
  }
  for (size_t k = 0; k < ones.size(); k++) { if (dev(ones[k].p, ones[k].m.size()) != ones[k].m) bad<T>("contents", "a device block of %llu elements changed", ones[k].n); Track t; nsimd::device_free(ones[k].p); }
  for (size_t k = 0; k < pairs.size(); k++) { Track t; nsimd::pair_free(pairs[k].p); }
  if (live() || vf_hip_live()) bad<T>("leak", "%llu host and %llu device blocks were never given back", (unsigned long long)live(), (unsigned long long)vf_hip_live());
  // element counts that cannot be provided
  const size_t top = (size_t)-1, h[] = {top, top / 2 + 1, top / S, top / S + 1, top / S + 2, top / S + 64, top / 4 * 3, (top / S + 1) * 2 + 8, ((size_t)1 << 62) + 3};
  for (size_t k = 0; k < sizeof h / sizeof *h; k++) for (int w = 0; w < 4 && h[k] >= ((size_t)1 << 58); w++) {
    mon::ctx("%s huge count %zu which %d", tn<T>(), h[k], w); mon::eval(h[k] + (uint64_t)w + mon::hash_str(tn<T>()));
    long b = live(), d = vf_hip_live(); Track t; T *p = 0; nsimd::paired_pointers_t<T> q;
    static const char *nm[] = {"device_malloc", "device_calloc", "pair_malloc", "pair_calloc"};
    if (w == 0) p = nsimd::device_malloc<T>(h[k]); else if (w == 1) p = nsimd::device_calloc<T>(h[k]); else { q = w == 2 ? nsimd::pair_malloc<T>(h[k]) : nsimd::pair_calloc<T>(h[k]); p = q.device_ptr ? q.device_ptr : q.host_ptr; }
    tracking = false;
    if (p) { bad<T>(nm[w], "an allocation of %llu elements was reported as successful", h[k]); tracking = true; if (w < 2) nsimd::device_free(p); else nsimd::pair_free(q); tracking = false; }
    else if (live() != b || vf_hip_live() != d) bad<T>(nm[w], "a refused allocation of %llu elements left a block behind", h[k]);
  }
}
template <class T> static void exits() { // pair_*_or_exit ends the program with a message
  for (int w = 0; w < 2; w++) {
    int fd[2]; if (pipe(fd)) continue; fflush(0); pid_t c = fork();
    if (c == 0) { dup2(fd[1], 2); close(1); arm_ = 1; vf_hip_fail_in(1); tracking = true; nsimd::paired_pointers_t<T> q = w ? nsimd::pair_calloc_or_exit<T>(1000) : nsimd::pair_malloc_or_exit<T>(1000); (void)q; _exit(77); }
    close(fd[1]); char buf[400]; ssize_t n, tot = 0; while ((n = read(fd[0], buf, sizeof buf)) > 0) tot += n; close(fd[0]); int st = 0; waitpid(c, &st, 0);
    mon::eval(mon::hash_str(tn<T>()) + 77 + (uint64_t)w);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != EXIT_FAILURE || !tot) bad<T>("or_exit", "with a failing allocator the program ended with status %llu after %llu bytes of message", (unsigned long long)st, (unsigned long long)tot);
  }
}
int main(int argc, char **argv) {
  tab_ = new std::unordered_map<void *, size_t>; mon::init(argc, argv); mon::Rng g(mon::st().seed * 1009 + mon::hash_str(DEV)); G = &g;
  const int N = mon::st().thorough ? 60000 : 2500;
#define H(T) history<T>(N); exits<T>();
  H(i8) H(u8) H(i16) H(u16) H(i32) H(u32) H(i64) H(u64) H(f16) H(f32) H(f64)
  mon::count("C allocations observed", nalloc); mon::count("C frees observed", nfree); mon::count("C failures injected", nfail);
#ifdef NSIMD_ROCM
  mon::count("kernel launches", (long)vf_hip_launches()); mon::count("kernel threads", (long)vf_hip_threads());
#endif
  mon::flush_report("ok"); return 0;
}

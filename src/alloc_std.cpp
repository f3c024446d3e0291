// Allocation histories, written in C++98 so that every language standard (and so both allocator classes of
// nsimd.h) can be run. The interposed C allocator and the verdicts live in alloc.cpp.
#include <nsimd/nsimd.h>
#include <deque>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <vector>
#include "alloc.h"
static uint64_t rs;
static uint64_t rnd() { rs += 0x9E3779B97F4A7C15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t below(uint64_t n) { return rnd() % n; }
static size_t some_size() {
  switch (below(6)) { case 0: return below(9); case 1: return 64 * below(20) + below(3) - (below(2) ? 1 : 0) + 1; case 2: return below(300); case 3: return below(5000); case 4: return below(70000); default: return (size_t)1 << below(18); }
}
static bool is_aligned(const void *p) { return ((uintptr_t)p & (NSIMD_MAX_ALIGNMENT - 1)) == 0; }
static const char *sname() { return NSIMD_CXX >= 2020 ? "c++20" : NSIMD_CXX >= 2017 ? "c++17" : NSIMD_CXX >= 2014 ? "c++14" : NSIMD_CXX >= 2011 ? "c++11" : "c++98"; }
static void bad(const char *what, const char *t, const char *fmt, unsigned long long a, unsigned long long b) { char k[200], d[300]; snprintf(k, sizeof k, "%s/%s/%s", what, t, sname()); snprintf(d, sizeof d, fmt, a, b); vf_viol(k, d); }
struct Blk { unsigned char *p; size_t n; unsigned char tag; int kind; };
static unsigned char pat(unsigned char tag, size_t i) { return (unsigned char)(tag * 31 + i * 7 + (i >> 8)); }

// raw functions: random histories with every byte of every live block stamped
static void *get_block(int kind, size_t n) {
  switch (kind) { case 0: return nsimd_aligned_alloc((nsimd_nat)n); case 1: return nsimd::aligned_alloc((nsimd_nat)n); case 2: return nsimd::aligned_alloc_for<i8>((nsimd_nat)n); case 3: return nsimd::aligned_alloc_for<f64>((nsimd_nat)(n / 8)); case 4: return nsimd::aligned_alloc_for<u16>((nsimd_nat)(n / 2)); default: return nsimd::aligned_alloc_for<f32>((nsimd_nat)(n / 4)); }
}
static size_t real_size(int kind, size_t n) { return kind == 3 ? n / 8 * 8 : kind == 4 ? n / 2 * 2 : kind == 5 ? n / 4 * 4 : n; }
static void put_block(int kind, void *p) {
  switch (kind) { case 0: nsimd_aligned_free(p); break; case 1: nsimd::aligned_free(p); break; case 2: nsimd::aligned_free_for<i8>(p); break; case 3: nsimd::aligned_free_for<f64>(p); break; case 4: nsimd::aligned_free_for<u16>(p); break; default: nsimd::aligned_free_for<f32>(p); }
}
static void raw_history(int steps, bool faults) {
  std::vector<Blk> live;
  for (int s = 0; s < steps; s++) {
    if (live.size() < 2 || (live.size() < 60 && below(5) < 3)) {
      Blk b; b.kind = (int)below(6); b.n = real_size(b.kind, some_size()); b.tag = (unsigned char)rnd();
      size_t ask = b.n; bool fail = faults && below(4) == 0; if (fail) vf_fail_in(1);
      long before = vf_live(); b.p = (unsigned char *)get_block(b.kind, ask); if (fail) vf_fail_in(0);
      vf_eval(rnd());
      if (fail && vf_failed()) { if (b.p) bad("null-on-failure", "raw", "the C allocator failed for %llu bytes (kind %llu) but a pointer came back", b.n, (unsigned)b.kind); if (vf_live() != before) bad("leak", "raw", "a failed allocation of %llu bytes left %llu blocks behind", b.n, (unsigned long long)(vf_live() - before)); continue; }
      if (!b.p) { if (b.n) bad("refused", "raw", "allocation of %llu bytes failed without cause (kind %llu)", b.n, (unsigned)b.kind); continue; }
      if (!is_aligned(b.p)) bad("alignment", "raw", "block of %llu bytes at address ending in 0x%llx", b.n, (uintptr_t)b.p & 4095);
      for (size_t k = 0; k < live.size(); k++) if (b.p < live[k].p + (live[k].n ? live[k].n : 1) && live[k].p < b.p + (b.n ? b.n : 1)) bad("overlap", "raw", "block of %llu bytes overlaps a live block of %llu bytes", b.n, live[k].n);
      for (size_t i = 0; i < b.n; i++) b.p[i] = pat(b.tag, i);
      live.push_back(b);
    } else {
      size_t k = below(live.size()); Blk b = live[k]; size_t i = 0; while (i < b.n && b.p[i] == pat(b.tag, i)) i++;
      vf_eval(rnd());
      if (i < b.n) bad("contents", "raw", "byte %llu of a live block of %llu bytes changed", i, b.n);
      long before = vf_live(); put_block(b.kind, b.p); if (vf_live() != before - 1) bad("free", "raw", "freeing one block of %llu bytes released %llu", b.n, (unsigned long long)(before - vf_live()));
      live[k] = live.back(); live.pop_back();
    }
  }
  for (size_t k = 0; k < live.size(); k++) put_block(live[k].kind, live[k].p);
  put_block(0, 0); put_block(1, 0); put_block(3, 0);
}
template <class T> static void huge(const char *tn) {
  // element counts whose byte size cannot be provided, among them those that wrap to something small
  const uint64_t two63 = (uint64_t)1 << 63, all = ~(uint64_t)0, per = all / sizeof(T);
  uint64_t ns[] = {per, per + 1, per + 2, per + 9, per - 1, two63 / sizeof(T), two63 / sizeof(T) + 1, two63 / sizeof(T) + 64, two63 / sizeof(T) - 1, two63 - 1, two63 - 64, two63, two63 + 1, all, all - 1, (uint64_t)1 << 62, ((uint64_t)1 << 62) + 8, ((uint64_t)1 << 61) + 1, ((uint64_t)1 << 61) + 512, ((uint64_t)1 << 60) + 3, (uint64_t)1 << 55};
  for (size_t i = 0; i < sizeof ns / sizeof *ns; i++) {
    uint64_t n = ns[i]; unsigned __int128 need = (unsigned __int128)n * sizeof(T); if (need < ((unsigned __int128)1 << 47)) continue;
    vf_eval(n * 31 + sizeof(T)); vf_ctx("huge counts");
    long before = vf_live();
    if (n < two63) { T *p = nsimd::aligned_alloc_for<T>((nsimd_nat)n); if (p) { bad("overflow", tn, "aligned_alloc_for of 0x%llx elements returned a block", n, 0); nsimd::aligned_free_for<T>(p); } }
    { bool thrown = false; T *p = 0; nsimd::allocator<T> a; try { p = a.allocate((size_t)n); } catch (const std::bad_alloc &) { thrown = true; } if (!thrown) { bad("allocator-throws", tn, p ? "allocate(0x%llx) returned a block" : "allocate(0x%llx) returned a null pointer instead of throwing", n, 0); if (p) a.deallocate(p, 0); } }
    if (vf_live() != before) bad("leak", tn, "a refused request of 0x%llx elements changed the number of live blocks by %llu", n, (unsigned long long)(vf_live() - before));
  }
  const nsimd_nat neg[] = {-1, -2, -64, -4096, (nsimd_nat)two63};
  for (int i = 0; i < 5; i++) { vf_eval((uint64_t)i); void *p = nsimd_aligned_alloc(neg[i]); if (p) { bad("overflow", "raw", "nsimd_aligned_alloc of 0x%llx bytes returned a block", (unsigned long long)neg[i], 0); nsimd_aligned_free(p); } }
}
template <class T> static T val(uint64_t x) { return nsimd::to<T>((f32)(x % 100)); }
template <class V, class W> static bool same(const V &v, const W &w) { if (v.size() != w.size()) return false; typename V::const_iterator a = v.begin(); typename W::const_iterator b = w.begin(); for (; b != w.end(); ++a, ++b) if (memcmp(&*a, &*b, sizeof(*a))) return false; return true; }
// differential: std::vector with nsimd::allocator against std::vector, with allocation failures
template <class T> static void vectors(const char *tn, int steps) {
  typedef std::vector<T, nsimd::allocator<T> > V; typedef std::vector<T> W;
  long before = vf_live(); vf_ctx("vector"); vf_failed();
  { V v, v2; W w, w2;
    for (int s = 0; s < steps; s++) {
      int op = (int)below(16); T x = val<T>(rnd()); bool fail = below(5) == 0, thrown = false; size_t at = w.empty() ? 0 : (size_t)below(w.size() + 1), n = (size_t)below(40); W w0 = w, w20 = w2; V *bef = &v; (void)bef;
      if (fail) vf_fail_in(1 + (int)below(2));
      try {
        switch (op) {
        case 0: case 1: case 2: v.push_back(x); break;
        case 3: v.insert(v.begin() + (long)at, x); break;
        case 4: v.insert(v.begin() + (long)at, n, x); break;
        case 5: v.resize(n, x); break;
        case 6: v.reserve(n * 4); break;
        case 7: if (!w.empty() && at < w.size()) v.erase(v.begin() + (long)at); break;
        case 8: v.clear(); break;
        case 9: v.assign(n, x); break;
        case 10: v2 = v; break;
        case 11: v.swap(v2); break;
        case 12: { V t(v); v2.swap(t); } break;
        case 13: V(v).swap(v); break;
        case 14: { W src(n, x); v.insert(v.end(), src.begin(), src.end()); } break;
        default: { V t(n, x); t.insert(t.begin(), v.begin(), v.end()); v.swap(t); } break;
        }
      } catch (const std::bad_alloc &) { thrown = true; }
      vf_fail_in(0); vf_eval(rnd());
      if (thrown && !vf_failed()) bad("spurious-throw", tn, "operation %llu threw although memory was available", (unsigned)op, 0);
      if (!thrown && vf_failed()) bad("swallowed-failure", tn, "an allocation failed inside operation %llu and nobody was told", (unsigned)op, 0);
      if (!thrown) switch (op) {
        case 0: case 1: case 2: w.push_back(x); break;
        case 3: w.insert(w.begin() + (long)at, x); break;
        case 4: w.insert(w.begin() + (long)at, n, x); break;
        case 5: w.resize(n, x); break;
        case 7: if (!w.empty() && at < w.size()) w.erase(w.begin() + (long)at); break;
        case 8: w.clear(); break;
        case 9: w.assign(n, x); break;
        case 10: w2 = w; break;
        case 11: w.swap(w2); break;
        case 12: w2 = w; break;
        case 14: w.insert(w.end(), n, x); break;
        case 15: { W t(w); t.insert(t.end(), n, x); w.swap(t); } break;
        default: break;
      }
      if (!same(v, w)) bad("container", tn, thrown ? "contents changed by a failed operation %llu (size %llu)" : "contents differ from std::vector after operation %llu (size %llu)", (unsigned)op, w.size());
      if (!same(v2, w2)) bad("container", tn, "second vector differs after operation %llu (size %llu)", (unsigned)op, w2.size());
      if (!v.empty() && !is_aligned(&v[0])) bad("alignment", tn, "vector storage of %llu elements at an address ending in 0x%llx", v.size(), (uintptr_t)&v[0] & 4095);
      for (size_t i = 0; i < v.size(); i++) { if (memcmp(&v[i], &w[i], sizeof(T))) break; }
      if (w.size() > 4000) { V().swap(v); w.clear(); }
    }
  }
  if (vf_live() != before) bad("leak", tn, "containers left %llu blocks behind", (unsigned long long)(vf_live() - before), 0);
}
template <class T> static void others(const char *tn) {
  long before = vf_live(); vf_ctx("allocator interface");
  { nsimd::allocator<T> a, b(a); const nsimd::allocator<T> c; (void)c;
    for (int i = 0; i < 20; i++) { size_t n = (size_t)below(200) + 1; T *p = a.allocate(n); vf_eval(rnd()); if (!is_aligned(p)) bad("alignment", tn, "allocate(%llu) at an address ending in 0x%llx", n, (uintptr_t)p & 4095); for (size_t k = 0; k < n; k++) p[k] = val<T>(k); for (size_t k = 0; k < n; k++) { T x = val<T>(k); if (memcmp(&p[k], &x, sizeof x)) bad("contents", tn, "element %llu of %llu", k, n); } b.deallocate(p, n); }
    if (!(a == b) || a != b) bad("equality", tn, "allocators must compare equal", 0, 0);
    for (int i = 0; i < 4; i++) { vf_fail_in(1); bool t = false; T *p = 0; try { p = a.allocate((size_t)below(100) + 1); } catch (const std::bad_alloc &) { t = true; } vf_fail_in(0); vf_eval(rnd()); if (!t) { bad("allocator-throws", tn, p ? "a pointer came back from a failed allocation" : "allocate returned a null pointer instead of throwing", 0, 0); } }
  }
  { for (int i = 0; i < 12; i++) { int n = 1 + (int)below(500); nsimd::scoped_aligned_mem_for<T> m(n); const nsimd::scoped_aligned_mem_for<T> &cm = m; vf_eval(rnd());
      if (!is_aligned(m.get()) || cm.get() != m.get()) bad("scoped", tn, "get() of %llu elements at an address ending in 0x%llx", (unsigned)n, (uintptr_t)m.get() & 4095);
      for (int k = 0; k < n; k++) m.get()[k] = val<T>((uint64_t)k); for (int k = 0; k < n; k++) { T x = val<T>((uint64_t)k); if (memcmp(&cm.get()[k], &x, sizeof x)) bad("scoped", tn, "element %llu of %llu", (unsigned)k, (unsigned)n); } }
    vf_fail_in(1); bool t = false; try { nsimd::scoped_aligned_mem_for<T> m(64u); } catch (const std::bad_alloc &) { t = true; } vf_fail_in(0); vf_eval(rnd()); if (!t && vf_failed()) bad("scoped", tn, "construction succeeded without memory", 0, 0); }
#if NSIMD_CXX < 2020
  { std::deque<T, nsimd::allocator<T> > d; std::deque<T> e; std::list<T, nsimd::allocator<T> > l; std::list<T> m;
    for (int i = 0; i < 300; i++) { T x = val<T>(rnd()); switch (below(5)) { case 0: d.push_back(x); e.push_back(x); break; case 1: d.push_front(x); e.push_front(x); break; case 2: if (!e.empty()) { d.pop_back(); e.pop_back(); } break; case 3: l.push_back(x); m.push_back(x); break; default: if (m.size() > 3) { l.pop_front(); m.pop_front(); } else { l.push_front(x); m.push_front(x); } } vf_eval(rnd());
      if (!same(d, e)) bad("container", tn, "deque differs at step %llu", (unsigned)i, 0); if (!same(l, m)) bad("container", tn, "list differs at step %llu", (unsigned)i, 0); }
    std::list<T, nsimd::allocator<T> > l2(l); std::list<T> m2(m); l.splice(l.begin(), l2); m.splice(m.begin(), m2); l.reverse(); m.reverse(); l2.swap(l); m2.swap(m); if (!same(l2, m2)) bad("container", tn, "list differs after splice/reverse/swap", 0, 0); }
#endif
  if (vf_live() != before) bad("leak", tn, "allocator interface left %llu blocks behind", (unsigned long long)(vf_live() - before), 0);
}
extern "C" void vf_alloc_run(uint64_t seed, int scale) {
  rs = seed; vf_ctx("raw history"); raw_history(1500 * scale, false); raw_history(600 * scale, true);
#define T(t) vf_ctx(#t); huge<t>(#t); vectors<t>(#t, 400 * scale); others<t>(#t);
  T(i8) T(u8) T(i16) T(u16) T(i32) T(u32) T(i64) T(u64) T(f16) T(f32) T(f64)
#undef T
}
extern "C" void vf_alloc_thread(uint64_t seed, int steps) {
  // own generator: this one runs concurrently
  uint64_t s = seed; std::vector<Blk> live;
  for (int k = 0; k < steps; k++) {
    s = s * 6364136223846793005ull + 1442695040888963407ull; uint64_t r = s >> 20;
    if (live.size() < 4 || (live.size() < 40 && r % 2)) { Blk b; b.kind = (int)(r % 3); b.n = (r >> 8) % 3000; b.tag = (unsigned char)(r >> 30); b.p = (unsigned char *)get_block(b.kind, b.n); if (!b.p) { if (b.n) bad("refused", "threads", "%llu bytes", b.n, 0); continue; } if (!is_aligned(b.p)) bad("alignment", "threads", "%llu bytes", b.n, 0); for (size_t i = 0; i < b.n; i++) b.p[i] = pat(b.tag, i); live.push_back(b); }
    else { size_t q = (size_t)(r >> 4) % live.size(); Blk b = live[q]; for (size_t i = 0; i < b.n; i++) if (b.p[i] != pat(b.tag, i)) { bad("contents", "threads", "byte %llu of a block of %llu bytes changed under another thread", i, b.n); break; } put_block(b.kind, b.p); live[q] = live.back(); live.pop_back(); }
  }
  for (size_t k = 0; k < live.size(); k++) put_block(live[k].kind, live[k].p);
}

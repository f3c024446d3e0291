// Calls every operator (one generated function each, lib/gen_pure.py) under hostile conditions and watches what must
// not depend on them or change with them:
//   mode=env      floating point environments, dirty registers, other calls in between; control words, operands, results
//   mode=threads  the same operands in eight threads at once, in different orders, against the results of one thread
//   mode=disjoint threads that store to interleaved elements of the same memory
//   mode=ub       every operand set of every row, in a build whose sanitizers watch what the call executes
#include "rows.hpp"
#ifdef VF_UB
#include "ubhook.hpp"
#endif
#include <pthread.h>
#include <memory>
#ifdef __x86_64__
struct Env { uint32_t mx; uint16_t cw; };
static Env getenv_() { Env e; __asm__ volatile("stmxcsr %0" : "=m"(e.mx)); __asm__ volatile("fnstcw %0" : "=m"(e.cw)); return e; }
static void setenv_(Env e) { __asm__ volatile("ldmxcsr %0" ::"m"(e.mx)); __asm__ volatile("fldcw %0" ::"m"(e.cw)); }
static unsigned tags_() { struct { uint16_t a[14]; } s; __asm__ volatile("fnstenv %0\n\tfldenv %0" : "+m"(s)); return s.a[4]; }
#else
struct Env { uint32_t mx; uint16_t cw; }; static Env getenv_() { Env e = {0, 0}; return e; } static void setenv_(Env) {} static unsigned tags_() { return 0xffff; }
#endif
static unsigned char junk[2048] __attribute__((aligned(64)));
// fills every vector and mask register
static void __attribute__((noinline)) poison() {
#if defined(__AVX512F__)
#define Z(n) "vmovdqu64 " #n "*64(%0), %%zmm" #n "\n\t"
  __asm__ volatile(Z(0) Z(1) Z(2) Z(3) Z(4) Z(5) Z(6) Z(7) Z(8) Z(9) Z(10) Z(11) Z(12) Z(13) Z(14) Z(15) Z(16) Z(17) Z(18) Z(19) Z(20) Z(21) Z(22) Z(23) Z(24) Z(25) Z(26) Z(27) Z(28) Z(29) Z(30) Z(31)
    "kmovw 2(%0), %%k1\n\tkmovw 4(%0), %%k2\n\tkmovw 6(%0), %%k3\n\tkmovw 8(%0), %%k4\n\tkmovw 10(%0), %%k5\n\tkmovw 12(%0), %%k6\n\tkmovw 14(%0), %%k7" ::"r"(junk) : "memory");
#elif defined(__AVX__)
#define Z(n) "vmovdqu " #n "*32(%0), %%ymm" #n "\n\t"
  __asm__ volatile(Z(0) Z(1) Z(2) Z(3) Z(4) Z(5) Z(6) Z(7) Z(8) Z(9) Z(10) Z(11) Z(12) Z(13) Z(14) Z(15) ::"r"(junk) : "memory");
#elif defined(__x86_64__)
#define Z(n) "movdqu " #n "*16(%0), %%xmm" #n "\n\t"
  __asm__ volatile(Z(0) Z(1) Z(2) Z(3) Z(4) Z(5) Z(6) Z(7) Z(8) Z(9) Z(10) Z(11) Z(12) Z(13) Z(14) Z(15) ::"r"(junk) : "memory");
#endif
}
static const size_t NROW = sizeof TABLE / sizeof *TABLE;
struct Bufs {
  std::vector<char> v[8]; char *in[4], *in0, *m0, *mem, *out;
  Bufs() { for (int i = 0; i < 4; i++) { v[i].resize(2 * OB + 256); in[i] = alig(v[i]); } v[4].resize(MB + 256); m0 = alig(v[4]); v[5].resize(MB + 256); mem = alig(v[5]); v[6].resize(OB + 256); out = alig(v[6]); }
};
// a row, its operands of one round and what it returned when called alone
struct Case {
  Case(const Case &) = delete;
  const Row *r; Info q; io x; char *in[4]; std::vector<char> inb[4], m0, mb, ob, mref, oref; int pr;
  Case(const Row &row, int k, Bufs &b, uint64_t salt) : r(&row), q(row), pr(0) {
    mon::Rng g(mon::seed() * 1000003 + mon::hash_str(row.key) + salt + (uint64_t)k * 77); q.prepare(g, k, b.in, b.m0, x);
    for (int i = 0; i < 4; i++) { inb[i].assign(OB + 128, 0); in[i] = alig(inb[i]); memcpy(in[i], b.in[i], OB - 128); x.in[i] = in[i]; }
    if (q.mind) m0.assign(b.m0, b.m0 + q.mbytes);
  }
  void go(char *mem, char *out, int *pp) const { if (q.mind) memcpy(mem, &m0[0], (size_t)q.mbytes); memset(out, 0xA5, OB); *pp = 0x5A5A5A5A; io y = x; y.mem = mem + q.off; y.out = out; y.pout = pp; r->fn[0].f(&y); }
  void reference(Bufs &b) { go(b.mem, b.out, &pr); oref.assign(b.out, b.out + OB); if (q.mind) mref.assign(b.mem, b.mem + q.mbytes); }
  uint64_t digest(const char *mem, const char *out, int p) const { uint64_t h = 1469598103934665603ull ^ (uint64_t)(unsigned)p; const uint64_t *o = (const uint64_t *)out; for (int i = 0; i < OB / 8; i++) h = (h ^ o[i]) * 1099511628211ull; for (int i = 0; q.mind && i < q.mbytes; i++) h = (h ^ (unsigned char)mem[i]) * 1099511628211ull; return h; }
  const char *same(const char *mem, const char *out, int p) const { if (memcmp(out, &oref[0], OB)) return "result"; if (q.mind && memcmp(mem, &mref[0], (size_t)q.mbytes)) return "memory"; return p != pr ? "returned integer" : 0; }
};
typedef std::vector<std::shared_ptr<Case> > Cases;
static int env() {
  Bufs b; mon::Rng g(mon::seed() * 31337); const int R = mon::thorough() ? 24 : 4; const Env home = getenv_();
  const Env envs[] = {{0x1f80, 0x37f}, {0x3f80, 0x77f}, {0x5f80, 0xb7f}, {0x7f80, 0xf7f}, {0x9f80, 0x27f}, {0x1fc0, 0x07f}, {0x9fc0, 0x37f}, {0xffc0, 0xe7f}};
  for (size_t i = 0; i < sizeof junk; i++) junk[i] = (unsigned char)g.next();
  std::vector<size_t> ord(NROW); for (size_t i = 0; i < NROW; i++) ord[i] = i; for (size_t i = NROW - 1; i > 0; i--) std::swap(ord[i], ord[g.below(i + 1)]);
  Cases ring; // earlier calls, to be repeated in between
  for (size_t n = 0; n < NROW; n++) for (int k = 0; k < (Info(TABLE[ord[n]]).sig.size() == 1 ? 1 : R); k++) {
    std::shared_ptr<Case> c_(new Case(TABLE[ord[n]], k, b, 0)); Case &c = *c_; int p; mon::ctx("%s", c.r->key); setenv_(envs[0]); c.reference(b);
    std::vector<char> keep[4]; for (int i = 0; i < 4; i++) keep[i].assign(c.in[i], c.in[i] + OB - 128);
    for (int e = 0; e < (int)(sizeof envs / sizeof *envs); e++) {
      for (size_t i = 0; i < 64; i++) junk[g.below(sizeof junk)] = (unsigned char)g.next();
      if (e == 0 && !ring.empty()) { Case &o = *ring[g.below(ring.size())]; o.go(b.mem, b.out, &p); if (const char *w = o.same(b.mem, b.out, p)) mon::viol(std::string(o.r->key) + "/history", "%s changes when %s was called in between", w, c.r->key); }
      if (c.q.mind) memcpy(b.mem, &c.m0[0], (size_t)c.q.mbytes);
      memset(b.out, 0xA5, OB); p = 0x5A5A5A5A; io y = c.x; y.mem = b.mem + c.q.off; y.out = b.out; y.pout = &p;
      setenv_(envs[e]); poison(); c.r->fn[0].f(&y); const Env a = getenv_(); const unsigned t = tags_(); setenv_(envs[0]); __asm__ volatile("fninit");
      mon::eval(mon::hash_str(c.r->key) * 31 + (uint64_t)(k * 16 + e));
      if ((a.mx ^ envs[e].mx) & 0xffc0) mon::viol(std::string(c.r->key) + "/mxcsr", "called with MXCSR control bits 0x%x, returns with 0x%x", envs[e].mx & 0xffc0, a.mx & 0xffc0);
      if (a.cw != envs[e].cw) mon::viol(std::string(c.r->key) + "/x87-control", "called with x87 control word 0x%x, returns with 0x%x", envs[e].cw, a.cw);
      if ((t & 0xffff) != 0xffff) mon::viol(std::string(c.r->key) + "/x87-stack", "leaves the x87/MMX register stack in use (tag word 0x%x)", t & 0xffff);
      if (e == 0) if (const char *w = c.same(b.mem, b.out, p)) mon::viol(std::string(c.r->key) + "/leftovers", "%s depends on what vector registers held or on earlier calls", w);
      for (int i = 0; i < 4; i++) if (memcmp(&keep[i][0], c.in[i], OB - 128)) { mon::viol(std::string(c.r->key) + "/operand", "operand %d is modified in memory", i); memcpy(c.in[i], &keep[i][0], OB - 128); }
      if (e == 0 && n % 400 == 0 && k == 0) mon::sample("%s: MXCSR 0x%x -> 0x%x, x87 control 0x%x -> 0x%x, tag word 0x%x", c.r->key, envs[e].mx, a.mx, envs[e].cw, a.cw, t & 0xffff);
    }
    mon::count("operand sets x 8 environments"); if (ring.size() < 24) ring.push_back(c_); else ring[g.below(24)] = c_;
  }
  setenv_(home); return 0;
}
static const int NT = 8;
// the calls of a thread come before any other call of the same function in the process, for what is set up on first use
struct Job { pthread_barrier_t *bar; Cases *cs; int t; long calls; std::vector<uint64_t> got; volatile int *stop; };
static int reps() { return mon::thorough() ? 6 : 2; }
static void *worker(void *p_) {
  Job &j = *(Job *)p_; Bufs b; mon::Rng g(mon::seed() * 99 + (uint64_t)j.t); int p;
  for (;;) {
    pthread_barrier_wait(j.bar); if (*j.stop) return 0;
    Cases &cs = *j.cs; j.got.assign(cs.size() * (size_t)reps(), 0);
    for (int q = 0; q < reps(); q++) { size_t s = q == 0 ? 0 : g.below(cs.size());
      for (size_t i = 0; i < cs.size(); i++) { size_t n = (s + i) % cs.size(); const Case &c = *cs[n]; c.go(b.mem, b.out, &p); j.calls++; j.got[n * (size_t)reps() + (size_t)q] = c.digest(b.mem, b.out, p); } }
    pthread_barrier_wait(j.bar);
  }
}
static int threads() {
  Bufs b; Cases cs; volatile int stop = 0; pthread_barrier_t bar; pthread_barrier_init(&bar, 0, NT + 1); pthread_t th[NT]; std::vector<Job> J(NT);
  for (int t = 0; t < NT; t++) { J[t].bar = &bar; J[t].cs = &cs; J[t].t = t; J[t].calls = 0; J[t].stop = &stop; pthread_create(&th[t], 0, worker, &J[t]); }
  const int R = mon::thorough() ? 8 : 2; long batches = 0;
  for (size_t n = 0; n < NROW;) {
    // one operator is in several threads at once more often when batches are small
    cs.clear(); for (; n < NROW && cs.size() < 40; n++) for (int k = 0; k < R; k++) cs.push_back(std::shared_ptr<Case>(new Case(TABLE[n], k, b, 5)));
    batches++; mon::ctx("threads, %s .. %s", cs.front()->r->key, cs.back()->r->key);
    pthread_barrier_wait(&bar); pthread_barrier_wait(&bar);
    for (size_t i = 0; i < cs.size(); i++) { Case &c = *cs[i]; mon::ctx("%s", c.r->key); int p; c.go(b.mem, b.out, &p); const uint64_t w = c.digest(b.mem, b.out, p); mon::eval(mon::hash_str(c.r->key) * 17 + batches);
      for (int t = 0; t < NT; t++) for (int q = 0; q < reps(); q++) if (J[t].got[i * (size_t)reps() + (size_t)q] != w) mon::viol(std::string(c.r->key) + "/threads", "what thread %d of %d computed (repetition %d) differs from what a single thread computes", t, NT, q); }
    if (batches % 12 == 1) mon::sample("batch of %d calls %s .. %s in %d threads agrees", (int)cs.size(), cs.front()->r->key, cs.back()->r->key, NT);
  }
  stop = 1; pthread_barrier_wait(&bar);
  for (int t = 0; t < NT; t++) { pthread_join(th[t], 0); mon::count("calls by concurrent threads", J[t].calls); }
  return 0;
}
struct DJob { pthread_barrier_t *bar; const Row *r; char *mem; int t, nt, n; std::vector<std::string> bad; };
static void *storer(void *p_) {
  DJob &j = *(DJob *)p_; const Info q(*j.r); Bufs b; mon::Rng g(mon::seed() * 7 + (uint64_t)j.t * 1001 + mon::hash_str(j.r->key)); const int L = q.L, w = q.w / 8; io x;
  int d = 0; bool masked = false; for (size_t a = 1; a < q.sig.size(); a++) { d += q.sig[a] == "v"; masked = masked || q.sig[a] == "l"; } const bool logical = masked && d == 0; if (logical) d = 1; masked = masked && !logical;
  std::vector<int> own; int base = 0; const bool un = j.r->op[strlen(j.r->op) - 1] == 'u' || strstr(j.r->op, "u1") != 0;
  if (q.indexed || q.linear) for (int i = 0; i < L; i++) own.push_back(j.t + i * j.nt);
  else if (masked) { for (int i = j.t; i < L; i += j.nt) own.push_back(i + (un ? 1 : 0)); base = un ? 1 : 0; }
  else { base = j.t * L * d + (un ? 1 : 0); for (int i = 0; i < L * d; i++) own.push_back(base + i); }
  std::vector<char> tmp(256 + MB); char *priv = alig(tmp); pthread_barrier_wait(j.bar);
  for (int k = 0; k < j.n; k++) {
    if (k % 16 == 0) q.prepare(g, 2 + k % 2, b.in, b.m0, x); // new values follow for what is stored
    int slot = 0; for (size_t a = 1; a < q.sig.size(); a++) { const std::string &s = q.sig[a];
      if (s == "l" && masked) { FILL(j.r->t, g, b.in[slot], L, 4); for (int i = 0; i < L; i++) if (i % j.nt != j.t) memset(b.in[slot] + i * w, 0, (size_t)w); }
      if (s == "vi") for (int i = 0; i < L; i++) { int v = j.t + i * j.nt; if (w == 2) ((i16 *)b.in[slot])[i] = (i16)v; else if (w == 4) ((i32 *)b.in[slot])[i] = v; else ((i64 *)b.in[slot])[i] = v; }
      if (s == "v") for (int i = 0; i < L; i++) { int64_t v = (int64_t)g.below(100); char *e = b.in[slot] + i * w; if (j.r->t[0] == 'f') { if (w == 2) { uint16_t h = o_d2h((double)v); memcpy(e, &h, 2); } else if (w == 4) { float f = (float)v; memcpy(e, &f, 4); } else { double f = (double)v; memcpy(e, &f, 8); } } else memcpy(e, &v, (size_t)w); }
      if (s == "v" || s == "l" || s == "vi" || s == "s") slot++; }
    for (int i = 0; i < 4; i++) x.in[i] = b.in[i];
    if (q.linear) x.p[0] = j.nt;
    int p; x.out = b.out; x.pout = &p; const int add = q.indexed ? 0 : q.linear ? j.t : base;
    x.mem = priv + 1024 + (un ? w : 0); if (q.indexed || q.linear) x.mem = priv + 1024; j.r->fn[0].f(&x); const char *mine = (char *)x.mem;
    x.mem = j.mem + 1024 + add * w; j.r->fn[0].f(&x);
    for (size_t o = 0; o < own.size(); o++) { const int e = own[o]; const char *a = j.mem + 1024 + e * w, *c = mine + (q.indexed ? e : q.linear ? e - j.t : e - base) * w;
      if (memcmp(a, c, (size_t)w)) { char t[160]; snprintf(t, sizeof t, "thread %d of %d stored 0x%llx in element %d, which only it writes, and reads back 0x%llx (iteration %d)", j.t, j.nt, (unsigned long long)elt(c, q.w), e, (unsigned long long)elt(a, q.w), k); j.bad.push_back(t); return 0; } }
  }
  return 0;
}
static int disjoint() {
  std::vector<char> mb(MB + 256); char *mem = alig(mb); const int n = mon::thorough() ? 20000 : 2500;
  for (size_t i = 0; i < NROW; i++) {
    const Info q(TABLE[i]); bool w = false; for (auto &s : q.sig) w = w || s == "*"; if (!w) continue;
    const bool lanes = q.sig.size() > 2 && q.sig[1] == "l"; const int nt = lanes ? std::min(4, q.L) : 4; if (nt < 2) { mon::count("stores of one lane, nothing to interleave"); continue; }
    memset(mem, 0, MB); pthread_barrier_t bar; pthread_barrier_init(&bar, 0, (unsigned)nt); pthread_t th[8]; std::vector<DJob> J((size_t)nt); mon::ctx("disjoint %s", TABLE[i].key);
    for (int t = 0; t < nt; t++) { DJob &j = J[(size_t)t]; j.bar = &bar; j.r = &TABLE[i]; j.mem = mem; j.t = t; j.nt = nt; j.n = n; pthread_create(&th[t], 0, storer, &j); }
    for (int t = 0; t < nt; t++) { pthread_join(th[t], 0); for (auto &s : J[(size_t)t].bad) mon::viol(std::string(TABLE[i].key) + "/disjoint", "%s", s.c_str()); }
    pthread_barrier_destroy(&bar); mon::count("store forms with interleaved writers"); mon::count("interleaved stores", (long)n * nt); mon::eval(mon::hash_str(TABLE[i].key));
    if (i % 41 == 0) mon::sample("%s: %d threads x %d stores to elements of each other's neighbourhood", TABLE[i].key, nt, n);
  }
  return 0;
}
static int ub() {
  Bufs b; const int R = mon::thorough() ? 96 : 10;
  for (size_t n = 0; n < NROW; n++) for (int k = 0; k < (Info(TABLE[n]).sig.size() == 1 ? 1 : R); k++) {
    Case c(TABLE[n], k, b, 11); int p; mon::ctx("%s", c.r->key); c.go(b.mem, b.out, &p); mon::eval(mon::hash_str(c.r->key) * 31 + (uint64_t)k); mon::count("calls under sanitizers");
    if (n % 300 == 0 && k == 0) mon::sample("%s: no report", c.r->key);
  }
  return 0;
}
// the same under valgrind: what a call writes must be defined when its operands are
#ifdef VF_MEMCHECK
#include <valgrind/memcheck.h>
static int defined() {
  Bufs b; const int R = mon::thorough() ? 8 : 2; if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "not under valgrind\n"); return 1; }
  for (size_t n = 0; n < NROW; n++) for (int k = 0; k < (Info(TABLE[n]).sig.size() == 1 ? 1 : R); k++) {
    Case c(TABLE[n], k, b, 13); int p; mon::ctx("%s", c.r->key); if (c.q.mind) memcpy(b.mem, &c.m0[0], (size_t)c.q.mbytes);
    memset(b.out, 0xA5, OB); p = 0; io y = c.x; y.mem = b.mem + c.q.off; y.out = b.out; y.pout = &p; const unsigned before = VALGRIND_COUNT_ERRORS;
    c.r->fn[0].f(&y); const unsigned after = VALGRIND_COUNT_ERRORS; mon::eval(mon::hash_str(c.r->key) * 31 + (uint64_t)k); mon::count("calls under memcheck");
    if (after != before) mon::viol(std::string("memcheck/") + c.r->key, "the call branches on or addresses with an uninitialised value, or accesses memory it does not own (%u reports)", after - before);
    if (VALGRIND_CHECK_MEM_IS_DEFINED(b.out, OB) || (c.q.mind && VALGRIND_CHECK_MEM_IS_DEFINED(b.mem, c.q.mbytes)) || VALGRIND_CHECK_MEM_IS_DEFINED(&p, sizeof p)) mon::viol(std::string("uninit/") + c.r->key, "the result depends on uninitialised memory although all operands are initialised");
    VALGRIND_MAKE_MEM_DEFINED(b.out, OB); VALGRIND_MAKE_MEM_DEFINED(b.mem, MB); VALGRIND_MAKE_MEM_DEFINED(&p, sizeof p);
    if (n % 300 == 0 && k == 0) mon::sample("%s: result fully defined", c.r->key);
  }
  return 0;
}
#endif
int main(int argc, char **argv) {
  mon::init(argc, argv); std::string m = mon::arg("mode", "env");
#ifdef VF_MEMCHECK
  if (defined()) return 3;
  mon::flush_report("ok"); return 0;
#endif
  if (m == "env") env(); else if (m == "threads") threads(); else if (m == "ub") ub(); else disjoint();
  mon::flush_report("ok");
}

// Rows of generated functions: their operands, and comparison of what they return. Includes the table.
#ifndef VF_ROWS_HPP
#define VF_ROWS_HPP
#include "gen.hpp"
struct io { const void *in[4]; void *mem; int p[2]; void *out; int *pout; };
struct Fn { const char *surf; void (*f)(struct io *); };
struct Row { const char *key, *op, *t, *to; int (*len)(); const char *sig; Fn fn[14]; };
#include VF_TABLE
static const int OB = 4 * 64 * 8, MB = 1 << 16;
static char *alig(std::vector<char> &v) { return (char *)(((uintptr_t)&v[0] + 127) & ~(uintptr_t)127); }
static int wof(const char *t) { return atoi(t + 1); }
static bool isf(const char *t) { return t[0] == 'f'; }
template <class T> static void fillv(mon::Rng &g, T *d, int n, int mode) {
  static const std::vector<T> bd = Gen<T>::boundary();
  for (int i = 0; i < n; i++) {
    if (mode == 2) { double v = (double)(int64_t)(g.below(401)) / 4 - 50; d[i] = nsimd::to<T>(v); }
    else if (mode == 3) { double v = (double)g.below(401) / 4; d[i] = nsimd::to<T>(v); }
    else if (mode == 4) d[i] = nsimd::to<T>((float)(1 + (i % 100)));
    else d[i] = (g.below(3) == 0 && mode != 1) ? bd[g.below(bd.size())] : Gen<T>::rnd(g);
  }
}
template <class T> static void masks(mon::Rng &g, T *d, int n) {
  int m = (int)g.below(6), h = (int)g.below((uint64_t)n);
  for (int i = 0; i < n; i++) d[i] = nsimd::to<T>((float)(m == 0 ? 1 : m == 1 ? 0 : m == 2 ? i == h : m == 3 ? i != h : (int)(g.next() & 1)));
}
template <class T> static void fixdiv(mon::Rng &g, const T *a, T *b, int n) {
  for (int i = 0; i < n; i++) if (!TI<T>::flt && (iszero_(b[i]) || (TI<T>::sgn && bits(b[i]) == (typename TI<T>::U) ~(typename TI<T>::U)0 && bits(a[i]) == (typename TI<T>::U)((typename TI<T>::U)1 << (TI<T>::w - 1))))) b[i] = nsimd::to<T>((float)(1 + g.below(7)));
}
#define FILL(t, g, p, n, mode) do { std::string q_ = t; if (0) {} FI(i8,g,p,n,mode) FI(u8,g,p,n,mode) FI(i16,g,p,n,mode) FI(u16,g,p,n,mode) FI(i32,g,p,n,mode) FI(u32,g,p,n,mode) FI(i64,g,p,n,mode) FI(u64,g,p,n,mode) FI(f16,g,p,n,mode) FI(f32,g,p,n,mode) FI(f64,g,p,n,mode) } while (0)
#define FI(T, g, p, n, mode) else if (q_ == #T) { if (mode == 9) masks<T>(g, (T *)p, n); else fillv<T>(g, (T *)p, n, mode); }
#define FIXD(t, g, a, b, n) do { std::string q_ = t; if (0) {} FD(i8,g,a,b,n) FD(u8,g,a,b,n) FD(i16,g,a,b,n) FD(u16,g,a,b,n) FD(i32,g,a,b,n) FD(u32,g,a,b,n) FD(i64,g,a,b,n) FD(u64,g,a,b,n) } while (0)
#define FD(T, g, a, b, n) else if (q_ == #T) fixdiv<T>(g, (const T *)a, (T *)b, n);
static uint64_t elt(const char *p, int w) { uint64_t v = 0; memcpy(&v, p, (size_t)w / 8); return v; }
static bool nan_(uint64_t b, int w) { return w == 16 ? (b & 0x7fff) > 0x7c00 : w == 32 ? (b & 0x7fffffffu) > 0x7f800000u : (b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
// first differing element, or -1
static int differ(const char *a, const char *b, int bytes, const char *t) {
  if (!memcmp(a, b, (size_t)bytes)) return -1;
  int w = wof(t);
  for (int i = 0; i < bytes * 8 / w; i++) { uint64_t x = elt(a + i * w / 8, w), y = elt(b + i * w / 8, w); if (x != y && !(isf(t) && nan_(x, w) && nan_(y, w))) return i; }
  return -1;
}
// Everything the drivers of generated rows (lib/gen_csurf.py) need to know about a row, and operands for it.
struct Info {
  const Row &r; std::string op; std::vector<std::string> sig; bool put, scal, mind, indexed, linear; int L, w, off, mbytes; const char *ot;
  explicit Info(const Row &r_) : r(r_), op(r_.op), mind(false), indexed(false) {
    std::string s; for (const char *c = r.sig;; c++) { if (*c == ',' || !*c) { sig.push_back(s); s.clear(); if (!*c) break; } else s += *c; }
    put = op == "put"; scal = sig[0] == "S"; L = scal ? 16 : r.len ? r.len() : 0; w = wof(r.t);
    for (auto &q : sig) { if (q == "c*" || q == "*") mind = true; if (q == "vi") indexed = true; }
    linear = op.find("_linear") != std::string::npos;
    off = (indexed || linear) ? 2048 * w / 8 : 64 * 16; // bytes; a multiple of every alignment
    bool unal = false; // unaligned memory operators get a pointer aligned to the element and nothing more
    if (op.find("load") != std::string::npos || op.find("store") != std::string::npos) { char c = op[op.size() - 1]; if (c == '1' && op.size() > 1) c = op[op.size() - 2]; unal = c == 'u'; }
    if (unal) off += w / 8;
    ot = (sig[0] == "s") ? r.t : r.to; mbytes = 4096 * w / 8;
  }
  // operands of round k into in[0..3] and m0
  void prepare(mon::Rng &g, int k, char *const *in, char *m0, io &x) const {
    int vmode = put ? 5 : k % 2; if (isf(r.t) && !isf(r.to) && op.find("reinterpret") == std::string::npos && op != "to_logical") vmode = r.to[0] == 'u' ? 3 : 2;
    int slot = 0, np = 0; memset(&x, 0, sizeof x);
    if (mind) { int mm = vmode; FILL(r.t, g, m0, MB * 8 / w / (MB > 8192 ? 1 : 1) > 4096 ? 4096 : MB * 8 / w, mm); }
    for (size_t a = 1; a < sig.size(); a++) {
      const std::string &s = sig[a];
      if (s == "v") { FILL(r.t, g, in[slot], L ? L : 1, vmode); if (put && isf(r.t)) for (int i = 0; i < L; i++) if (nan_(elt(in[slot] + i * w / 8, w), w)) memset(in[slot] + i * w / 8, 0x11, (size_t)w / 8); } // the sign of a printed NaN is not specified
      else if (s == "l") { FILL(r.t, g, in[slot], L, 9); }
      else if (s == "s") { FILL(r.t, g, in[slot], 1, vmode); }
      else if (s == "vi") { std::string it = std::string("i") + (r.t + 1); bool uniq = k % 2 == 0; for (int i = 0; i < L; i++) { int v = uniq ? 2 * i - L + (int)g.below(2) : (int)g.below(33) - 16; if (w == 16) ((i16 *)in[slot])[i] = (i16)v; else if (w == 32) ((i32 *)in[slot])[i] = v; else ((i64 *)in[slot])[i] = v; } }
      else if (s == "p") {
        int v;
        if (op == "shl" || op == "shr" || op == "shra") v = k < 2 ? (k ? w - 1 : 0) : (int)g.below((uint64_t)w);
        else if (op == "set1l") v = k & 1;
        else if (linear) v = (int)g.below(9) - 4;
        else if (op == "mask_for_loop_tail") v = np ? (int)g.below((uint64_t)(3 * L + 1)) : (int)g.below((uint64_t)(2 * L + 1));
        else v = (int)g.below(2);
        x.p[np++] = v; continue;
      } else continue;
      slot++;
    }
    if (op == "div" && slot == 2) FIXD(r.t, g, in[0], in[1], L);
    for (int i = 0; i < 4; i++) x.in[i] = in[i];
  }
};
#endif

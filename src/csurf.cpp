// Drives the generated surfaces (lib/gen_csurf.py): the same operands go through the C++ base API and through every
// C surface, and everything each of them returns or writes must agree.
#include "rows.hpp"
#ifndef VF_REF
#define VF_REF "the C++ API"
#endif
extern "C" FILE *vf_open(struct io *x, int full) {
  if (full) { FILE *f = fopen("/dev/full", "w"); if (f) setvbuf(f, 0, _IONBF, 0); return f; }
  return fmemopen(x->out, 2048, "w");
}
extern "C" void vf_close(FILE *f) { if (f) fclose(f); }
// what put() must write and return, spelled out lane by lane
extern "C" void vf_put_ref(struct io *x, const char *fmt, const char *t, int n, int mode) {
  if (mode == 2) { *x->pout = -1; return; }
  std::string o = "{ "; const int w = atoi(t + 1); const char *p = (const char *)x->in[0];
  for (int i = 0; i < n; i++) {
    char b[400]; const char *q = p + i * w / 8;
    if (t[0] == 'f') { double v; if (w == 16) { uint16_t h; memcpy(&h, q, 2); v = o_h2d(h); } else if (w == 32) { float f; memcpy(&f, q, 4); v = f; } else memcpy(&v, q, 8); snprintf(b, sizeof b, fmt ? fmt : "%e", v); }
    else if (t[0] == 'i') { long long v; if (w == 8) { int8_t k; memcpy(&k, q, 1); v = k; } else if (w == 16) { int16_t k; memcpy(&k, q, 2); v = k; } else if (w == 32) { int32_t k; memcpy(&k, q, 4); v = k; } else { int64_t k; memcpy(&k, q, 8); v = k; }
      if (!fmt) snprintf(b, sizeof b, "%lld", v); else if (w == 64) snprintf(b, sizeof b, fmt, v); else snprintf(b, sizeof b, fmt, (int)v); }
    else { unsigned long long v = 0; memcpy(&v, q, (size_t)w / 8); if (!fmt) snprintf(b, sizeof b, "%llu", v); else if (w == 64) snprintf(b, sizeof b, fmt, v); else snprintf(b, sizeof b, fmt, (unsigned)v); }
    o += b; if (i + 1 < n) o += ", ";
  }
  o += " }"; *x->pout = (int)o.size(); if (o.size() > 2048) abort(); memcpy(x->out, o.c_str(), o.size() < 2048 ? o.size() + 1 : 2048); // fmemopen writes a final nul
}
int main(int argc, char **argv) {
  mon::init(argc, argv);
  const int R = mon::thorough() ? 60 : 10;
  std::vector<char> inb[4], mb, mb0, mref, ob, oref; for (int i = 0; i < 4; i++) inb[i].resize(2 * OB + 256);
  mb.resize(MB + 256); ob.resize(OB + 256); oref.resize(OB + 256); mref.resize(MB + 256); mb0.resize(MB + 256);
  char *in[4]; for (int i = 0; i < 4; i++) in[i] = alig(inb[i]);
  char *mem = alig(mb), *m0 = alig(mb0), *mr = alig(mref), *out = alig(ob), *orf = alig(oref);
  for (const Row &r : TABLE) {
    mon::Rng g(mon::seed() * 1000003 + mon::hash_str(r.key));
    const Info q(r); const bool mind = q.mind; const int off = q.off, mbytes = q.mbytes; const char *ot = q.ot;
    int rounds = R; if (q.sig.size() == 1) rounds = 1;
    for (int k = 0; k < rounds; k++) {
      io x; q.prepare(g, k, in, m0, x); int po, pr = 0;
      for (int f = 0; r.fn[f].f; f++) {
        const bool ref = f == 0; char *o = ref ? orf : out, *m = ref ? mr : mem; int *pp = ref ? &pr : &po;
        if (mind) memcpy(m, m0, (size_t)mbytes); memset(o, 0xA5, OB); *pp = 0x5A5A5A5A;
        x.mem = m + off; x.out = o; x.pout = pp; mon::ctx("%s/%s", r.key, r.fn[f].surf);
        r.fn[f].f(&x);
        if (ref) continue;
        std::string key = std::string(r.key) + "/" + r.fn[f].surf; int d;
        mon::eval(mon::hash_str(key.c_str()) + (uint64_t)k * 7919);
        if ((d = differ(orf, o, OB, ot)) >= 0) { int ow = wof(ot); mon::viol(key, "result element %d is 0x%llx, " VF_REF " returns 0x%llx (operand elements 0x%llx 0x%llx, int args %d %d)", d, (unsigned long long)elt(o + d * ow / 8, ow), (unsigned long long)elt(orf + d * ow / 8, ow), (unsigned long long)elt(in[0] + (d % (q.L ? q.L : 1)) * q.w / 8, q.w), (unsigned long long)elt(in[1] + (d % (q.L ? q.L : 1)) * q.w / 8, q.w), x.p[0], x.p[1]); }
        if (mind && (d = differ(mr, m, mbytes, r.t)) >= 0) mon::viol(key, "memory element %d differs from what " VF_REF " writes", d - off * 8 / q.w);
        if (po != pr) mon::viol(key, "returns %d, " VF_REF " returns %d", po, pr);
      }
      if (k == 0 && g.below(97) == 0) mon::sample("%s: %d surfaces agree on round 0, first result element 0x%llx", r.key, (int)(r.fn[1].f != 0) + (int)(r.fn[2].f != 0) + (int)(r.fn[3].f != 0), (unsigned long long)elt(orf, wof(ot)));
    }
    int nf = 0; while (r.fn[nf].f) nf++; mon::count("rows"); mon::count("surface functions", nf);
  }
  mon::flush_report("ok");
}

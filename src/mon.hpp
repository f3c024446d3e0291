// Monitor runtime shared by every harness: verdict collection, evaluation
// counting, PRNG and input generators. Output protocol: one JSON object per
// line on stdout, see lib/vf.py.
#ifndef VF_MON_HPP
#define VF_MON_HPP
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>

namespace mon {

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0xABCDEF); }
  uint64_t next() {
    uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

inline uint64_t hash_str(const char *s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}

struct State {
  std::map<std::string, std::pair<long, std::string> > viol; // key -> count, first detail
  std::map<std::string, long> cnt;                            // named counters
  std::vector<std::string> samples;
  uint64_t evals;
  std::vector<uint64_t> seen; // bitmap: lower bound of distinct cases
  uint64_t distinct;
  char ctx[256];
  uint64_t seed; int thorough;
  std::map<std::string, std::string> args;
  State() : evals(0), seen(1u << 20, 0), distinct(0), seed(1), thorough(0) { ctx[0] = 0; }
};
inline State &st() { static State s; return s; }

inline void esc(std::string &o, const char *s) {
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') { o += '\\'; o += *s; }
    else if ((unsigned char)*s < 32) o += ' ';
    else o += *s;
  }
}
inline void ctx(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(st().ctx, sizeof st().ctx, fmt, ap); va_end(ap);
}
inline bool viol(const std::string &key, const char *fmt, ...) {
  std::pair<long, std::string> &p = st().viol[key];
  if (p.first++ == 0) {
    char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    p.second = b;
  }
  return false;
}
inline void count(const std::string &k, long n = 1) { st().cnt[k] += n; }
inline void sample(const char *fmt, ...) {
  if (st().samples.size() >= 12) return;
  char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  st().samples.push_back(b);
}
// register one evaluated case; h identifies it
inline void eval(uint64_t h) {
  State &s = st(); s.evals++;
  h = Rng::mix(h); uint64_t bit = h & ((1ull << 26) - 1);
  uint64_t &w = s.seen[bit >> 6]; uint64_t m = 1ull << (bit & 63);
  if (!(w & m)) { w |= m; s.distinct++; }
}
// n cases that are distinct by construction (exhaustive loops)
inline void bulk(uint64_t n) { st().evals += n; st().distinct += n; }
inline void flush_report(const char *ending) {
  State &s = st(); std::string o;
  for (auto &v : s.viol) {
    o += "{\"t\":\"viol\",\"key\":\""; esc(o, v.first.c_str());
    o += "\",\"n\":" + std::to_string(v.second.first) + ",\"detail\":\"";
    esc(o, v.second.second.c_str()); o += "\"}\n";
  }
  o += "{\"t\":\"sum\",\"end\":\""; o += ending; o += "\",\"evals\":" + std::to_string(s.evals);
  o += ",\"distinct\":" + std::to_string(s.distinct) + ",\"counters\":{";
  bool f = true;
  for (auto &c : s.cnt) { if (!f) o += ","; f = false; o += "\""; esc(o, c.first.c_str()); o += "\":" + std::to_string(c.second); }
  o += "},\"samples\":["; f = true;
  for (auto &c : s.samples) { if (!f) o += ","; f = false; o += "\""; esc(o, c.c_str()); o += "\""; }
  o += "]}\n";
  fputs(o.c_str(), stdout); fflush(stdout);
}
extern "C" inline void vf_crash_handler(int sig) {
  // async-unsafe, but the process is lost anyway: say where we were
  char key[320]; snprintf(key, sizeof key, "crash/sig%d/%s", sig, st().ctx);
  std::pair<long, std::string> &p = st().viol[key];
  p.first++; p.second = "signal raised while executing this operation";
  flush_report("crash"); _exit(0);
}
inline void init(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    char *e = strchr(argv[i], '=');
    if (e) st().args[std::string(argv[i], e - argv[i])] = e + 1;
  }
  if (st().args.count("seed")) st().seed = strtoull(st().args["seed"].c_str(), 0, 10);
  st().thorough = st().args.count("tier") && st().args["tier"] == "thorough";
  static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0;
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = vf_crash_handler; sa.sa_flags = SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
  for (int s : sigs) sigaction(s, &sa, 0);
}
inline std::string arg(const char *k, const char *d) { return st().args.count(k) ? st().args[k] : std::string(d); }
inline bool thorough() { return st().thorough != 0; }
inline uint64_t seed() { return st().seed; }
} // namespace mon
#endif

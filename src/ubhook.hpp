// Turns what UndefinedBehaviorSanitizer reports into violations keyed by the monitored call and the kind of report.
#ifndef UBHOOK_HPP
#define UBHOOK_HPP
#include "mon.hpp"
extern "C" void __ubsan_get_current_report_data(const char **kind, const char **msg, const char **file, unsigned *line, unsigned *col, char **addr);
extern "C" void __ubsan_on_report() {
  const char *k = "", *m = "", *f = ""; unsigned l = 0, c = 0; char *a = 0; __ubsan_get_current_report_data(&k, &m, &f, &l, &c, &a);
  const char *b = strrchr(f, '/'); mon::viol(std::string("ub/") + k + "/" + mon::st().ctx, "%s, %s:%u", m, b ? b + 1 : f, l);
}
#endif

#include "oracle.h"
#include <math.h>
#include <string.h>
#pragma STDC FP_CONTRACT OFF
double o_h2d(uint16_t h) {
  int s = h >> 15, e = (h >> 10) & 31, m = h & 1023;
  double v;
  if (e == 31) v = m ? NAN : INFINITY;
  else if (e == 0) v = ldexp((double)m, -24);
  else v = ldexp((double)(m + 1024), e - 25);
  return s ? -v : v;
}
uint16_t o_d2h(double d) {
  uint64_t u; memcpy(&u, &d, 8);
  uint16_t s = (uint16_t)((u >> 63) << 15);
  double a = fabs(d);
  if (a != a) return (uint16_t)(s | 0x7e00);
  if (a >= 65520.0) return (uint16_t)(s | 0x7c00);
  if (a == 0) return s;
  int e; frexp(a, &e);            /* a = f * 2^e, f in [0.5,1) */
  int q = e - 11;                 /* quantum exponent for 11-bit significand */
  if (q < -24) q = -24;
  double k = nearbyint(ldexp(a, -q));  /* exact scaling; RNE */
  /* k*2^q is the rounded value; re-encode */
  uint32_t n = (uint32_t)k;
  if (q == -24 && n < 1024) return (uint16_t)(s | n);
  int ex = q + 25;
  if (n >= 2048) { n >>= 1; ex++; }
  if (ex >= 31) return (uint16_t)(s | 0x7c00);
  return (uint16_t)(s | (ex << 10) | (n - 1024));
}
uint16_t o_f2h(float f) { return o_d2h((double)f); }
float o_f32(int op, float a, float b, float c) {
  volatile float t;
  switch (op) {
  case O_ADD: t = a + b; return t;
  case O_SUB: t = a - b; return t;
  case O_MUL: t = a * b; return t;
  case O_DIV: t = a / b; return t;
  case O_SQRT: return sqrtf(a);
  case O_CEIL: return ceilf(a);
  case O_FLOOR: return floorf(a);
  case O_TRUNC: return truncf(a);
  case O_RINT: return nearbyintf(a);
  case O_FMA: return fmaf(a, b, c);
  case O_FMA_UNFUSED: t = a * b; t = t + c; return t;
  }
  return 0;
}
double o_f64(int op, double a, double b, double c) {
  volatile double t;
  switch (op) {
  case O_ADD: t = a + b; return t;
  case O_SUB: t = a - b; return t;
  case O_MUL: t = a * b; return t;
  case O_DIV: t = a / b; return t;
  case O_SQRT: return sqrt(a);
  case O_CEIL: return ceil(a);
  case O_FLOOR: return floor(a);
  case O_TRUNC: return trunc(a);
  case O_RINT: return nearbyint(a);
  case O_FMA: return fma(a, b, c);
  case O_FMA_UNFUSED: t = a * b; t = t + c; return t;
  }
  return 0;
}

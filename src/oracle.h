// Independent reference arithmetic. Compiled in its own translation unit, with
// no nsimd header and no SIMD flags, so nothing under test can leak into it.
#ifndef VF_ORACLE_H
#define VF_ORACLE_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// binary16 <-> binary64 (exact / round-to-nearest-even), on bit patterns
double   o_h2d(uint16_t h);
uint16_t o_d2h(double d);
uint16_t o_f2h(float f);   // same as o_d2h on the exact value
// op codes for o_f32/o_f64
enum { O_ADD, O_SUB, O_MUL, O_DIV, O_SQRT, O_CEIL, O_FLOOR, O_TRUNC, O_RINT,
       O_FMA, O_FMA_UNFUSED };
float  o_f32(int op, float a, float b, float c);
double o_f64(int op, double a, double b, double c);
#ifdef __cplusplus
}
#endif
#endif

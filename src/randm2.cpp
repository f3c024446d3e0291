// A program made of two translation units that both use the random module must link.
#include <nsimd/modules/random/functions.hpp>
void randm_other_unit();
static volatile u32 sink;
void randm_other_unit() {
  nsimd::packx2<u32> c; nsimd::packx1<u32> k;
  c.v0 = nsimd::set1(nsimd::pack<u32>(), (u32)1); c.v1 = c.v0; k.v0 = c.v0;
  nsimd::packx2<u32> r = nsimd::random::philox_2x32_10(c, k);
  u32 b[64]; nsimd::storeu(b, r.v0); sink = b[0];
  nsimd::packx2<u32> kk; kk.v0 = c.v0; kk.v1 = c.v0;
  r = nsimd::random::threefry_2x32_12(c, kk); nsimd::storeu(b, r.v0); sink = b[0];
}

#ifndef VF_ALLOC_H
#define VF_ALLOC_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void vf_viol(const char *key, const char *detail);
void vf_eval(uint64_t h);
void vf_ctx(const char *);
long vf_live(void);          /* blocks obtained from the C allocator and not yet given back */
void vf_fail_in(int n);      /* the n-th C allocation from now fails; 0 disarms */
int vf_failed(void);         /* did the last armed failure happen */
void vf_alloc_run(uint64_t seed, int scale);
void vf_alloc_thread(uint64_t seed, int steps);
#ifdef __cplusplus
}
#endif
#endif

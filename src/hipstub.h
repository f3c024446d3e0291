#ifndef VF_HIPSTUB_H
#define VF_HIPSTUB_H
#ifdef __cplusplus
extern "C" {
#endif
void vf_hip_fail_in(int n);
int vf_hip_failed(void);
long vf_hip_live(void);
long vf_hip_size(void *p);
unsigned long long vf_hip_launches(void);
unsigned long long vf_hip_threads(void);
int vf_hip_is_device(const void *p);
void vf_hip_relaxed(int on); /* device memory stays reachable from the host */
#ifdef __cplusplus
}
#endif
#endif

#ifndef VF_HIP_STUB_BASE_H
#define VF_HIP_STUB_BASE_H
#include <stddef.h>
#include <string.h>
#include <assert.h>
#include <limits.h>
#define __global__
#define __device__
#define __host__
#endif

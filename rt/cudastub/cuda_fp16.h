#pragma once
// only declared so that the sources parse: half precision kernels are not run
#include "cuda_runtime.h"
struct __half { unsigned short v; __half():v(0){} explicit __half(float):v(0){ rt_cuda_barrier(); } operator float() const { rt_cuda_barrier(); return 0; } __half&operator=(float){ rt_cuda_barrier(); return *this; } };
inline float __half2float(__half h){ return (float)h; } inline __half __float2half(float f){ return __half(f); }

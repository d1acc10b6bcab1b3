// Stand-in for the CUDA language on one processor: a launch runs every thread of the grid, one after the other
// (rt_cuda_order: forwards or
// backwards), each up to the next barrier.
#pragma once
#include <algorithm>
#include <cmath>
#include <math.h>
#include <cstddef>
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __noinline__
#define __constant__ static const
#define __launch_bounds__(...)
#define __shared__ static
#define __restrict__
typedef struct CUstream_st *cudaStream_t;
struct dim3 { unsigned x,y,z; dim3(unsigned a=1,unsigned b=1,unsigned c=1):x(a),y(b),z(c){} };
struct uint3v { unsigned x,y,z; };
extern uint3v threadIdx,blockIdx; extern dim3 blockDim,gridDim; extern int rt_cuda_order;
extern "C" void rt_cuda_barrier(void); extern "C" void rt_cuda_launch(dim3 g,dim3 b,size_t shared);
inline void __syncthreads(){ rt_cuda_barrier(); }
inline void __threadfence(){} inline void __threadfence_block(){}
template<class T> inline T __ldg(const T*p){ return *p; }
inline float rsqrtf(float x){ return 1.0f/std::sqrt(x); } inline double rsqrt(double x){ return 1.0/std::sqrt(x); }
template<class T,class U> inline T atomicAdd(T*p,U v){ T o=*p; *p=o+(T)v; return o; }
template<class T,class U> inline T atomicMax(T*p,U v){ T o=*p; if((T)v>o) *p=(T)v; return o; }
// one launch: the blocks one after the other; the threads of a block one after the other up to the next barrier
typedef void (*rt_body)(void*); void rt_block(long threads,rt_body f,void*ctx);
template<class F> inline void rt_call(void*p){ (*(F*)p)(); }
template<class F> inline void rt_launch(dim3 g,dim3 b,size_t shared,cudaStream_t,F f){ rt_cuda_launch(g,b,shared); gridDim=g; blockDim=b; long nb=(long)g.x*g.y*g.z,nt=(long)b.x*b.y*b.z; for(long i=0;i<nb;i++){ long p=rt_cuda_order?nb-1-i:i; blockIdx.x=p%g.x; blockIdx.y=p/g.x%g.y; blockIdx.z=p/g.x/g.y; rt_block(nt,&rt_call<F>,&f); } }
template<class F> inline void rt_launch(dim3 g,dim3 b,F f){ rt_launch(g,b,0,nullptr,f); }
template<class F> inline void rt_launch(dim3 g,dim3 b,size_t s,F f){ rt_launch(g,b,s,nullptr,f); }

// nntile_core.cc compiled against the stand-in pybind11 headers
#pragma once
#include "h.hh"
#include <string>
#include <map>
#include <functional>
#include <nntile/constants.hh>
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
struct Rec { std::string name; std::vector<int64_t> k; std::vector<double> r; int n=0; };
static Rec*g_rec=nullptr;
template<class T> int typeId(){ return -1; } template<> inline int typeId<fp32_t>(){ return 32; } template<> inline int typeId<fp64_t>(){ return 64; } template<> inline int typeId<fp16_t>(){ return 16; } template<> inline int typeId<Index>(){ return 6; } template<> inline int typeId<bool_t>(){ return 1; }
static void rec_begin(const char*n){ if(!g_rec) nsym_fail("unexpected call of a core operation"); g_rec->name=n; g_rec->n++; }
template<class T> void rec_type(){ g_rec->k.push_back(1000+typeId<T>()); }
template<class T> void rec_arg(const tensor::Tensor<T>&t){ g_rec->k.push_back((int64_t)(uintptr_t)&t); }
inline void rec_arg(const tensor::TensorTraits&t){ g_rec->k.push_back((int64_t)(uintptr_t)&t); }
inline void rec_arg(const TransOp&t){ g_rec->k.push_back((int64_t)t.value); }
template<class T,class=std::enable_if_t<std::is_arithmetic<T>::value>> void rec_arg(T v){ if(std::is_floating_point<T>::value){ g_rec->r.push_back((double)v); g_rec->k.push_back(500+sizeof(T)); } else g_rec->k.push_back((int64_t)v); }
template<class T> void rec_arg(const std::vector<T>&v){ g_rec->k.push_back((int64_t)v.size()); for(auto&x:v) rec_arg(x); }
#include "tensorops.inc"
// calls into the runtime that the bindings make
static int g_pause=0,g_resume=0,g_init=0,g_restore=0,g_nsub=0,g_sleep=0; static uint32_t g_where=0; static int g_nwhere=0;
namespace nntile { namespace starpu { void init(){ g_init++; } void restrict_where(uint32_t w){ g_where=w; g_nwhere++; } void restore_where(){ g_restore++; } } }
static int (*g_nsubmitted)()=nullptr; static int (*g_signals)()=nullptr;
extern "C" { void starpu_pause(void){ g_pause++; } void starpu_resume(void){ g_resume++; } int starpu_task_nsubmitted(void){ g_nsub++; return g_nsubmitted?g_nsubmitted():0; } int starpu_task_nready(void){ return 0; }
int PyErr_CheckSignals(void){ return g_signals?g_signals():0; } void starpu_fxt_start_profiling(void){} void starpu_fxt_stop_profiling(void){}
int starpu_profiling_status_set(int){ return 0; } void starpu_profiling_init(void){}
int nanosleep(const struct timespec*,struct timespec*){ g_sleep++; return 0; } }

// C22: execution places. The list of operations and task types is generated from the current headers (gen/codelets.inc).
#include "nsym.h"
#include "model.h"
#include <nntile/starpu.hh>
using nntile::starpu::Codelet;
#ifndef DEEP
#define DEEP 0
#endif
#define ENTRY(n) extern "C" void e_##n()
struct CL { Codelet*c; int op; const char*name; }; struct OPS { void(*restrict_)(uint32_t); void(*restore)(); const char*name; };
#include "codelets.inc"
static const int NC=sizeof(g_cl)/sizeof(*g_cl), NO=sizeof(g_op)/sizeof(*g_op);
static int op(const char*n,int k){ int64_t v=nsym_int(n,0,k-1); for(int i=0;i<k-1;i++) if(v==i) return i; return k-1; }
static uint32_t cap[NC],exp_[NC];
static void cpuf(void**,void*){} static void cudaf(void**,void*){}
static uint32_t places(Codelet*c){ uint32_t r=0; for(int i=0;i<STARPU_MAXIMPLEMENTATIONS;i++){ if(c->cpu_funcs[i]) r|=STARPU_CPU; if(c->cuda_funcs[i]) r|=STARPU_CUDA; } return r; }
static bool same(uint32_t a,uint32_t b){ return (a|STARPU_NOWHERE)==(b|STARPU_NOWHERE); } // "nowhere" and no place mean the same
static void audit(const char*m){ bool ok=true; for(int i=0;i<NC;i++) ok=ok&same(g_cl[i].c->where,exp_[i]); if(!ok) for(int i=0;i<NC;i++) if(!same(g_cl[i].c->where,exp_[i])){ nsym_note(g_cl[i].name); nsym_fail(m); } nsym_check(ok,m); }
static void sequence(int K){ int o=(int)nsym_pick("operation",NO);
    for(int k=0;k<K;k++){ int what=op("do",4); bool all=what>=2; if(what%2==0){ uint32_t w=(uint32_t)nsym_int("where",0,UINT32_MAX); nsym_assume((w&STARPU_NOWHERE)==0); if(all) nntile::starpu::restrict_where(w); else g_op[o].restrict_(w); for(int i=0;i<NC;i++) if(all||g_cl[i].op==o) if((cap[i]&w)==w) exp_[i]=w; audit("restricting places: every task type of the operation that supports them all runs exactly there, the others as before"); }
        else { if(all) nntile::starpu::restore_where(); else g_op[o].restore(); for(int i=0;i<NC;i++) if(all||g_cl[i].op==o) exp_[i]=cap[i]; audit("restoring places brings back the initial capability"); } } }
ENTRY(init){ nntile::starpu::init(); for(int i=0;i<NC;i++){ exp_[i]=cap[i]=places(g_cl[i].c); } audit("after initialisation a task type runs exactly where it has an implementation"); int n=0; for(int i=0;i<NC;i++){ Codelet*c=g_cl[i].c; if(cap[i]){ n++; nsym_check(c->name!=nullptr&&c->model!=nullptr&&c->model->symbol!=nullptr,"an initialised task type has a name and a performance model"); } } nsym_check(n>=100,"task types with an implementation"); nsym_reach("end"); }
ENTRY(as_built){ nntile::starpu::init(); for(int i=0;i<NC;i++) exp_[i]=cap[i]=places(g_cl[i].c); sequence(DEEP?3:2); nsym_reach("end"); }
// the same with task types that have implementations for several places (as in a build with CUDA)
ENTRY(with_cuda){ nntile::starpu::init(); for(int i=0;i<NC;i++){ Codelet*c=g_cl[i].c; if(places(c)==0) { exp_[i]=cap[i]=0; continue; } if(i%5!=3){ c->init(c->starpu_codelet::name,nullptr,{cpuf},{cudaf}); cap[i]=STARPU_CPU|STARPU_CUDA; } else { cap[i]=places(c); } exp_[i]=cap[i]; } audit("after initialisation a task type runs exactly where it has an implementation"); sequence(DEEP?3:2); nsym_reach("end"); }
// one task type, any set of implementations, longer histories
static Codelet g_one;
ENTRY(task_type){ int cpu=op("cpu",3),cuda=op("cuda",3); starpu_cpu_func_t f0=cpu==1?cpuf:nullptr,f1=cpu==2?cpuf:nullptr; starpu_cuda_func_t k0=cuda==1?cudaf:nullptr,k1=cuda==2?cudaf:nullptr; if(op("list",2)) g_one.init("one",nullptr,{f0,f1},{k0,k1}); else { nsym_assume(cpu<2&&cuda<2); if(cpu&&cuda) g_one.init("one",nullptr,{cpuf},{cudaf}); else if(cpu) g_one.init("one",nullptr,{cpuf},{}); else if(cuda) g_one.init("one",nullptr,{},{cudaf}); else g_one.init("one",nullptr,{},{}); }
    uint32_t c=(cpu?STARPU_CPU:0)|(cuda?STARPU_CUDA:0),e=c; nsym_check(same(g_one.where,c),"after initialisation a task type runs exactly where it has an implementation"); int K=DEEP?6:4;
    for(int k=0;k<K;k++){ if(op("do",2)){ g_one.restore_where(); e=c; nsym_check(same(g_one.where,e),"restoring places brings back the initial capability"); } else { uint32_t w=(uint32_t)nsym_int("where",0,UINT32_MAX); nsym_assume((w&STARPU_NOWHERE)==0); g_one.restrict_where(w); if((c&w)==w) e=w; nsym_check(same(g_one.where,e),"restricting places: a task type that supports them all runs exactly there, others as before"); } } nsym_reach("end"); }

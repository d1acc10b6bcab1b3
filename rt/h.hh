// Helpers shared by the harnesses.  A harness file describes, for every operation, one scenario:
// operands with symbolic contents, the call, and the value every element must have afterwards.
// The same scenario is executed in several modes (-DMODE=...):
//   SEQ     sequential runtime, result compared with the formula          (C04..C15)
//   SCHED   every / adversarial schedules, declared accesses enforced     (C16)
//   REDUX   reductions go to private accumulators                         (C17)
//   REJECT  one operand (or axis argument) is made non-conforming         (C18)
//   FAIL    one task submission is refused by the runtime                 (C23)
#pragma once
#include "nsym.h"
#include "model.h"
#include <vector>
#include <cmath>
#include <stdexcept>
#include <nntile/base_types.hh>
#include <nntile/tensor/tensor.hh>
#include <nntile/tile/tile.hh>
using namespace nntile;
#define SEQ 0
#define SCHED 1
#define REDUX 2
#define REJECT 3
#define FAIL 4
#ifndef MODE
#define MODE SEQ
#endif
#ifndef DEEP
#define DEEP 0
#endif
typedef std::vector<Index> VI;
typedef std::vector<double> VD;
extern "C" void rt_init_all(void); // generated: init() of every codelet in the program
template<class T> inline void EQ(T a,double b,const char*m){ if(MODE==REJECT) return; /* acceptance and bounds only */ if(sizeof(T)==4) nsym_eq32((double)a,b,m); else nsym_eq((double)a,b,m); }
inline Index prod(const VI&s){ Index n=1; for(auto x:s) n*=x; return n; }
inline VI unlin(Index l,const VI&s){ VI r; for(auto x:s){ r.push_back(l%x); l/=x; } return r; }
inline Index lin(const VI&i,const VI&s){ Index l=0,m=1; for(size_t k=0;k<s.size();k++){ l+=i[k]*m; m*=s[k]; } return l; }
inline VI cat(VI a,const VI&b){ for(auto x:b) a.push_back(x); return a; }
inline VI sub(const VI&a,size_t from,size_t to){ return VI(a.begin()+from,a.begin()+to); }
inline VI without(VI a,Index k){ a.erase(a.begin()+k); return a; }
struct Cfg { VI shape,base; };
// (size, base tile) menu of one dimension
static const int MS[]={2,MODE==REJECT?4:3,1,2,3,3,4,5},MB[]={2,2,1,1,3,1,3,2}; // (4,2): a base tile of 3 gives the same number of tiles
inline void pickDim(Cfg&c,int menu,const char*nm="dim"){ int k= menu==1&&MODE!=SEQ?1:(int)nsym_pick(nm,menu); c.shape.push_back(MS[k]); c.base.push_back(MB[k]); }
inline Cfg pickCfg(int ndim,int menu){ Cfg c; for(int i=0;i<ndim;i++) pickDim(c,menu); return c; }
// number of dimensions lo..hi, each from the menu (smaller menu for more dimensions)
inline Cfg pickNd(int lo,int hi){ int n=lo+(int)nsym_pick("ndim",hi-lo+1); static const int seq[]={1,7,4,3,2},deep[]={1,8,7,5,3},oth[]={1,3,2,1,1}; return pickCfg(n,MODE==SEQ?(DEEP?deep[n]:seq[n]):(DEEP?seq[n]:oth[n])); }
inline Cfg sel(const Cfg&c,const VI&dims){ Cfg r; for(auto d:dims){ r.shape.push_back(c.shape[d]); r.base.push_back(c.base[d]); } return r; }
inline Cfg operator+(Cfg a,const Cfg&b){ a.shape=cat(a.shape,b.shape); a.base=cat(a.base,b.base); return a; }
inline Cfg dim(Index s,Index b){ Cfg c; c.shape.push_back(s); c.base.push_back(b); return c; }
inline Cfg rdim(Index s,Index b){ return MODE==REJECT&&s==3&&b==2?dim(4,2):dim(s,b); }
inline VI range(Index a,Index b){ VI r; for(Index i=a;i<b;i++) r.push_back(i); return r; }
inline VI gridOf(const VI&shape,const VI&base){ VI g; for(size_t i=0;i<shape.size();i++) g.push_back((shape[i]+base[i]-1)/base[i]); return g; }
// mapping between global elements and (tile, offset), written independently of the repository
inline void locate(Index l,const VI&shape,const VI&base,Index&tile,Index&off){ VI x=unlin(l,shape),g=gridOf(shape,base),ti,in,ts; for(size_t k=0;k<shape.size();k++){ ti.push_back(x[k]/base[k]); in.push_back(x[k]%base[k]); Index rem=shape[k]-ti[k]*base[k]; ts.push_back(rem<base[k]?rem:base[k]); } tile=lin(ti,g); off=lin(in,ts); }
// ---- REJECT mode: which operand/argument is made non-conforming
static int g_mut=0, g_mutable=1; // 0 nothing mutated yet
inline bool mutHere(){ if(MODE!=REJECT||g_mut||!g_mutable) return false; if(nsym_pick("mut",2)==1){ g_mut=1; return true; } return false; }
enum { FREE_BASE=1<<20, NOMUT=1<<21, FREE_ND=1<<22 };
inline void mutate(VI&s,VI&b,int freeDims){
    if(freeDims&NOMUT) return; if(!mutHere()) return; int nd=(int)s.size();
    VI opt; if(!(freeDims&FREE_ND)){ opt.push_back(-1); if(nd>0) opt.push_back(-2); } for(int d=0;d<nd;d++) if(!(freeDims&(1<<d))){ opt.push_back(10*d+1); opt.push_back(10*d+2); opt.push_back(10*d+3); }
    if(opt.empty()){ g_mut=0; return; }
    Index o=opt[nsym_pick("how",(int)opt.size())]; if(o==-1){ s.push_back(1); b.push_back(1); return; } if(o==-2){ s.pop_back(); b.pop_back(); return; }
    int d=(int)(o/10); if(o%10==1){ s[d]+=1; } else if(o%10==2){ if(s[d]==1) nsym_assume(false); s[d]-=1; if(b[d]>s[d]) b[d]=s[d]; } else { if((freeDims&FREE_BASE)||s[d]==1) nsym_assume(false); Index nb=1+nsym_pick("newbase",(int)s[d]-1); b[d]= nb<b[d]?nb:nb+1; } }
// integer argument with valid range [lo,hi]; made invalid in REJECT mode
inline Index arg(Index v,Index lo,Index hi){ if(mutHere()){ return nsym_pick("argmut",2)?lo-1:hi+1; } return v; }
// ---- operands. L==0: tensor, L==1: tile
template<class T,int L=0> struct TH {
    VI shape,base; tensor::Tensor<T>*t=nullptr; tile::Tile<T>*u=nullptr; VD v0;
    TH(VI s,VI b,int freeDims=0){ if(L==1) freeDims|=FREE_BASE; mutate(s,b,freeDims); init(s,b); }
    TH(const Cfg&c,int freeDims=0):TH(c.shape,c.base,freeDims){}
    void init(const VI&s,const VI&b){ shape=s; base=b; if(L==0){ starpu_mpi_tag_t tag=0; tensor::TensorTraits tr(s,b); std::vector<int> d(tr.grid.nelems,0); t=new tensor::Tensor<T>(tr,d,tag); } else { base=s; u=new tile::Tile<T>(s); } }
    ~TH(){ delete t; delete u; }
    TH(const TH&)=delete;
    auto&operator()() const { if constexpr(L==0) return *t; else return *u; }
    Index n() const { return prod(shape); }
    Index ntiles() const { return prod(gridOf(shape,base)); }
    template<class F> void each(enum starpu_data_access_mode m,F f){
        if constexpr(L==1){ auto loc=u->acquire(m); T*p=(T*)loc.get_ptr(); Index N=n(); for(Index i=0;i<N;i++) f(i,p[i]); loc.release(); }
        else { Index N=n(),K=ntiles(); VI tl(N),of(N); for(Index i=0;i<N;i++) locate(i,shape,base,tl[i],of[i]); for(Index k=0;k<K;k++){ auto tile=t->get_tile(k); auto loc=tile.acquire(m); T*p=(T*)loc.get_ptr(); for(Index i=0;i<N;i++) if(tl[i]==k) f(i,p[of[i]]); loc.release(); } } }
    template<class V> void setv(const std::vector<V>&v){ Index N=v.size(); each(STARPU_W,[&](Index i,T&x){ x=(T)v[i<N?i:0]; }); v0.clear(); for(auto&x:v) v0.push_back((double)x); }
    VD&sym(const char*name){ VD v; for(Index i=0;i<n();i++) v.push_back((double)(T)nsym_real(name)); setv(v); return v0; }
    VD&symPos(const char*name){ VD v; for(Index i=0;i<n();i++) v.push_back((double)(T)nsym_pos(name)); setv(v); return v0; }
    VD&symIn(const char*name,double lo,double hi){ VD v; for(Index i=0;i<n();i++) v.push_back((double)(T)nsym_real_in(name,lo,hi)); setv(v); return v0; }
    VD&constant(double x){ VD v(n(),x); setv(v); return v0; }
    VD get(){ VD v(n()); each(STARPU_R,[&](Index i,T&x){ v[i]=(double)x; }); return v; }
    void expect(const VD&e,const char*m){ auto v=get(); for(Index i=0;i<n();i++) EQ((T)v[i],e[i],m); }
    void redux_add(){ if constexpr(L==0) if(MODE==REDUX) t->set_reduction_add(); }
    void redux_hypot(){ if constexpr(L==0) if(MODE==REDUX) t->set_reduction_hypot(); }
    void redux_maxsumexp(){ if constexpr(L==0) if(MODE==REDUX) t->set_reduction_maxsumexp(); }
    void same(const char*m){ expect(v0,m); }
};
// boolean masks: every mask up to 4 elements, a family of patterns above that
inline VD pickMask(Index n){ VD m; if(n<=4){ for(Index i=0;i<n;i++) m.push_back((double)nsym_pick("mask",2)); return m; }
    Index k=nsym_pick("maskpat",4); for(Index i=0;i<n;i++) m.push_back(k==0?1.:k==1?(i%2?1.:0.):k==2?((i*7+1)%5<2?1.:0.):(i+1<n?1.:0.)); return m; }
template<class T> inline double S(const char*n){ return (double)(T)nsym_real(n); }
inline int redux(){ return MODE==REDUX; }
// ---- the call
static inline void mode_setup(){ rt_order=0; if(MODE==SCHED){ static const int O[]={1,2,3}; rt_order=O[nsym_pick("order",3)]; rt_pick_budget=DEEP?6:2; } if(MODE==REDUX){ rt_redux=2; rt_acc_budget=DEEP?6:3; rt_order=nsym_pick("order",2)?2:0; } rt_symerr= MODE==FAIL; rt_check_access= MODE==SCHED; rt_footprints= MODE==SCHED||MODE==SEQ; g_mut=0; }
#define INVOKE(...) do { \
    if(MODE==FAIL){ bool thr=false; rt_failed=0; rt_fail_at=1+(int)nsym_pick("fail",DEEP?9:5); try { __VA_ARGS__; } catch(std::exception&){ thr=true; } rt_fail_at=0; \
        nsym_check(rt_failed==0||thr,"a refused task submission is not reported by the operation"); nsym_check(rt_failed>0||!thr,"exception although no submission was refused"); if(thr){ rt_run_all(); return; } rt_run_all(); } \
    else if(MODE==REJECT){ bool thr=false; int before=rt_nsubmitted; try { __VA_ARGS__; } catch(std::exception&){ thr=true; } \
        if(g_mut){ nsym_check(thr,"non-conforming operands are accepted"); } else nsym_check(!thr,"conforming operands are rejected"); if(thr){ nsym_check(rt_nsubmitted==before,"tasks were submitted although the call was rejected"); rt_run_all(); return; } if(g_mut){ rt_run_all(); return; } } \
    else { __VA_ARGS__; rt_run_all(); } } while(0)
// tensor or tile entry point, blocking or asynchronous
#define OP(name,...) INVOKE( if constexpr(L==0){ if(nsym_async()) tensor::name##_async<T>(__VA_ARGS__); else tensor::name<T>(__VA_ARGS__); } else { if(nsym_async()) tile::name##_async<T>(__VA_ARGS__); else tile::name<T>(__VA_ARGS__); } )
#define TOP(name,...) INVOKE( if(nsym_async()) tensor::name##_async<T>(__VA_ARGS__); else tensor::name<T>(__VA_ARGS__); )
static int g_async=0; inline bool nsym_async(){ return g_async; }
// tensor and tile entry points with different argument lists: OP2(name,(tensor args),(tile args))
#define OP2(name,targs,uargs) INVOKE( if constexpr(L==0){ if(nsym_async()) tensor::name##_async<T> targs; else tensor::name<T> targs; } else { if(nsym_async()) tile::name##_async<T> uargs; else tile::name<T> uargs; } )
// variants: 0 float tensor, 1 double tensor, 2 float tile, 3 double tile.  Outside SEQ mode the quick tier covers one
// precision (schedules and reductions: tensors only)
inline int variant(int n){ if(MODE==SEQ||DEEP) return (int)nsym_pick("variant",n); if(n==2||MODE==SCHED||MODE==REDUX) return (int)nsym_pick("variant",1); return nsym_pick("variant",2)?3:0; }
// entry points: scenario<T,L>() for both precisions and both levels
#define SCENARIO(name) template<class T,int L> static void sc_##name(); \
    extern "C" void e_##name(){ rt_init_all(); mode_setup(); g_async=(MODE==SCHED); int k=variant(4); if(k==0) sc_##name<float,0>(); else if(k==1) { nsym_mode("wide",1); sc_##name<double,0>(); } else if(k==2) sc_##name<float,1>(); else { nsym_mode("wide",1); sc_##name<double,1>(); } rt_finish(); nsym_reach(#name); } \
    template<class T,int L> static void sc_##name()
#define TSCENARIO(name) template<class T,int L> static void sc_##name(); \
    extern "C" void e_##name(){ rt_init_all(); mode_setup(); g_async=(MODE==SCHED); if(variant(2)==0) sc_##name<float,0>(); else { nsym_mode("wide",1); sc_##name<double,0>(); } rt_finish(); nsym_reach(#name); } \
    template<class T,int L> static void sc_##name()

// C19: softmax and norm computations neither overflow nor underflow to a wrong answer. Single precision, bit by bit: every
// floating point value of the executed code is a term of the solver's theory of IEEE 754 numbers (library functions exp, log
// and hypot by range and monotonicity facts), every input is any finite number up to the magnitude that leaves room for the result.
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
typedef float T;
static const double BIG=1e37;
static Index toSlice(Index l,const VI&s,Index axis){ VI x=unlin(l,s); return lin(without(x,axis),without(s,axis)); }
static Cfg statCfg(const Cfg&c,Index axis){ Cfg r=dim(2,2); for(size_t d=0;d<c.shape.size();d++) if((Index)d!=axis) r=r+dim(c.shape[d],c.base[d]); return r; }
static Cfg sliceOf(const Cfg&c,Index axis){ Cfg r; r.shape=without(c.shape,axis); r.base=without(c.base,axis); return r; }
static T big(const char*n){ return (T)nsym_real_in(n,-BIG,BIG); }
static T normal(const char*n){ T x=(T)nsym_real_in(n,-BIG,BIG); nsym_assume(x==0||x>=1e-30f||x<=-1e-30f); return x; } // results of this size are not subnormal
static bool fin(T x){ return x-x==0; }
// a slice of 2 or 3 elements in one or two tiles; thorough: 4 elements, and between other dimensions
static Cfg sliceCfg(Index&ax,int quick=6,int deep=9){ static const int D[][7]={{0,1,1},{0,2,2},{0,2,1},{1,2,2,2,1},{0,3,3},{0,3,2,1,1},{0,4,4},{0,4,2},{1,1,1,3,2,2,2}}; int k=(int)nsym_pick("cfg",DEEP?deep:quick); Cfg c; ax=D[k][0]; for(int i=1;i<7&&D[k][i];i+=2) c=c+dim(D[k][i],D[k][i+1]); return c; }
// slice 0 symbolic (a mask may hide elements), the others fixed
typedef std::vector<T> VT;
template<class F> static VT data(const Cfg&c,Index ax,bool mask,F f){ VT v; Index N=prod(c.shape); for(Index i=0;i<N;i++){ Index g=toSlice(i,c.shape,ax); if(g==0) v.push_back(mask&&nsym_pick("masked",2)?-(T)INFINITY:f("x")); else v.push_back((T)((i%3==1?-1.:1.)*(0.5*(double)(i%4)))); } return v; }
template<class H> static VT val(H&h){ VT v(h.n()); h.each(STARPU_R,[&](Index i,T&x){ v[i]=x; }); return v; }
template<class H> static void put(H&h,const VT&v){ h.each(STARPU_W,[&](Index i,T&x){ x=v[i]; }); }
#define FSC(name) template<int L> static void sc_##name(); extern "C" void e_##name(){ rt_init_all(); mode_setup(); g_async=0; nsym_mode("float",1); if(nsym_pick("level",DEEP?2:1)==0) sc_##name<0>(); else sc_##name<1>(); rt_finish(); nsym_reach(#name); } template<int L> static void sc_##name()
// maximum and sum of exponentials of slice 0
static void statsOk(T mx,T sm,const VT&x,const Cfg&c,Index ax){ Index k=0; bool any=false; for(Index i=0;i<(Index)x.size();i++) if(toSlice(i,c.shape,ax)==0&&x[i]!=-(T)INFINITY){ k++; nsym_check(mx>=x[i],"maximum of a slice is below one of its elements"); }
    if(k){ nsym_check(fin(mx),"maximum of a slice is not finite"); nsym_check(sm>=0.99f,"sum of exponentials is lost or not a number"); nsym_check(sm<=1.01f*k,"sum of exponentials overflows or exceeds the number of elements"); } else nsym_check(mx==0&&sm==0,"statistics of a masked slice changed"); }
FSC(maxsumexp){ Index ax; Cfg c=sliceCfg(ax),sc=statCfg(c,ax); TH<T,L> a(c),b(sc); VT x=data(c,ax,true,big); put(a,x); put(b,VT(b.n(),0)); OP2(maxsumexp,(a(),b(),ax,0),(a(),b(),ax)); VT y=val(b); statsOk(y[0],y[1],x,c,ax); }
// statistics that already hold other elements
FSC(maxsumexp_more){ Cfg c=nsym_pick("cfg",2)?dim(2,2):dim(1,1),sc=dim(2,2); TH<T,L> a(c),b(sc); VT x=data(c,0,false,big),y0; y0.push_back(big("max")); y0.push_back((T)nsym_real_in("sum",1,1e6)); put(a,x); put(b,y0); OP2(maxsumexp,(a(),b(),0,0),(a(),b(),0)); VT y=val(b); for(T q:x) nsym_check(y[0]>=q,"maximum is below one of the new elements"); nsym_check(y[0]>=y0[0],"maximum is below the old one"); nsym_check(fin(y[0]),"maximum is not finite"); nsym_check(y[1]>=0.99f,"sum of exponentials is lost or not a number"); nsym_check(y[1]<=1.1e6f,"sum of exponentials overflows"); }
// softmax with the statistics of a slice
FSC(softmax){ Index ax=0; Cfg c=nsym_pick("cfg",2)?dim(2,1):dim(2,2),sc=dim(2,2); TH<T,L> st(sc),a(c),b(c); VT x=data(c,ax,true,big),y; T mx=big("max"); y.push_back(mx); y.push_back((T)nsym_real_in("sum",1,1e6)); for(T q:x) nsym_assume(q<=mx); put(a,x); put(st,y); static const T AL[]={1,-2,0.3f}; T al=AL[nsym_pick("alpha",3)]; bool in=nsym_pick("inplace",2); if(in) OP(softmax_inplace,st(),al,a(),ax); else OP(softmax,st(),a(),al,b(),ax);
    VT r; if(in) r=val(a); else r=val(b); T lim=1.01f*std::fabs(al); for(size_t i=0;i<r.size();i++){ nsym_check(r[i]>=-lim,"softmax is below -|alpha| or not a number"); nsym_check(r[i]<=lim,"softmax exceeds |alpha|"); if(x[i]==-(T)INFINITY) nsym_check(r[i]==0,"softmax of a masked element is not zero"); } }
FSC(logsumexp){ Cfg c; TH<T,L> st(dim(2,2)+c),b(c); VT y; y.push_back(big("max")); y.push_back((T)nsym_real_in("sum",1,1e6)); put(st,y); OP(logsumexp,st(),b()); T r=val(b)[0]; nsym_check(r>=y[0],"log-sum-exp is below the maximum"); nsym_check(fin(r),"log-sum-exp is not finite"); }
// statistics of two blocks
FSC(accumulate){ Cfg c=dim(2,2); TH<T,1> a(c),b(c); VT x,y; x.push_back(big("max1")); x.push_back((T)nsym_real_in("sum1",1,1e6)); y.push_back(big("max2")); y.push_back((T)nsym_real_in("sum2",1,1e6)); put(a,x); put(b,y); nntile::starpu::accumulate_maxsumexp::submit<T>(a(),b()); rt_run_all(); VT r=val(b); nsym_check(r[0]>=x[0]&&r[0]>=y[0],"accumulated maximum is too small"); nsym_check(fin(r[0]),"accumulated maximum is not finite"); nsym_check(r[1]>=0.99f,"accumulated sum of exponentials is lost or not a number"); nsym_check(r[1]<=2.1e6f,"accumulated sum of exponentials overflows"); }
// the whole chain on the data
FSC(chain){ Index ax=0; Cfg c=nsym_pick("cfg",2)?dim(2,1):dim(2,2),sc=dim(2,2),lc; TH<T,0> a(c),st(sc),ls(lc),p(c); VT x=data(c,ax,true,big); bool any=false; for(T q:x) if(q!=-(T)INFINITY) any=true; nsym_assume(any); put(a,x); INVOKE( tensor::clear_async<T>(st()); tensor::maxsumexp_async<T>(a(),st(),ax,0); tensor::softmax_async<T>(st(),a(),1,p(),ax); tensor::logsumexp_async<T>(st(),ls()) ); VT r=val(p); T l=val(ls)[0]; for(size_t i=0;i<r.size();i++){ nsym_check(r[i]>=0,"softmax is negative or not a number"); nsym_check(r[i]<=1.02f,"softmax exceeds one"); nsym_check(l>=x[i]-1,"log-sum-exp is below an element"); } nsym_check(fin(l),"log-sum-exp is not finite"); }
// norms: at least every term, at most the largest term times the number of terms
static void normOk(T r,const VT&t){ T lim=2*t.size(); bool ok=false; for(T q:t){ nsym_check(r>=0.5f*std::fabs(q),"norm is below one of its terms or not a number"); ok|= r<=lim*std::fabs(q); } nsym_check(ok,"norm exceeds the largest term times their number, or is not finite"); }
FSC(norm_slice){ nsym_mode("mantissa",4); static const T CF[][2]={{1,0},{-2,0},{1,1},{0.5f,-2}}; int k=(int)nsym_pick("coef",4); Index ax; Cfg c=k<2?sliceCfg(ax,4,6):sliceCfg(ax,1,2); TH<T,L> a(c),b(sliceOf(c,ax)); VT x=data(c,ax,false,normal),y(b.n(),0.75f); y[0]=normal("d"); put(a,x); put(b,y); T al=CF[k][0],be=CF[k][1]; OP2(norm_slice,(al,a(),be,b(),ax,0),(al,a(),be,b(),ax)); VT t; for(Index i=0;i<(Index)x.size();i++) if(toSlice(i,c.shape,ax)==0) t.push_back(al*x[i]); t.push_back(be*y[0]); normOk(val(b)[0],t); }
FSC(sumnorm){ nsym_mode("mantissa",4); Index ax; Cfg c=sliceCfg(ax,4,6),sc=statCfg(c,ax); TH<T,L> a(c),b(sc); VT x=data(c,ax,false,normal); put(a,x); put(b,VT(b.n(),0)); OP(sumnorm,a(),b(),ax); VT t; for(Index i=0;i<(Index)x.size();i++) if(toSlice(i,c.shape,ax)==0) t.push_back(x[i]); VT y=val(b); normOk(y[1],t); nsym_check(fin(y[0]),"sum of a slice is not finite"); }
FSC(hypot){ Cfg c; TH<T,L> a(c),b(c); VT x(1,normal("x")),y(1,normal("y")); put(a,x); put(b,y); static const T CF[][2]={{1,1},{-2,0},{0,1},{0.5f,-2},{0,0}}; int k=(int)nsym_pick("coef",5); T al=CF[k][0],be=CF[k][1]; OP(hypot,al,a(),be,b()); VT t; t.push_back(al*x[0]); t.push_back(be*y[0]); normOk(val(b)[0],t); }
FSC(hypot_scalar_inverse){ Cfg c=dim(1,1); TH<T,0> a(c); VT x(1,big("x")); put(a,x); T eps=(T)nsym_real_in("eps",1e-30,10); static const T AL[]={1,-2,0.3f}; T al=AL[nsym_pick("alpha",3)]; tensor::hypot_scalar_inverse<T>(eps,al,a()); rt_run_all(); T r=val(a)[0]; nsym_check(r>=0,"inverse of hypot is negative or not a number"); nsym_check(r*eps<=1.01f,"inverse of hypot exceeds 1/eps"); }

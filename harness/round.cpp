// C20: compensated sums. In rounding mode every floating point operation of the executed code returns its exact result
// times (1+delta) with a fresh unknown |delta|<=1 unit roundoff; to first order in the deltas the error of every result is
// bounded by K times the sum of the magnitudes of its terms, with the same K whatever the number of terms (the solver
// chooses the deltas). Natively (replay) the same operation runs on data that makes roundings add up.
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
typedef long double LD;
template<class T> static constexpr LD U(){ return sizeof(T)==4?0x1p-24L:0x1p-53L; }
static void on(){ nsym_mode("round",1); } static void off(){ nsym_mode("round",0); }
static const int NPAT=24; static int rounds(){ return nsym_symbolic()?1:NPAT; } static Index many(){ return nsym_symbolic()?1:48; } // natively: many more terms, so that roundings add up
// value of term i of n: symbolic, or (natively) one large term and small ones around half an ulp, equal terms, or irregular ones
static double hash01(Index i,int r){ uint64_t h=(uint64_t)(i*2654435761ull+r*40503ull+12345); h^=h>>13; h*=0x9E3779B97F4A7C15ull; h^=h>>29; return (double)(h&0xffff)/65536.0; }
static double pattern(int r,Index i,double u){ static const double C[]={1,1.5,3,0.75,6,0.3,1e3,1e5}, E[]={0.1,0.3,1/3.,0.7,1.1,0.9,0.05,0.61}; if(r<8) return i==0?1.:C[r]*u; if(r<16) return E[r-8]; if(r<20) return (r%2?0.25:0.)+hash01(i,r)*0.7; return r==20?(i%2?1e-4:0.3):r==21?1./(1+i):r==22?(i%3?0.7:-0.3):(i<7?0.9:0.011); }
template<class T> static double term(int r,Index i,const char*nm){ return nsym_symbolic()?(double)(T)nsym_real(nm):(double)(T)pattern(r,i,(double)U<T>()); }
template<class T> static void far(double c,LD ex,LD mag,double K,const char*m){ LD d=(LD)c-ex; if(d<0) d=-d; if(!(d<=(K+1)*U<T>()*mag)) nsym_check(false,m); }
static const double K0=7; // roundings of one term that may reach the result (measured: at most 5), plus 2 per additional tile
static Index toSlice(Index l,const VI&s,Index axis){ VI x=unlin(l,s); return lin(without(x,axis),without(s,axis)); }
static Cfg sliceOf(const Cfg&c,Index axis){ Cfg r; r.shape=without(c.shape,axis); r.base=without(c.base,axis); return r; }
static Cfg pickShape(Index&ax,int n){ static const int D[][7]={{0,24,24},{1,2,2,16,16},{0,16,16,2,2},{0,16,8},{1,2,2,12,12,2,2},{0,40,40},{0,36,12}}; int k=(int)nsym_pick("cfg",DEEP?7:n); Cfg c; ax=D[k][0]; for(int i=1;i<7&&D[k][i];i+=2) c=c+dim(D[k][i],D[k][i+1]); c.shape[ax]*=many(); c.base[ax]*=many(); return c; }
template<class T> static T coef(const char*n){ return nsym_symbolic()?(T)nsym_real(n):(T)0.75; }
struct Acc { VD e; std::vector<LD> ex,mag; Acc(Index n):e(n,0.){ if(!nsym_symbolic()){ ex.assign(n,0); mag.assign(n,0); } } void add(Index k,double al,double x,double z=1){ e[k]+=al*x*z; if(!nsym_symbolic()){ LD t=(LD)al*x*z; ex[k]+=t; mag[k]+=t<0?-t:t; } } };
static double kfor(const Cfg&c){ Index t=1; for(auto g:gridOf(c.shape,c.base)) t*=g; return K0+2*(double)(t-1); }
// coefficients: 1 and 0, symbolic and 0, symbolic and 1, symbolic both
#define COEFS int cf=(int)nsym_pick("coef",4); T al=cf?coef<T>("alpha"):(T)1,be=cf<2?(T)0:cf==2?(T)1:coef<T>("beta"); if(cf==3) nsym_assume(be!=0); if(cf) nsym_assume(al!=0); // zero is the first case
template<class A,class T> static void check(A&b,const Acc&s,double K,const char*m){ auto v=b.get(); for(size_t i=0;i<v.size();i++) if(nsym_symbolic()) nsym_err_small(v[i],s.e[i],K,m); else far<T>(v[i],s.ex[i],s.mag[i],K,m); }
SCENARIO(sum_slice){ Index ax; Cfg c=pickShape(ax,4),d=sliceOf(c,ax); COEFS for(int r=0;r<rounds();r++){ TH<T,L> a(c),b(d); VD x,y; for(Index i=0;i<a.n();i++) x.push_back(term<T>(r,unlin(i,c.shape)[ax],"x")); for(Index i=0;i<b.n();i++) y.push_back(term<T>(r,0,"y")); a.setv(x); b.setv(y);
    on(); OP2(sum_slice,(al,a(),be,b(),ax,0),(al,a(),be,b(),ax)); off(); Acc s(b.n()); for(Index i=0;i<b.n();i++) s.add(i,be,y[i]); for(Index i=0;i<a.n();i++) s.add(toSlice(i,c.shape,ax),al,x[i]); check<TH<T,L>,T>(b,s,kfor(c),"sum_slice: rounding error grows with the number of elements"); } }
SCENARIO(sumprod_slice){ Index ax; Cfg c=pickShape(ax,4),d=sliceOf(c,ax); COEFS for(int r=0;r<rounds();r++){ TH<T,L> a(c),a2(c),b(d); VD x,z,y; for(Index i=0;i<a.n();i++){ x.push_back(term<T>(r,unlin(i,c.shape)[ax],"x")); z.push_back(nsym_symbolic()?(double)(T)nsym_real("z"):1.); } for(Index i=0;i<b.n();i++) y.push_back(term<T>(r,0,"y")); a.setv(x); a2.setv(z); b.setv(y);
    on(); OP2(sumprod_slice,(al,a(),a2(),be,b(),ax,0),(al,a(),a2(),be,b(),ax)); off(); Acc s(b.n()); for(Index i=0;i<b.n();i++) s.add(i,be,y[i]); for(Index i=0;i<a.n();i++) s.add(toSlice(i,c.shape,ax),al,x[i],z[i]); check<TH<T,L>,T>(b,s,kfor(c),"sumprod_slice: rounding error grows with the number of elements"); } }
// fiber sums: the reduced elements lie before and after the fiber
SCENARIO(sum_fiber){ static const int D[][8]={{1,0,12,12,2,2},{0,0,2,2,14,14},{1,0,4,4,2,2,5,5},{1,1,14,14,2,2,2,2},{1,0,8,4,1,1,2,2},{1,0,2,2,1,1,14,14},{0,1,2,2,18,18,1,1}}; int k=(int)nsym_pick("cfg",DEEP?7:6); Cfg c; Index ax=D[k][0],bt=D[k][1]; for(int i=2;i<8&&D[k][i];i+=2) c=c+dim(D[k][i],D[k][i+1]); { int big=-1; for(Index i=0;i<(Index)c.shape.size()-bt;i++) if(i!=ax&&(big<0||c.shape[i]>c.shape[big])) big=(int)i; c.shape[big]*=many(); c.base[big]*=many(); } Index nd=c.shape.size(); VI keep(1,ax); if(bt) keep.push_back(nd-1); Cfg d=sel(c,keep); COEFS
    for(int r=0;r<rounds();r++){ TH<T,L> a(c),b(d); VD x,y; VI cnt(prod(d.shape),0),g; for(Index i=0;i<a.n();i++){ VI ix=unlin(i,c.shape); Index q=ix[ax]; if(bt) q+=ix[nd-1]*c.shape[ax]; g.push_back(q); x.push_back(term<T>(r,cnt[q]++,"x")); } for(Index i=0;i<b.n();i++) y.push_back(term<T>(r,0,"y")); a.setv(x); b.setv(y);
    on(); OP2(sum_fiber,(al,a(),be,b(),ax,bt,0),(al,a(),be,b(),ax,bt)); off(); Acc s(b.n()); for(Index i=0;i<b.n();i++) s.add(i,be,y[i]); for(Index i=0;i<a.n();i++) s.add(g[i],al,x[i]); check<TH<T,L>,T>(b,s,kfor(c),"sum_fiber: rounding error grows with the number of elements"); } }
// loss accumulation: log-sum-exp minus labelled logit, summed over the samples
SCENARIO(total_sum_accum){ Index n=12*many(); Cfg c=nsym_pick("cfg",2)?dim(n,n):dim(n/2,n/2)+dim(2,2); Index nv=2; Cfg dc=dim(nv,nv)+c,z0; bool one=nsym_pick("coef",2); for(int r=0;r<rounds();r++){ TH<nntile::Index,L> ix(c); TH<T,L> ls(c),d(dc),v(z0); VD lv,xs,sv; for(Index i=0;i<n;i++){ lv.push_back((double)(i%2)); sv.push_back(term<T>(r,2*i,"s")); for(Index l=0;l<nv;l++) xs.push_back(nsym_symbolic()||l==i%2?(nsym_symbolic()?1:r%2?-1:-0.25)*term<T>(r,2*i+1,"x"):7.); } { std::vector<Index> li; for(auto x:lv) li.push_back((Index)x); ix.setv(li); } ls.setv(sv); d.setv(xs); VD q(1,nsym_symbolic()?(double)(T)nsym_real("val"):0.); v.setv(q); T al=one?(T)1:coef<T>("alpha"); nsym_assume(al!=0);
    on(); OP(total_sum_accum,al,ls(),d(),ix(),v()); off(); Acc s(1); s.add(0,1,q[0]); for(Index i=0;i<n;i++){ Index l=i%2; s.add(0,al,sv[i]); s.add(0,al,xs[l+nv*i],-1); } check<TH<T,L>,T>(v,s,K0,"total_sum_accum: rounding error grows with the number of samples"); } }
// sums of exponentials and of squares are scaled by the largest term: that term comes first or at one later position
template<class T> static VD ordered(int r,Index n,Index p,bool expo){ VD x; if(nsym_symbolic()){ for(Index i=0;i<n;i++) x.push_back((double)(T)(expo?nsym_real("x"):nsym_pos("x"))); for(Index i=1;i<n;i++){ if(i<p) nsym_assume(x[i]<=x[0]); else if(i>p) nsym_assume(x[i]<=x[p]); else nsym_assume(x[i]>x[0]); } return x; }
    for(Index i=0;i<n;i++){ double t=pattern(r,i+1,(double)U<T>()); if(t<0) t=-t; if(t>1) t=1/t; x.push_back((double)(T)(i==p?(expo?0.:1.):expo?std::log(t):std::sqrt(t))); } return x; }
SCENARIO(maxsumexp){ Index n=(nsym_pick("n",2)?16:8)*many(); Index P[]={0,n-1,n/2}; Index p=P[nsym_pick("max",3)]; bool ini=nsym_pick("init",2); Cfg c=dim(n,n); for(int r=0;r<rounds();r++){ TH<T,L> a(c),b(dim(2,2)); VD x=ordered<T>(r,n,p,true); a.setv(x); VD y(2,0.); if(ini){ y[0]=nsym_symbolic()?(double)(T)nsym_real("m0"):-1.; y[1]=nsym_symbolic()?(double)(T)nsym_pos("s0"):1.; } b.setv(y);
    on(); OP2(maxsumexp,(a(),b(),0,0),(a(),b(),0)); off(); auto v=b.get(); const char*m="maxsumexp: rounding error grows with the number of elements"; if(nsym_symbolic()) nsym_err_small(v[1],NAN,K0+4,m); else { LD s=0; LD M=x[p]; if(ini&&y[0]>M) M=y[0]; for(auto v:x) s+=expl((LD)v-M); if(ini) s+=(LD)y[1]*expl((LD)y[0]-M); far<T>(v[1],s,s,K0+4,m); } } }
SCENARIO(norm_slice){ Index n=(nsym_pick("n",2)?24:12)*many(); Index P[]={0,n-1,n/2}; Index p=P[nsym_pick("max",3)]; int cf=(int)nsym_pick("coef",3); Cfg c=dim(n,n),z0; for(int r=0;r<rounds();r++){ TH<T,L> a(c),b(z0); VD x=ordered<T>(r,n,p,false); a.setv(x); VD y(1,nsym_symbolic()?(double)(T)nsym_pos("y"):0.5); b.setv(y); T al=cf?coef<T>("alpha"):(T)1,be=cf<2?(T)0:(T)1;
    on(); OP2(norm_slice,(al,a(),be,b(),0,0),(al,a(),be,b(),0)); off(); auto v=b.get(); const char*m="norm_slice: rounding error grows with the number of elements"; if(nsym_symbolic()) nsym_err_small(v[0],NAN,K0+4,m); else { LD s=0; for(auto v:x) s+=(LD)al*al*v*v; s+=(LD)be*be*y[0]*y[0]; s=sqrtl(s); far<T>(v[0],s,s,K0+4,m); } } }

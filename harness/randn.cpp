// C13: random fill. The 64-bit seed is symbolic; the reference generates the whole underlying array in order.
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
typedef unsigned long long U;
static inline float ufp(U s,float){ return (float)s*5.4210108624275222e-20f; }
static inline double ufp(U s,double){ return (double)s*5.4210108624275222e-20; }
template<class T> static T value(U&s,T mean,T sd){ T t1=ufp(s,T(0)); s=6364136223846793005ULL*s+1; T t2=ufp(s,T(0))*(T)6.2831853071795864769252867663; s=6364136223846793005ULL*s+1; return sd*(std::sqrt(T(-2)*std::log(t1))*std::cos(t2))+mean; }
SCENARIO(randn){
    Cfg c; int q=(int)nsym_pick("nd",DEEP?4:4); if(MODE!=SEQ&&!DEEP) c=pickNd(0,2); else c=pickCfg(q,q==1?7:q==2?3:2); if(MODE!=SEQ&&!DEEP&&q) nsym_assume(false);
    int nd=c.shape.size(); VI st,us; for(int i=0;i<nd;i++){ Index o=nsym_pick("start",MODE==SEQ?(nd>2?2:3):2),r=nsym_pick("rest",MODE==SEQ?(nd>2?1:2):1); st.push_back(o); us.push_back(o+c.shape[i]+r); }
    TH<T,L> a(c,NOMUT); VI st2=st,us2=us; if(nd>0&&mutHere()){ int h=(int)nsym_pick("how",4),d=(int)nsym_pick("d",nd); if(h==0) st2[d]=-1; else if(h==1) us2[d]=st[d]+c.shape[d]-1; else if(h==2) st2.pop_back(); else us2.push_back(1); }
    U seed=(U)nsym_int("seed",INT64_MIN,INT64_MAX); T mean=S<T>("mean"),sd=S<T>("sd"); if(nsym_pick("dstinit",2)) a.sym("old");
    VD e(a.n(),0.); U s=seed; Index tot=prod(us); for(Index g=0;g<tot;g++){ VI x=unlin(g,us),y; bool in=true; for(int k=0;k<nd;k++){ Index p=x[k]-st[k]; if(p<0||p>=c.shape[k]) in=false; y.push_back(p); } if(in) e[lin(y,c.shape)]=(double)value<T>(s,mean,sd); else { s=6364136223846793005ULL*s+1; s=6364136223846793005ULL*s+1; } }
    OP(randn,a(),st2,us2,seed,mean,sd);
    a.expect(e,"randn: value of the element's position in the underlying array"); }

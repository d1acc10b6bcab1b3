// C12: fused Adam / AdamW steps
#include "h.hh"
#include <nntile/tensor.hh>
template<class T> static void step(bool w){
    Cfg c=pickNd(0,2); TH<T,0> g(c),m(c),s(c),p(c); static const Index IT[]={1,2,3,10}; int k=(int)nsym_pick("iter",MODE==SEQ||DEEP?5:MODE==REJECT?1:2); Index n= k<4?IT[k]:nsym_int("num_iter",2,1000000000);
    T b1=(T)nsym_real_in("beta1",0,1),b2=(T)nsym_real_in("beta2",0,1),eps=(T)nsym_pos("eps"),lr=S<T>("lr"),wd=T(0); if(nsym_pick("wd",2)){ wd=S<T>("wd"); nsym_assume(wd!=0); } nsym_assume(b1>0&&b1<1&&b2>0&&b2<1);
    double q1=std::pow((double)b1,(double)n),q2=std::pow((double)b2,(double)n); nsym_assume(q1<1&&q2<1&&q1>0&&q2>0);
    auto&G=g.sym("g"),&P=p.sym("p"); VD M(p.n(),0.),V(p.n(),0.); if(n!=1||nsym_pick("minit",2)){ M=m.sym("m"); VD sv; for(Index i=0;i<p.n();i++) sv.push_back(nsym_pos("s")); V=sv; s.setv(V); }
    if(w) TOP(adamw_step,n,b1,b2,eps,lr,wd,g(),m(),s(),p()); else TOP(adam_step,n,b1,b2,eps,lr,wd,g(),m(),s(),p());
    VD em,ev,ep; for(Index i=0;i<p.n();i++){ double x=P[i],d=G[i]; if(w) x=x-lr*wd*x; else d=d+wd*x; double m0= n==1?0.:M[i],v0= n==1?0.:V[i]*V[i]; double mm=b1*m0+(1-b1)*d,vv=b2*v0+(1-b2)*d*d; em.push_back(mm); ev.push_back(std::sqrt(vv)); ep.push_back(x-lr*(mm/(1-q1))/(std::sqrt(vv)/std::sqrt(1-q2)+eps)); }
    m.expect(em,"first moment"); s.expect(ev,"second moment (its square root)"); p.expect(ep,"parameter update"); g.same("gradient unchanged"); }
TSCENARIO(adam_step){ step<T>(false); }
TSCENARIO(adamw_step){ step<T>(true); }

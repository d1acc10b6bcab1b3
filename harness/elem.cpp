// C04: element-wise arithmetic
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
SCENARIO(add){ Cfg c=pickNd(0,3); TH<T,L> a(c),b(c); auto&x=a.sym("a"),&y=b.sym("b"); T al=S<T>("alpha"),be=S<T>("beta"); OP(add,al,a(),be,b()); VD e; for(size_t i=0;i<x.size();i++) e.push_back(al*x[i]+be*y[i]); b.expect(e,"add: dst = alpha*src+beta*dst"); a.same("add: src unchanged"); }
SCENARIO(add_scalar){ Cfg c=pickNd(0,3); TH<T,L> b(c,NOMUT); auto&y=b.sym("b"); T al=S<T>("alpha"),be=S<T>("beta"); OP(add_scalar,al,be,b()); VD e; for(auto v:y) e.push_back(al+be*v); b.expect(e,"add_scalar: dst = alpha+beta*dst"); }
SCENARIO(addcdiv){ Cfg c=pickNd(0,3); TH<T,L> n(c),d(c),r(c); auto&x=n.sym("nom"),&y=d.sym("den"),&z=r.sym("res"); T v=S<T>("val"),eps=S<T>("eps"); for(auto q:y) nsym_assume((double)(T)((T)q+eps)!=0.); OP(addcdiv,v,eps,n(),d(),r()); VD e; for(size_t i=0;i<x.size();i++) e.push_back(z[i]+v*x[i]/(y[i]+eps)); r.expect(e,"addcdiv: res += val*nom/(denom+eps)"); n.same("addcdiv: nom unchanged"); d.same("addcdiv: denom unchanged"); }
SCENARIO(axpy){ Cfg c=pickNd(0,3); TH<T,L> a(c),b(c); auto&x=a.sym("a"),&y=b.sym("b"); T al=S<T>("alpha"); OP(axpy,al,a(),b()); VD e; for(size_t i=0;i<x.size();i++) e.push_back(al*x[i]+y[i]); b.expect(e,"axpy: dst += alpha*src"); a.same("axpy: src unchanged"); }
SCENARIO(axpy_t){ Cfg c=pickNd(0,3); TH<T,L> al{Cfg()}; TH<T,L> a(c),b(c); auto&x=a.sym("a"),&y=b.sym("b"),&s=al.sym("alpha"); OP(axpy,al(),a(),b()); VD e; for(size_t i=0;i<x.size();i++) e.push_back(s[0]*x[i]+y[i]); b.expect(e,"axpy: dst += alpha*src"); a.same("axpy: src unchanged"); al.same("axpy: alpha unchanged"); }
SCENARIO(prod){ Cfg c=pickNd(0,3); TH<T,L> a(c),b(c); auto&x=a.sym("a"),&y=b.sym("b"); OP(prod,a(),b()); VD e; for(size_t i=0;i<x.size();i++) e.push_back(x[i]*y[i]); b.expect(e,"prod: dst *= src"); a.same("prod: src unchanged"); }
SCENARIO(scal){ Cfg c=pickNd(0,3); TH<T,L> a(c),b(c); auto&x=a.sym("a"); if(nsym_pick("dstinit",2)) b.sym("b"); T al=S<T>("alpha"); OP(scal,al,a(),b()); VD e; for(auto v:x) e.push_back(al*v); b.expect(e,"scal: dst = alpha*src"); a.same("scal: src unchanged"); }
SCENARIO(scal_inplace){ Cfg c=pickNd(0,3); TH<T,L> b(c,NOMUT); auto&y=b.sym("b"); T al=S<T>("alpha"); OP(scal_inplace,al,b()); VD e; for(auto v:y) e.push_back(al*v); b.expect(e,"scal_inplace: data *= alpha"); }
SCENARIO(hypot){ Cfg c=pickNd(0,2); TH<T,L> a(c),b(c); auto&x=a.sym("a"),&y=b.sym("b"); T al=S<T>("alpha"),be=S<T>("beta"); OP(hypot,al,a(),be,b()); VD e; for(size_t i=0;i<x.size();i++) e.push_back(std::sqrt(al*x[i]*al*x[i]+be*y[i]*be*y[i])); b.expect(e,"hypot: dst = hypot(alpha*src, beta*dst)"); a.same("hypot: src unchanged"); }
SCENARIO(maximum){ Cfg c=pickNd(0,2); TH<T,L> a(c),b(c); bool few=MODE==REJECT; auto&x=few?a.constant(1.5):a.sym("a"),&y=b.sym("b");if(few) b.constant(-.5); OP(maximum,a(),b()); VD e; for(size_t i=0;i<x.size();i++) e.push_back(x[i]>y[i]?x[i]:y[i]); b.expect(e,"maximum: dst = max(src,dst)"); a.same("maximum: src unchanged"); }
SCENARIO(pow){
    Cfg c=pickNd(0,2); TH<T,L> b(c,NOMUT); auto&y=b.symPos("b"); T al=S<T>("alpha"); int k=(int)nsym_pick("exp",6); static const double E[]={-1,2,0.5,3,-2,0};
    T ex= k==5?(T)nsym_real("ex"):(T)E[k]; OP(pow,al,ex,b()); VD e;
    for(auto v:y){ if(k==5){ if(ex==T(-1)) e.push_back(al/v); else e.push_back((double)(al*std::pow((T)v,ex))); } else e.push_back(k==0?al/v:k==1?al*v*v:k==2?al*std::sqrt(v):k==3?al*v*v*v:al/(v*v)); }
    b.expect(e,"pow: data = alpha*data^exp"); }
SCENARIO(sqrt){ Cfg c=pickNd(0,2); TH<T,L> a(c),b(c); auto&x=a.symPos("a"); OP(sqrt,a(),b()); VD e; for(auto v:x) e.push_back(std::sqrt(v)); b.expect(e,"sqrt: dst = sqrt(src)"); a.same("sqrt: src unchanged"); }
SCENARIO(sqrt_inplace){ Cfg c=pickNd(0,2); TH<T,L> b(c,NOMUT); auto&x=b.symPos("b"); OP(sqrt_inplace,b()); VD e; for(auto v:x) e.push_back(std::sqrt(v)); b.expect(e,"sqrt_inplace: data = sqrt(data)"); }
SCENARIO(fill){ Cfg c=pickNd(0,3); TH<T,L> b(c,NOMUT); T v=S<T>("val"); OP(fill,v,b()); b.expect(VD(b.n(),v),"fill: every element is val"); }
SCENARIO(clear){ Cfg c=pickNd(0,3); TH<T,L> b(c,NOMUT); OP(clear,b()); b.expect(VD(b.n(),0.),"clear: every element is zero"); }
SCENARIO(mask_scalar){
    Cfg c=pickNd(1,3); int nd=(int)c.shape.size(); Index batch= L==0? (Index)nsym_pick("batch",nd+1) : nd-1;
    if(L==1) batch=1; VI md=range(0,nd-batch); TH<bool_t,L> m(sel(c,md));
    Index bt= L==0? arg(batch,0,nd) : batch; int freeA=0; for(int d=nd-batch;d<nd;d++) freeA|=1<<d; TH<T,L> a(c,freeA);
    VD mv=pickMask(m.n()); m.setv(mv); auto&x=a.sym("a"); T v=S<T>("val");
    OP2(mask_scalar,(m(),v,a(),bt),(m(),v,a()));
    VD e; for(size_t i=0;i<x.size();i++) e.push_back(mv[i%m.n()]?x[i]:v); a.expect(e,"mask_scalar: masked-out elements are val, others unchanged"); m.same("mask_scalar: mask unchanged");
}

// C15: flash attention. Q, K, V: (head, seq, batch, heads); mask[key, query]; maxsumexp: (2, seq, batch, heads)
#include "h.hh"
#include <nntile/tensor.hh>
struct Dims { Index h,s,st,b,bt,n,nt; };
static Dims pickDims(int small){ static const Dims D[]={{1,4,2,1,1,1,1},{2,2,1,1,1,1,1},{2,2,2,2,1,1,1},{4,2,1,1,1,2,2},{1,2,1,2,2,2,1},{3,3,1,1,1,1,1},{2,4,2,2,1,1,1},{2,6,3,1,1,2,1}}; return D[nsym_pick("dims",MODE==SEQ?(DEEP?8:small):MODE==REJECT?1:DEEP?5:2)]; }
static Dims pickDimsM(){ static const Dims D[]={{1,4,2,1,1,1,1},{4,2,1,1,1,2,2},{1,2,1,2,2,2,1},{1,3,1,1,1,1,1},{4,3,2,1,1,1,1},{1,4,1,2,1,1,1}}; return D[nsym_pick("dims",MODE==SEQ?(DEEP?6:4):MODE==REJECT?1:DEEP?4:2)]; }
static Cfg qkv(const Dims&d){ return dim(d.h,d.h)+dim(d.s,d.st)+dim(d.b,d.bt)+dim(d.n,d.nt); }
static Cfg sq(const Dims&d){ return dim(d.s,d.st)+dim(d.s,d.st)+dim(d.b,d.bt)+dim(d.n,d.nt); }
static Cfg stat(const Dims&d){ return dim(2,2)+dim(d.s,d.st)+dim(d.b,d.bt)+dim(d.n,d.nt); }
static Cfg sl(const Dims&d){ return dim(d.s,d.st)+dim(d.b,d.bt)+dim(d.n,d.nt); }
static Cfg mk(const Dims&d){ return dim(d.s,d.st)+dim(d.s,d.st); }
// masks: all, causal (key<=query), the reverse, a pattern in which one query sees nothing in the first tile, one query sees nothing at all
static VD maskOf(const Dims&d){ int k=(int)nsym_pick("mask",MODE==SEQ?5:2); VD m; for(Index q=0;q<d.s;q++) for(Index j=0;j<d.s;j++) m.push_back(k==0?1.:k==1?(j<=q?1.:0.):k==2?(j>=q?1.:0.):k==3?((j+q)%2?1.:0.):(q==0?0.:1.)); return m; }
static inline Index at(const Dims&d,Index h,Index s,Index p){ return h+d.h*(s+d.s*p); }
static double logit(const Dims&d,const VD&q,const VD&k,Index j,Index i,Index p){ double r=0; for(Index h=0;h<d.h;h++) r+=k[at(d,h,j,p)]*q[at(d,h,i,p)]; return r/std::sqrt((double)d.h); }
static VD fixedv(Index n,int salt){ VD v; for(Index i=0;i<n;i++) v.push_back((double)(((i*7+salt*3)%5)-2)*0.5+0.25*(double)(i%3)); return v; }
static VD symAll(Index n,const char*nm){ VD v; for(Index i=0;i<n;i++) v.push_back(nsym_real(nm)); return v; }
TSCENARIO(flash_maxsumexp){ Dims d=pickDimsM(); TH<T,0> Q(qkv(d)),K(qkv(d)),ms(stat(d)),tmp(sq(d)); TH<bool_t,0> M(mk(d)); Index P=d.b*d.n; auto m=maskOf(d); M.setv(m);
    // one query (or one key column) symbolic, everything else fixed
    Index w=nsym_pick("query",MODE==SEQ?(d.s<3?d.s:3):1),wp=nsym_pick("batch",MODE==SEQ?(P<2?P:2):1); int which=(int)nsym_pick("which",MODE==SEQ?2:1); VD q=fixedv(Q.n(),1),k=fixedv(K.n(),2); if(!g_mut) for(Index h=0;h<d.h;h++){ if(which==0) q[at(d,h,w,wp)]=nsym_real("q"); else k[at(d,h,w,wp)]=nsym_real("k"); }
    Q.setv(q); K.setv(k); VD y(ms.n(),0.); if(!g_mut&&MODE!=FAIL&&MODE!=REJECT&&nsym_pick("init",2)){ y[2*(w+d.s*wp)]=nsym_real("m0")/std::sqrt((double)d.h); y[2*(w+d.s*wp)+1]=nsym_pos("s0"); } ms.setv(y); ms.redux_maxsumexp();
    TOP(flash_maxsumexp,Q(),K(),M(),ms(),tmp(),redux());
    auto v=ms.get(); for(Index p=0;p<P;p++) for(Index i=0;i<d.s;i++){ Index o=2*(i+d.s*p); bool have=y[o+1]!=0.; double Mx=y[o]; for(Index j=0;j<d.s;j++) if(m[j+d.s*i]!=0){ double t=logit(d,q,k,j,i,p); if(!have||nsym_concrete(t>Mx)){ Mx=t; have=true; } } double e= y[o+1]!=0.?y[o+1]*std::exp(y[o]-Mx):0.; for(Index j=0;j<d.s;j++) if(m[j+d.s*i]!=0) e+=std::exp(logit(d,q,k,j,i,p)-Mx); if(!have) e=0;
        EQ((T)v[o+1],e,"flash maxsumexp: sum of exponentials"); if(have) EQ((T)v[o],Mx,"flash maxsumexp: maximum"); }
    Q.same("Q unchanged"); K.same("K unchanged"); M.same("mask unchanged"); }
TSCENARIO(flash_softmax_gemm){ Dims d=pickDims(5); TH<T,0> Q(qkv(d)),K(qkv(d)),V(qkv(d)),ms(stat(d)),dst(qkv(d)),tmp(sq(d)); TH<bool_t,0> M(mk(d)); Index P=d.b*d.n; auto m=maskOf(d); M.setv(m);
    VD q=symAll(Q.n(),"q"),k=symAll(K.n(),"k"),v=symAll(V.n(),"v"); Q.setv(q); K.setv(k); V.setv(v); VD y; for(Index i=0;i<ms.n()/2;i++){ y.push_back(nsym_real("max")); y.push_back(nsym_pos("sum")); } ms.setv(y); if(nsym_pick("dstinit",2)) dst.sym("old");
    TOP(flash_softmax_gemm,Q(),K(),V(),M(),ms(),dst(),tmp(),redux());
    VD e(dst.n(),0.); for(Index p=0;p<P;p++) for(Index i=0;i<d.s;i++) for(Index j=0;j<d.s;j++) if(m[j+d.s*i]!=0){ Index o=2*(i+d.s*p); double a=std::exp(logit(d,q,k,j,i,p)-y[o])/y[o+1]; for(Index h=0;h<d.h;h++) e[at(d,h,i,p)]+=v[at(d,h,j,p)]*a; }
    dst.expect(e,"flash softmax times V"); Q.same("Q unchanged"); K.same("K unchanged"); V.same("V unchanged"); ms.same("maxsumexp unchanged"); M.same("mask unchanged"); }
TSCENARIO(flash_softmax_gemm_backward){ Dims d=pickDims(5); TH<T,0> Q(qkv(d)),dQ(qkv(d)),K(qkv(d)),dK(qkv(d)),V(qkv(d)),dV(qkv(d)),ms(stat(d)),g(qkv(d)),tmp(sq(d)),tg(sq(d)),ts(sl(d)); TH<bool_t,0> M(mk(d)); Index P=d.b*d.n; auto m=maskOf(d); M.setv(m);
    VD q=symAll(Q.n(),"q"),k=symAll(K.n(),"k"),v=symAll(V.n(),"v"),gy=symAll(g.n(),"dy"); Q.setv(q); K.setv(k); V.setv(v); g.setv(gy); VD y; for(Index i=0;i<ms.n()/2;i++){ y.push_back(nsym_real("max")); y.push_back(nsym_pos("sum")); } ms.setv(y); ts.constant(0); if(nsym_pick("gradinit",MODE==SEQ?2:1)){ dQ.sym("old"); dK.sym("old"); dV.sym("old"); }
    TOP(flash_softmax_gemm_backward,Q(),dQ(),K(),dK(),V(),dV(),M(),ms(),g(),tmp(),tg(),ts(),redux());
    // with A the probabilities given by maxsumexp: dV = dY A', dA = V' dY, dlogit = A*(dA - sum_k A dA), dQ = K dlogit/sqrt(h), dK = Q dlogit'/sqrt(h)
    VD eq(Q.n(),0.),ek(Q.n(),0.),ev(Q.n(),0.); double rs=1./std::sqrt((double)d.h);
    for(Index p=0;p<P;p++) for(Index i=0;i<d.s;i++){ Index o=2*(i+d.s*p); VD a(d.s,0.),da(d.s,0.); double s=0; for(Index j=0;j<d.s;j++){ if(m[j+d.s*i]!=0) a[j]=std::exp(logit(d,q,k,j,i,p)-y[o])/y[o+1]; for(Index h=0;h<d.h;h++) da[j]+=v[at(d,h,j,p)]*gy[at(d,h,i,p)]; s+=a[j]*da[j]; }
        for(Index j=0;j<d.s;j++){ double t=a[j]*(da[j]-s)*rs; for(Index h=0;h<d.h;h++){ ev[at(d,h,j,p)]+=gy[at(d,h,i,p)]*a[j]; eq[at(d,h,i,p)]+=k[at(d,h,j,p)]*t; ek[at(d,h,j,p)]+=q[at(d,h,i,p)]*t; } } }
    dV.expect(ev,"flash backward: dV"); dQ.expect(eq,"flash backward: dQ"); dK.expect(ek,"flash backward: dK"); Q.same("Q unchanged"); K.same("K unchanged"); V.same("V unchanged"); g.same("dY unchanged"); ms.same("maxsumexp unchanged"); M.same("mask unchanged"); }

// C07: reductions along axes
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
static Index toSlice(Index l,const VI&s,Index axis){ VI x=unlin(l,s); return lin(without(x,axis),without(s,axis)); }
static Index toFiber(Index l,const VI&s,Index axis,Index batch){ VI x=unlin(l,s); Index r=x[axis],m=s[axis]; for(size_t d=s.size()-batch;d<s.size();d++){ r+=x[d]*m; m*=s[d]; } return r; }
static Cfg sliceCfg(const Cfg&c,Index axis){ Cfg r; r.shape=without(c.shape,axis); r.base=without(c.base,axis); return r; }
static Cfg fiberCfg(const Cfg&c,Index axis,Index batch){ VI d; d.push_back(axis); for(size_t k=c.shape.size()-batch;k<c.shape.size();k++) d.push_back(k); return sel(c,d); }
static int freeOther(const Cfg&c,Index axis,Index batch){ int f=FREE_ND; for(int d=0;d<(int)(c.shape.size()-batch);d++) if(d!=axis) f|=1<<d; return f; }
SCENARIO(sum_slice){ Cfg c=pickNd(1,3); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); TH<T,L> a(c,1<<ax),b(sliceCfg(c,ax)); Index axis=arg(ax,0,nd-1); auto&x=a.sym("a"),&y=b.sym("b"); T al=S<T>("alpha"),be=S<T>("beta"); b.redux_add();
    OP2(sum_slice,(al,a(),be,b(),axis,redux()),(al,a(),be,b(),axis)); VD e; for(auto v:y) e.push_back(be*v); for(Index i=0;i<a.n();i++) e[toSlice(i,c.shape,ax)]+=al*x[i]; b.expect(e,"sum_slice: dst = beta*dst+alpha*sum"); a.same("sum_slice: src unchanged"); }
SCENARIO(sum_fiber){ Cfg c=pickNd(1,3); int nd=c.shape.size(); Index bt=nsym_pick("batch",nd>2?3:nd>1?2:1); Index ax=nsym_pick("axis",nd-bt); TH<T,L> a(c,freeOther(c,ax,bt)),b(fiberCfg(c,ax,bt)); Index axis=arg(ax,0,nd-bt-1); auto&x=a.sym("a"),&y=b.sym("b"); T al=S<T>("alpha"),be=S<T>("beta"); b.redux_add();
    OP2(sum_fiber,(al,a(),be,b(),axis,bt,redux()),(al,a(),be,b(),axis,bt)); VD e; for(auto v:y) e.push_back(be*v); for(Index i=0;i<a.n();i++) e[toFiber(i,c.shape,ax,bt)]+=al*x[i]; b.expect(e,"sum_fiber: dst = beta*dst+alpha*sum"); a.same("sum_fiber: src unchanged"); }
SCENARIO(sumprod_slice){ Cfg c=pickNd(1,3); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); TH<T,L> a(c),a2(c),b(sliceCfg(c,ax)); Index axis=arg(ax,0,nd-1); auto&x=a.sym("a"),&z=a2.sym("a2"),&y=b.sym("b"); T al=S<T>("alpha"),be=S<T>("beta"); b.redux_add();
    OP2(sumprod_slice,(al,a(),a2(),be,b(),axis,redux()),(al,a(),a2(),be,b(),axis)); VD e; for(auto v:y) e.push_back(be*v); for(Index i=0;i<a.n();i++) e[toSlice(i,c.shape,ax)]+=al*x[i]*z[i]; b.expect(e,"sumprod_slice: dst = beta*dst+alpha*sum of products"); a.same("sumprod_slice: src1 unchanged"); a2.same("sumprod_slice: src2 unchanged"); }
SCENARIO(sumprod_fiber){ Cfg c=pickNd(1,3); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); TH<T,L> a(c),a2(c),b(fiberCfg(c,ax,0)); Index axis=arg(ax,0,nd-1); auto&x=a.sym("a"),&z=a2.sym("a2"),&y=b.sym("b"); T al=S<T>("alpha"),be=S<T>("beta"); b.redux_add();
    OP2(sumprod_fiber,(al,a(),a2(),be,b(),axis,redux()),(al,a(),a2(),be,b(),axis)); VD e; for(auto v:y) e.push_back(be*v); for(Index i=0;i<a.n();i++) e[toFiber(i,c.shape,ax,0)]+=al*x[i]*z[i]; b.expect(e,"sumprod_fiber: dst = beta*dst+alpha*sum of products"); a.same("sumprod_fiber: src1 unchanged"); a2.same("sumprod_fiber: src2 unchanged"); }
// Norms: one slice has symbolic elements (every slice in turn), the others fixed ones; the code branches on magnitudes
static VD oneSymbolic(const VI&g,Index which,const char*nm){ VD v; for(size_t i=0;i<g.size();i++) v.push_back(g[i]==which?nsym_real(nm):(i%3==1?-1.:1.)*(1+0.5*(double)(i%4))); return v; }
static Cfg normCfg(){ if(MODE!=SEQ) return pickNd(1,2); static const int D[][6]={{1,1},{2,2},{3,2},{2,1},{2,2,2,1},{2,1,2,2},{3,2,1,1},{1,1,3,2},{2,1,3,3},{2,1,2,1,2,2},{2,2,1,1,3,2},{1,1,2,1,2,1},{4,2},{3,1,2,2},{2,2,3,2}}; int k=(int)nsym_pick("cfg",DEEP?15:12); Cfg c; for(int i=0;i<6&&D[k][i];i+=2) c=c+dim(D[k][i],D[k][i+1]); return c; }
SCENARIO(norm_slice){ Cfg c=normCfg(); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); Cfg sc=sliceCfg(c,ax); TH<T,L> a(c,1<<ax),b(sc); Index axis=arg(ax,0,nd-1); Index N=prod(c.shape),K=prod(sc.shape); VI g; for(Index i=0;i<N;i++) g.push_back(toSlice(i,c.shape,ax)); Index w= MODE==REJECT?-1:nsym_pick("slice",MODE!=SEQ?1:K>4?4:K); a.setv(oneSymbolic(g,w,"a")); auto&x=a.v0; VD y; for(Index i=0;i<K;i++) y.push_back(i==w?nsym_real("b"):0.5*(double)(i+1)); b.setv(y);
    int ac=(int)nsym_pick("coef",3); if(ac==0&&(MODE!=SEQ||(!DEEP&&(c.shape[ax]>2||nd>1)))) nsym_assume(false); T al= ac==0?S<T>("alpha"):T(ac==1?1:-2),be= ac==0?S<T>("beta"):T(ac==1?0:1); b.redux_hypot();
    OP2(norm_slice,(al,a(),be,b(),axis,redux()),(al,a(),be,b(),axis)); VD e; for(auto v:y) e.push_back(be*v*be*v); for(Index i=0;i<N;i++) e[g[i]]+=al*x[i]*al*x[i]; for(auto&v:e) v=std::sqrt(v); b.expect(e,"norm_slice: dst = hypot(beta*dst, alpha*norm)"); a.same("norm_slice: src unchanged"); }
SCENARIO(sumnorm){ Cfg c=normCfg(); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); Cfg sc=sliceCfg(c,ax),dc=dim(2,2)+sc; TH<T,L> a(c,1<<ax),b(dc); Index axis=arg(ax,0,nd-1); Index N=prod(c.shape),K=prod(sc.shape); VI g; for(Index i=0;i<N;i++) g.push_back(toSlice(i,c.shape,ax)); Index w=nsym_pick("slice",MODE!=SEQ?1:K>4?4:K); a.setv(oneSymbolic(g,w,"a")); auto&x=a.v0;
    VD y(2*K,0.); if(L==1||nsym_pick("dstinit",2)){ for(Index i=0;i<K;i++){ y[2*i]= i==w?nsym_real("s"):1.5; y[2*i+1]= i==w?nsym_pos("n"):2.; } b.setv(y); }
    OP(sumnorm,a(),b(),axis); if(L==0) y.assign(2*K,0.); // the tensor operation starts from zero, the tile operation accumulates
    VD e(2*K,0.); for(Index i=0;i<K;i++){ e[2*i]=y[2*i]; e[2*i+1]=y[2*i+1]*y[2*i+1]; } for(Index i=0;i<N;i++){ e[2*g[i]]+=x[i]; e[2*g[i]+1]+=x[i]*x[i]; } for(Index i=0;i<K;i++) e[2*i+1]=std::sqrt(e[2*i+1]); b.expect(e,"sumnorm: dst = (sum, norm)"); a.same("sumnorm: src unchanged"); }
SCENARIO(nrm2){ Cfg c=pickNd(0,2); Cfg tc; if(L==0){ tc.shape=gridOf(c.shape,c.base); tc.base=VI(tc.shape.size(),1); } Cfg z0; TH<T,L> a(c,NOMUT),b(z0),t(tc,0); auto&x=a.sym("a"),&y=b.sym("b"); T al=S<T>("alpha"),be=S<T>("beta");
    OP(nrm2,al,a(),be,b(),t()); double e=be*y[0]*be*y[0]; for(auto v:x) e+=al*v*al*v; b.expect(VD(1,std::sqrt(e)),"nrm2: dst = hypot(beta*dst, alpha*norm)"); a.same("nrm2: src unchanged"); }

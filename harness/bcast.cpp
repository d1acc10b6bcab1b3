// C06: slice and fiber broadcasts
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
// element l of the full operand -> element of the slice (axis removed) / of the fiber (axis and batch kept)
static Index toSlice(Index l,const VI&s,Index axis){ VI x=unlin(l,s); return lin(without(x,axis),without(s,axis)); }
static Index toFiber(Index l,const VI&s,Index axis,Index batch){ VI x=unlin(l,s); Index r=x[axis],m=s[axis]; for(size_t d=s.size()-batch;d<s.size();d++){ r+=x[d]*m; m*=s[d]; } return r; }
static Cfg sliceCfg(const Cfg&c,Index axis){ Cfg r; r.shape=without(c.shape,axis); r.base=without(c.base,axis); return r; }
static Cfg fiberCfg(const Cfg&c,Index axis,Index batch){ VI d; d.push_back(axis); for(size_t k=c.shape.size()-batch;k<c.shape.size();k++) d.push_back(k); return sel(c,d); }
static int freeOther(const Cfg&c,Index axis,Index batch){ int f=FREE_ND; for(int d=0;d<(int)(c.shape.size()-batch);d++) if(d!=axis) f|=1<<d; return f; }
SCENARIO(add_slice){ Cfg c=pickNd(1,3); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); TH<T,L> a(sliceCfg(c,ax)),b(c,1<<ax); Index axis=arg(ax,0,nd-1); auto&x=a.sym("a"),&y=b.sym("b"); T al=S<T>("alpha"),be=S<T>("beta");
    OP(add_slice,al,a(),be,b(),axis); VD e; for(Index i=0;i<b.n();i++) e.push_back(al*x[toSlice(i,c.shape,ax)]+be*y[i]); b.expect(e,"add_slice: dst = alpha*slice+beta*dst"); a.same("add_slice: src unchanged"); }
SCENARIO(add_slice3){ Cfg c=pickNd(1,3); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); TH<T,L> a(sliceCfg(c,ax)),b(c),d(c); Index axis=arg(ax,0,nd-1); auto&x=a.sym("a"),&y=b.sym("b"); if(nsym_pick("dstinit",2)) d.sym("d"); T al=S<T>("alpha"),be=S<T>("beta");
    OP(add_slice3,al,a(),be,b(),d(),axis); VD e; for(Index i=0;i<b.n();i++) e.push_back(al*x[toSlice(i,c.shape,ax)]+be*y[i]); d.expect(e,"add_slice3: dst = alpha*slice+beta*src2"); a.same("add_slice3: src1 unchanged"); b.same("add_slice3: src2 unchanged"); }
SCENARIO(prod_slice){ Cfg c=pickNd(1,3); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); TH<T,L> a(sliceCfg(c,ax)),b(c,1<<ax); Index axis=arg(ax,0,nd-1); auto&x=a.sym("a"),&y=b.sym("b"); T al=S<T>("alpha");
    OP(prod_slice,a(),al,b(),axis); VD e; for(Index i=0;i<b.n();i++) e.push_back(al*x[toSlice(i,c.shape,ax)]*y[i]); b.expect(e,"prod_slice: dst = alpha*slice*dst"); a.same("prod_slice: src unchanged"); }
SCENARIO(add_fiber){ Cfg c=pickNd(1,3); int nd=c.shape.size(); Index bt=nsym_pick("batch",nd>2?3:nd>1?2:1); Index ax=nsym_pick("axis",nd-bt); TH<T,L> a(fiberCfg(c,ax,bt)),b(c,freeOther(c,ax,bt)); Index axis=arg(ax,0,nd-bt-1); auto&x=a.sym("a"),&y=b.sym("b"); T al=S<T>("alpha"),be=S<T>("beta");
    OP(add_fiber,al,a(),be,b(),axis,bt); VD e; for(Index i=0;i<b.n();i++) e.push_back(al*x[toFiber(i,c.shape,ax,bt)]+be*y[i]); b.expect(e,"add_fiber: dst = alpha*fiber+beta*dst"); a.same("add_fiber: src unchanged"); }
SCENARIO(prod_fiber){ Cfg c=pickNd(1,3); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); TH<T,L> a(fiberCfg(c,ax,0)),b(c,freeOther(c,ax,0)); Index axis=arg(ax,0,nd-1); auto&x=a.sym("a"),&y=b.sym("b"); T al=S<T>("alpha");
    OP(prod_fiber,a(),al,b(),axis); VD e; for(Index i=0;i<b.n();i++) e.push_back(al*x[toFiber(i,c.shape,ax,0)]*y[i]); b.expect(e,"prod_fiber: dst = alpha*fiber*dst"); a.same("prod_fiber: src unchanged"); }
SCENARIO(prod_fiber3){ Cfg c=pickNd(1,3); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); TH<T,L> a(fiberCfg(c,ax,0)),b(c),d(c); Index axis=arg(ax,0,nd-1); auto&x=a.sym("a"),&y=b.sym("b"); if(nsym_pick("dstinit",2)) d.sym("d"); T al=S<T>("alpha");
    OP(prod_fiber3,a(),al,b(),d(),axis); VD e; for(Index i=0;i<b.n();i++) e.push_back(al*x[toFiber(i,c.shape,ax,0)]*y[i]); d.expect(e,"prod_fiber3: dst = alpha*fiber*src2"); a.same("prod_fiber3: src1 unchanged"); b.same("prod_fiber3: src2 unchanged"); }

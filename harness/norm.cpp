// C14: normalisation of slices, reciprocal of hypot
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
static Index toSlice(Index l,const VI&s,Index axis){ VI x=unlin(l,s); return lin(without(x,axis),without(s,axis)); }
static Cfg statCfg(const Cfg&c,Index axis){ Cfg r=dim(2,2); for(size_t d=0;d<c.shape.size();d++) if((Index)d!=axis) r=r+dim(c.shape[d],c.base[d]); return r; }
SCENARIO(normalize){ static const int D[][6]={{2,2},{3,2},{2,1,2,2},{3,2,1,1},{1,1,3,2},{2,1,2,1,1,1},{1,1,2,1,2,2},{2,2,3,1},{3,2,3,2}}; Cfg c; int q=(int)nsym_pick("cfg",DEEP?9:MODE==SEQ?7:MODE==REJECT?3:2); for(int i=0;i<6&&D[q][i];i+=2) c=c+rdim(D[q][i],D[q][i+1]);
    int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); Cfg sc=statCfg(c,ax); TH<T,L> gb(dim(2,2)),st(sc),a(c,1<<ax); Index axis=arg(ax,0,nd-1); Index N=prod(c.shape),K=prod(sc.shape)/2; static const Index LL[]={4,1,3}; Index ln=LL[nsym_pick("l",MODE==SEQ?3:1)]; Index l=ln; if(mutHere()) l=-nsym_pick("lmut",2); bool em=mutHere();
    // one slice has symbolic statistics (every element of it symbolic), the other slices fixed statistics
    Index w=nsym_pick("slice",MODE!=SEQ?1:K>2?2:K); T eps=(T)nsym_pos("eps"); VD sv; for(Index k=0;k<K;k++) if(k==w){ double r=(double)(T)nsym_pos("norm"),s=(double)(T)nsym_real("sum"); int q=(int)nsym_pick("var",MODE==SEQ?3:1); if(q==0) nsym_assume(s*s<r*r*(double)ln); /* zero variance */ else if(q==1) { s=r; r=s*std::sqrt(1./(double)ln); if(nsym_pick("sign",2)) s=-s; } /* zero slice */ else { s=0; r=0; } sv.push_back(s); sv.push_back(r); } else { sv.push_back(0.5); sv.push_back(3.); }
    st.setv(sv); VD gv; gv.push_back(nsym_real("gamma")); gv.push_back(nsym_real("beta")); gb.setv(gv); auto&x=a.sym("x"); T ep2= em?-eps:eps;
    OP(normalize,gb(),st(),a(),l,ep2,axis);
    VD e; for(Index i=0;i<N;i++){ Index k=toSlice(i,c.shape,ax); double mean=sv[2*k]/(double)ln,var=sv[2*k+1]*sv[2*k+1]/(double)ln-mean*mean; e.push_back(gv[0]*(x[i]-mean)/std::sqrt(var+(double)eps)+gv[1]); }
    a.expect(e,"normalize: gamma*(x-mean)/sqrt(var+eps)+beta"); st.same("normalize: statistics unchanged"); gb.same("normalize: gamma, beta unchanged"); }
TSCENARIO(hypot_scalar_inverse){ Cfg c=pickNd(0,3); TH<T,0> a(c,NOMUT); auto&x=a.sym("x"); T eps=(T)nsym_pos("eps"),al=S<T>("alpha"); TOP(hypot_scalar_inverse,eps,al,a()); VD e; for(auto v:x) e.push_back(1./std::sqrt((double)eps*eps+al*v*al*v)); a.expect(e,"hypot_scalar_inverse: 1/hypot(eps, alpha*x)"); }

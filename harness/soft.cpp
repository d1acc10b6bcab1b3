// C08: max-and-sum-of-exponentials, softmax, log-sum-exp, masks given as -inf
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
static Index toSlice(Index l,const VI&s,Index axis){ VI x=unlin(l,s); return lin(without(x,axis),without(s,axis)); }
static Cfg statCfg(const Cfg&c,Index axis){ Cfg r=dim(2,2); for(size_t d=0;d<c.shape.size();d++) if((Index)d!=axis) r=r+dim(c.shape[d],c.base[d]); return r; }
static Cfg softCfg(){ static const int D[][6]={{2,2},{3,2},{1,1},{2,1},{2,1,2,2},{3,2,1,1},{1,1,3,2},{2,1,3,2},{2,1,2,1,2,2},{2,2,1,1,3,2},{1,1,2,1,2,1},{4,2},{4,1},{3,1,2,2},{2,2,3,2},{4,2,2,1}}; static const int O[][4]={{3,2},{3,1},{2,2,3,2}}; Cfg c; if(MODE!=SEQ&&!DEEP){ int k=(int)nsym_pick("cfg",MODE==REJECT?3:2); for(int i=0;i<4&&O[k][i];i+=2) c=c+rdim(O[k][i],O[k][i+1]); return c; } int k=(int)nsym_pick("cfg",DEEP?16:11); for(int i=0;i<6&&D[k][i];i+=2) c=c+rdim(D[k][i],D[k][i+1]); return c; }
// One slice symbolic, every subset of it masked; the other slices have fixed values with one masked element
static VD slices(const VI&g,Index which){ VD v; for(size_t i=0;i<g.size();i++) v.push_back(g[i]==which?(nsym_pick("masked",2)?-INFINITY:nsym_real("x")):(i%4==3?-INFINITY:(i%3==1?-1.:1.)*(0.5*(double)(i%4)))); return v; }
SCENARIO(maxsumexp){ Cfg c=softCfg(); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); Cfg sc=statCfg(c,ax); TH<T,L> a(c,1<<ax),b(sc); Index axis=arg(ax,0,nd-1); Index N=a.n(),K=prod(sc.shape)/2; if(g_mut){ a.constant(1); b.constant(1); OP2(maxsumexp,(a(),b(),axis,redux()),(a(),b(),axis)); return; }
    VI g; for(Index i=0;i<N;i++) g.push_back(toSlice(i,c.shape,ax)); Index w=nsym_pick("slice",MODE!=SEQ?1:K>3?3:K); a.setv(slices(g,w)); auto&x=a.v0;
    VD y(2*K,0.); int ini=nsym_pick("init",MODE==SEQ||MODE==REDUX?3:1); if(ini==1){ y[2*w]=nsym_real("m0"); y[2*w+1]=nsym_pos("s0"); } else if(ini==2) y[2*w]=nsym_real("m0"); b.setv(y); b.redux_maxsumexp();
    OP2(maxsumexp,(a(),b(),axis,redux()),(a(),b(),axis));
    VD e=y; for(Index s=0;s<K;s++){ bool have=y[2*s+1]!=0.; double M=y[2*s]; for(Index i=0;i<N;i++) if(g[i]==s&&x[i]!=-INFINITY){ if(!have||x[i]>M){ M=x[i]; have=true; } } if(!have) continue; double q= y[2*s+1]!=0.? y[2*s+1]*std::exp(y[2*s]-M):0.; for(Index i=0;i<N;i++) if(g[i]==s&&x[i]!=-INFINITY) q+=std::exp(x[i]-M); e[2*s]=M; e[2*s+1]=q; }
    auto v=b.get(); for(Index s=0;s<K;s++){ EQ((T)v[2*s+1],e[2*s+1],"maxsumexp: sum of exponentials"); if(e[2*s+1]!=0.) EQ((T)v[2*s],e[2*s],"maxsumexp: maximum"); } a.same("maxsumexp: src unchanged"); }
SCENARIO(softmax){ Cfg c=softCfg(); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); Cfg sc=statCfg(c,ax); TH<T,L> st(sc),a(c,1<<ax),b(c,1<<ax); Index axis=arg(ax,0,nd-1); Index N=prod(c.shape); auto&s=st.v0; VD sv; for(Index i=0;i<prod(sc.shape)/2;i++){ sv.push_back(nsym_real("max")); sv.push_back(nsym_pos("sum")); } st.setv(sv);
    VD av; for(Index i=0;i<N;i++) av.push_back((i<3||i+1==N)&&nsym_pick("masked",2)?-INFINITY:nsym_real("x")); a.setv(av); if(nsym_pick("dstinit",2)) b.sym("old"); T al=S<T>("alpha");
    OP(softmax,st(),a(),al,b(),axis); VD e; for(Index i=0;i<N;i++){ Index k=toSlice(i,c.shape,ax); e.push_back(av[i]==-INFINITY?0.:al*std::exp(av[i]-s[2*k])/s[2*k+1]); } b.expect(e,"softmax: dst = alpha*exp(x-max)/sum"); a.same("softmax: src unchanged"); st.same("softmax: maxsumexp unchanged"); }
SCENARIO(softmax_inplace){ Cfg c=softCfg(); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); Cfg sc=statCfg(c,ax); TH<T,L> st(sc),b(c,1<<ax); Index axis=arg(ax,0,nd-1); Index N=prod(c.shape); VD sv; for(Index i=0;i<prod(sc.shape)/2;i++){ sv.push_back(nsym_real("max")); sv.push_back(nsym_pos("sum")); } st.setv(sv); auto&s=st.v0;
    VD av; for(Index i=0;i<N;i++) av.push_back((i<3||i+1==N)&&nsym_pick("masked",2)?-INFINITY:nsym_real("x")); b.setv(av); T al=S<T>("alpha");
    OP(softmax_inplace,st(),al,b(),axis); VD e; for(Index i=0;i<N;i++){ Index k=toSlice(i,c.shape,ax); e.push_back(av[i]==-INFINITY?0.:al*std::exp(av[i]-s[2*k])/s[2*k+1]); } b.expect(e,"softmax_inplace: dst = alpha*exp(x-max)/sum"); st.same("softmax_inplace: maxsumexp unchanged"); }
SCENARIO(logsumexp){ Cfg c=pickNd(0,2); Cfg sc=dim(2,2)+c; TH<T,L> st(sc),b(c); Index K=prod(c.shape); VD sv; for(Index i=0;i<K;i++){ sv.push_back(nsym_real("max")); sv.push_back(nsym_pos("sum")); } st.setv(sv);
    OP(logsumexp,st(),b()); VD e; for(Index i=0;i<K;i++) e.push_back(sv[2*i]+std::log(sv[2*i+1])); b.expect(e,"logsumexp: dst = max+log(sum)"); st.same("logsumexp: src unchanged"); }
// the whole chain on one symbolic array: softmax and log-sum-exp of the data itself
TSCENARIO(softmax_chain){ if(MODE==REJECT) g_mutable=0; Cfg c=softCfg(); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd); Cfg sc=statCfg(c,ax); Cfg lc; lc.shape=sub(sc.shape,1,sc.shape.size()); lc.base=sub(sc.base,1,sc.base.size()); TH<T,0> a(c),st(sc),ls(lc),p(c); Index N=prod(c.shape),K=prod(lc.shape); VI g; for(Index i=0;i<N;i++) g.push_back(toSlice(i,c.shape,ax)); Index w=nsym_pick("slice",MODE!=SEQ?1:K>2?2:K);
    VD v; for(Index i=0;i<N;i++) v.push_back(g[i]==w?nsym_real("x"):(i%3==1?-1.:1.)*(0.5*(double)(i%4))); a.setv(v); st.redux_maxsumexp();
    INVOKE( tensor::clear_async<T>(st()); tensor::maxsumexp_async<T>(a(),st(),ax,redux()); tensor::softmax_async<T>(st(),a(),1,p(),ax); tensor::softmax_inplace_async<T>(st(),1,a(),ax); tensor::logsumexp_async<T>(st(),ls()) );
    VD d(K,0.),e(N); for(Index i=0;i<N;i++) d[g[i]]+=std::exp(v[i]); for(Index i=0;i<N;i++) e[i]=std::exp(v[i])/d[g[i]]; p.expect(e,"softmax of the data"); a.expect(e,"in-place softmax of the data"); auto s=st.get(),l=ls.get(); for(Index k=0;k<K;k++){ EQ((T)(s[2*k+1]*std::exp(s[2*k])),d[k],"sum of exponentials"); EQ((T)std::exp(l[k]),d[k],"log of the sum of exponentials"); } }

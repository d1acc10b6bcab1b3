// C11: operations addressed by labels
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
// labels: symbolic integers within the vocabulary, split by the executor where they are used as addresses
template<int L> struct LH: TH<Index,L> { VI x; using TH<Index,L>::TH; void labels(Index nv){ Index N=this->n(); x.clear(); for(Index i=0;i<N;i++) x.push_back(i<(MODE==SEQ||DEEP?4:2)?nsym_int("label",0,nv-1):(i*7+1)%nv); this->each(STARPU_W,[&](Index i,Index&p){ p=x[i<N?i:0]; }); }
    void same(){ this->each(STARPU_R,[&](Index i,Index&p){ nsym_check(p==x[i],"labels unchanged"); }); } };
static Cfg labCfg(){ static const int D[][6]={{3,2},{2,1},{2,1,2,2},{1,1},{0},{3,2,2,1},{4,3},{2,2,1,1,2,1}}; int k=(int)nsym_pick("cfg",DEEP?8:MODE==SEQ?5:MODE==REJECT?3:2); Cfg c; for(int i=0;i<6&&D[k][i];i+=2) c=c+rdim(D[k][i],D[k][i+1]); return c; }
static Cfg insDim(const Cfg&c,Index axis,Index s,Index b){ Cfg r; for(size_t i=0;i<=c.shape.size();i++){ if((Index)i==axis) r=r+dim(s,b); if(i<c.shape.size()) r=r+dim(c.shape[i],c.base[i]); } return r; }
static const int EMB[][3]={{3,2,2},{4,2,1},{2,2,2},{5,4,2},{1,1,1},{6,4,2},{5,3,3}}; // size, embed base, vocab base
TSCENARIO(embedding){ Cfg c=labCfg(); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd+1); int k=(int)nsym_pick("emb",DEEP?7:MODE==SEQ?4:2); Index nv=1+nsym_pick("nv",3); Cfg ec=insDim(c,ax,EMB[k][0],EMB[k][1]),vc=dim(EMB[k][0],EMB[k][2])+dim(nv,nv);
    LH<0> ix(c); TH<T,0> voc(vc,FREE_BASE|2),emb(ec,FREE_BASE); if(mutHere()){ if(nv==1) nsym_assume(false); voc.~TH(); new(&voc) TH<T,0>(dim(EMB[k][0],EMB[k][2])+dim(nv,nv-1),NOMUT); } Index axis=arg(ax,0,nd);
    ix.labels(nv); auto&v=voc.sym("v"); if(nsym_pick("dstinit",2)) emb.sym("old"); TOP(embedding,ix(),voc(),emb(),axis); VD e; for(Index i=0;i<prod(ec.shape);i++){ VI x=unlin(i,ec.shape); Index lab=ix.x[lin(without(x,ax),c.shape)]; double q=0; for(Index l=0;l<nv;l++) if(lab==l) q=v[x[ax]+EMB[k][0]*l]; e.push_back(q); }
    emb.expect(e,"embedding: column of the label"); voc.same("embedding: vocabulary unchanged"); ix.same(); }
TSCENARIO(embedding_backward){ Cfg c=labCfg(); int nd=c.shape.size(); Index ax=nsym_pick("axis",nd+1); int k=(int)nsym_pick("emb",DEEP?7:MODE==SEQ?4:2); Index nv=1+nsym_pick("nv",3); Cfg ec=insDim(c,ax,EMB[k][0],EMB[k][1]),vc=dim(EMB[k][0],EMB[k][2])+dim(nv,nv);
    LH<0> ix(c); TH<T,0> voc(vc,FREE_BASE|2),emb(ec,FREE_BASE); if(mutHere()){ if(nv==1) nsym_assume(false); voc.~TH(); new(&voc) TH<T,0>(dim(EMB[k][0],EMB[k][2])+dim(nv,nv-1),NOMUT); } Index axis=arg(ax,0,nd);
    ix.labels(nv); auto&v=voc.sym("v"),&g=emb.sym("g"); voc.redux_add(); TOP(embedding_backward,ix(),emb(),voc(),axis,redux()); VD e=v; for(Index i=0;i<prod(ec.shape);i++){ VI x=unlin(i,ec.shape); Index lab=ix.x[lin(without(x,ax),c.shape)]; for(Index l=0;l<nv;l++) if(lab==l) e[x[ax]+EMB[k][0]*l]+=g[i]; }
    voc.expect(e,"embedding_backward: gradients added to the labelled columns"); emb.same("embedding_backward: gradient unchanged"); ix.same(); }
SCENARIO(subtract_indexed_outputs){ Cfg c=labCfg(); Index nv=1+nsym_pick("nv",3); Cfg dc=dim(nv,nv)+c; LH<L> ix(c); TH<T,L> d(dc,1); if(L==0&&mutHere()){ if(nv==1) nsym_assume(false); d.~TH(); new(&d) TH<T,L>(dim(nv,nv-1)+c,NOMUT); } ix.labels(nv); auto&y=d.sym("d"); T val=S<T>("val"); OP(subtract_indexed_outputs,val,ix(),d()); VD e=y; for(Index i=0;i<prod(c.shape);i++) for(Index l=0;l<nv;l++) if(ix.x[i]==l) e[l+nv*i]-=val; d.expect(e,"subtract_indexed_outputs: labelled elements reduced"); ix.same(); }
SCENARIO(total_sum_accum){ Cfg c=labCfg(); Index nv=1+nsym_pick("nv",3); Cfg dc=dim(nv,nv)+c,z0; LH<L> ix(c); TH<T,L> ls(c),d(dc,1),v(z0); if(L==0&&mutHere()){ if(nv==1) nsym_assume(false); d.~TH(); new(&d) TH<T,L>(dim(nv,nv-1)+c,NOMUT); } ix.labels(nv); auto&x=d.sym("d"),&s=ls.sym("ls"),&q=v.sym("val"); T al=S<T>("alpha"); v.redux_add(); OP(total_sum_accum,al,ls(),d(),ix(),v()); double e=q[0]; for(Index i=0;i<prod(c.shape);i++){ e+=al*s[i]; for(Index l=0;l<nv;l++) if(ix.x[i]==l) e-=al*x[l+nv*i]; } v.expect(VD(1,e),"total_sum_accum: loss accumulation"); d.same("total_sum_accum: src unchanged"); ls.same("total_sum_accum: logsumexp unchanged"); ix.same(); }

// C10: copies, intersections, gather/scatter, transposition
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
#include <functional>
// (global element -> value) bookkeeping that also works for integer tensors
template<class T> struct V { typedef double E; static E sym(const char*n){ return (double)(T)nsym_real(n); } static void eq(T a,E b,const char*m){ EQ(a,b,m); } };
template<> struct V<Index> { typedef Index E; static E sym(const char*n){ return nsym_int(n,-1000000,1000000); } static void eq(Index a,E b,const char*m){ nsym_check(a==b,m); } };
template<class T,int L> struct XH: TH<T,L> { typedef typename V<T>::E E; std::vector<E> x; using TH<T,L>::TH;
    void syms(const char*n){ Index N=this->n(); x.clear(); for(Index i=0;i<N;i++) x.push_back(V<T>::sym(n)); this->each(STARPU_W,[&](Index i,T&p){ p=(T)x[i]; }); }
    void expects(const std::vector<E>&e,const char*m){ std::vector<T> v(this->n()); this->each(STARPU_R,[&](Index i,T&p){ v[i]=p; }); for(Index i=0;i<this->n();i++) V<T>::eq(v[i],e[i],m); } };
SCENARIO(copy){ Cfg c=pickNd(0,3); XH<T,L> a(c),b(c); a.syms("a"); if(nsym_pick("dstinit",2)) b.syms("b"); OP(copy,a(),b()); b.expects(a.x,"copy: dst = src"); a.expects(a.x,"copy: src unchanged"); }
static bool overlap(const Cfg&s,const VI&so,const Cfg&d,const VI&dO){ for(size_t k=0;k<so.size();k++) if(so[k]+s.shape[k]<=dO[k]||dO[k]+d.shape[k]<=so[k]) return false; return true; }
template<class T,int L> static void intersect(const Cfg&s,const VI&so,const Cfg&d,const VI&dO){
    XH<T,L> a(s,FREE_BASE|7),b(d,FREE_BASE|7); a.syms("a"); bool full=true; for(size_t k=0;k<so.size();k++) full=full&&so[k]<=dO[k]&&so[k]+s.shape[k]>=dO[k]+d.shape[k]; bool init=!full||nsym_pick("dstinit",2); if(init) b.syms("b"); else b.x.assign(b.n(),0);
    VI so2=so,do2=dO; if(mutHere()){ if(nsym_pick("which",2)) so2.push_back(0); else do2.push_back(0); }
    if constexpr(L==0) INVOKE( if(nsym_async()) tensor::copy_intersection_async<T>(a(),so2,b(),do2); else tensor::copy_intersection<T>(a(),so2,b(),do2) );
    else { tile::Tile<Index> scratch(VI(1,mutHere()?2*(Index)so.size()-1+(so.empty()?1:0):2*(Index)so.size()+(so.empty()?1:0))); if(g_mut&&so.empty()) nsym_assume(false); INVOKE( if(nsym_async()) tile::copy_intersection_async<T>(a(),so2,b(),do2,scratch); else tile::copy_intersection<T>(a(),so2,b(),do2,scratch) ); }
    auto e=b.x; for(Index i=0;i<b.n();i++){ VI x=unlin(i,d.shape),y; bool in=true; for(size_t k=0;k<x.size();k++){ Index p=x[k]+dO[k]-so[k]; if(p<0||p>=s.shape[k]) in=false; y.push_back(p); } if(in) e[i]=a.x[lin(y,s.shape)]; }
    b.expects(e,"copy_intersection: overlapping elements copied, the others unchanged"); a.expects(a.x,"copy_intersection: src unchanged"); }
// offsets are symbolic integers, split by the executor
static Index off(const char*n,Index lo,Index hi){ return nsym_concrete(nsym_int(n,lo,hi)); }
SCENARIO(intersect0){ if(MODE==REJECT&&L==1) nsym_assume(false); intersect<T,L>(Cfg(),VI(),Cfg(),VI()); }
SCENARIO(intersect1){ static const int D[][2]={{5,2},{3,3},{4,3},{4,2},{1,1},{6,4},{5,1}}; int n=MODE==SEQ||DEEP?7:2; int i=(int)nsym_pick("src",n),j=(int)nsym_pick("dst",L==1?n:n); Cfg s=dim(D[i][0],D[i][1]),d=dim(D[j][0],D[j][1]); Index o=MODE==SEQ||DEEP?off("off",-s.shape[0]-1,d.shape[0]+1):off("off",-2,2); intersect<T,L>(s,VI(1,o>0?o:0),d,VI(1,o<0?-o:0)); }
SCENARIO(intersect2){ static const int D[][4]={{3,2,4,3},{4,2,3,2},{3,2,4,2},{3,3,2,1},{2,1,5,2}}; int n=DEEP?5:MODE==SEQ?3:1; int i=(int)nsym_pick("src",n),j=(int)nsym_pick("dst",n); Cfg s=dim(D[i][0],D[i][1])+dim(D[i][2],D[i][3]),d=dim(D[j][0],D[j][1])+dim(D[j][2],D[j][3]); int R=DEEP?5:MODE==SEQ?3:1; VI so,dO; so.push_back(2+off("off",-R,R)); so.push_back(3+off("off",-R,R)); dO.push_back(2); dO.push_back(3); intersect<T,L>(s,so,d,dO); }
TSCENARIO(intersect3){ Cfg s=dim(2,1)+dim(3,2)+dim(2,2),d=dim(3,2)+dim(2,2)+dim(3,2); if(nsym_pick("swap",2)) std::swap(s,d); int R=DEEP?3:MODE==SEQ?2:0; VI so,dO(3,1); for(int k=0;k<3;k++) so.push_back(1+off("off",-R,R)); intersect<T,0>(s,so,d,dO); }
static void idx_case(){ static const int D[][2]={{5,2},{3,3}}; int i=(int)nsym_pick("src",2); Cfg s=dim(D[i][0],D[i][1]),d=dim(4,3); Index o=off("off",-2,2); intersect<Index,0>(s,VI(1,o>0?o:0),d,VI(1,o<0?-o:0)); }
TSCENARIO(intersect_index){ if(sizeof(T)==8) return; idx_case(); }
// base tiles of the distributed side are arbitrary; the other side is one tile
static Cfg whole(const Cfg&c){ Cfg r=c; r.base=c.shape; return r; }
template<class T> static void gs(int which){ Cfg c=pickNd(0,3); if(which==0){ XH<T,0> a(c,FREE_BASE),b(whole(c),FREE_BASE); a.syms("a"); if(nsym_pick("dstinit",2)) b.syms("b"); TOP(gather,a(),b()); b.expects(a.x,"gather: dst = src"); a.expects(a.x,"gather: src unchanged"); return; }
    XH<T,0> a(whole(c),FREE_BASE),b(c,FREE_BASE); a.syms("a"); if(nsym_pick("dstinit",2)) b.syms("b"); TOP(scatter,a(),b()); b.expects(a.x,"scatter: dst = src"); a.expects(a.x,"scatter: src unchanged"); }
TSCENARIO(gather){ gs<T>(0); }
TSCENARIO(scatter){ gs<T>(1); }
TSCENARIO(gather_index){ if(sizeof(T)==8) return; gs<Index>(0); }
TSCENARIO(scatter_index){ if(sizeof(T)==8) return; gs<Index>(1); }
// gather into a tensor of several tiles / scatter from one must be rejected
TSCENARIO(gather_multi){ if(MODE!=REJECT) return; Cfg c=dim(4,2); g_mutable=0; TH<T,0> a(c),b(c),w(dim(4,4)); a.constant(1); b.constant(1); w.constant(1); g_mut=1; if(nsym_pick("op",2)) TOP(gather,a(),b()); else TOP(scatter,a(),w()); }
TSCENARIO(transpose){ Cfg c=pickNd(2,3); int nd=c.shape.size(); Index k=1+nsym_pick("ndim",nd-1); Cfg d; for(int i=0;i<nd;i++){ d.shape.push_back(c.shape[(i+k)%nd]); d.base.push_back(c.base[(i+k)%nd]); } XH<T,0> a(c),b(d); Index kk=arg(k,1,nd-1); a.syms("a"); if(nsym_pick("dstinit",2)) b.syms("b"); T al=S<T>("alpha"); TOP(transpose,al,a(),b(),kk);
    std::vector<double> e(b.n()); for(Index i=0;i<a.n();i++){ VI x=unlin(i,c.shape),y; for(int q=0;q<nd;q++) y.push_back(x[(q+k)%nd]); e[lin(y,d.shape)]=al*a.x[i]; } b.expects(e,"transpose: dst(j,i) = alpha*src(i,j)"); a.expects(a.x,"transpose: src unchanged"); }

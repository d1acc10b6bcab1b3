// C03: block-cyclic distribution. The grid of tiles is enumerated, everything else is symbolic.
#include "nsym.h"
#include "model.h"
#include <vector>
#include <stdexcept>
#include <nntile/base_types.hh>
#include <nntile/tensor/distributions.hh>
using namespace nntile;
#ifndef DEEP
#define DEEP 0
#endif
typedef std::vector<Index> VI;
#define ENTRY(n) extern "C" void e_##n()
template<class F> static bool throws(F f){ try { f(); } catch(const std::exception&){ return true; } return false; }
static const int IMAX=2147483647,IMIN=-IMAX-1;
static VI grid(int n){ VI g; for(int i=0;i<n;i++) g.push_back(1+nsym_pick("tiles",n==1?(DEEP?6:5):n==2?(DEEP?4:3):n==3?(DEEP?3:2):2)); return g; }
// any process grid whose position numbers fit a 64-bit integer
ENTRY(owner){ nsym_mode("int",1); int n=(int)nsym_pick("ndim",DEEP?5:4); VI g=grid(n); std::vector<int> p; for(int i=0;i<n;i++) p.push_back((int)nsym_int("p",1,n<=2?IMAX:n==3?1<<20:1<<14)); int maxr=(int)nsym_int("max",1,IMAX),start=(int)nsym_int("start",0,IMAX); nsym_assume(start<maxr);
    std::vector<int> r; bool th=throws([&]{ r=tensor::distributions::block_cyclic(g,p,start,maxr); }); nsym_check(!th,"valid arguments are rejected"); nsym_assume(!th);
    Index N=1; for(auto x:g) N*=x; nsym_check((Index)r.size()==N,"one entry per tile"); nsym_assume((Index)r.size()==N);
    for(Index l=0;l<N;l++){ Index q=l,pos=0,m=1; for(int j=0;j<n;j++){ Index i=q%g[j]; q/=g[j]; pos+=(i%p[j])*m; m*=p[j]; } nsym_check(r[l]>=0&&r[l]<maxr,"the owner is a valid rank"); nsym_check(r[l]==(start+pos)%maxr,"the owner is the cyclic position in the process grid counted from the start rank"); }
    nsym_reach("end"); }
ENTRY(malformed){ nsym_mode("int",1); int n=1+(int)nsym_pick("ndim",3); VI g(n,2); std::vector<int> p(n,1); int how=(int)nsym_pick("how",6),d=(int)nsym_pick("d",n); if(how==0) p[d]=(int)nsym_int("p",IMIN,0); else if(how==1) g[d]=nsym_int("g",INT64_MIN,0); else if(how==2) p.pop_back(); else if(how==3) p.push_back(1); else if(how==4) g.pop_back(); else g.push_back(1);
    nsym_check(throws([&]{ auto r=tensor::distributions::block_cyclic(g,p,0,4); }),how==0?"a process grid with a non-positive dimension is accepted":how==1?"a tile grid with a non-positive dimension is accepted":"grids of different dimensionality are accepted"); nsym_reach("end"); }
ENTRY(ranks){ nsym_mode("int",1); int n=(int)nsym_pick("ndim",3); VI g(n,2); std::vector<int> p(n,2); int start=(int)nsym_int("start",IMIN,IMAX),maxr=(int)nsym_int("max",IMIN,IMAX); bool th=throws([&]{ auto r=tensor::distributions::block_cyclic(g,p,start,maxr); }); nsym_check(th==!((start>=0)&(start<maxr)),"exactly the start ranks in [0,max) are accepted"); nsym_reach("end"); }

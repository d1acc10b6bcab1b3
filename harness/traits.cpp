// C01, C02: integer arithmetic of tiles and tensors. Sizes, indices and offsets are symbolic 64-bit integers
// (decided as mathematical integers, with a proof that no intermediate result leaves its type).
#include "nsym.h"
#include "model.h"
#include <vector>
#include <stdexcept>
#include <nntile/base_types.hh>
#include <nntile/tile/traits.hh>
#include <nntile/tensor/traits.hh>
using namespace nntile;
#ifndef DEEP
#define DEEP 0
#endif
typedef std::vector<Index> VI;
#define ENTRY(n) extern "C" void e_##n()
static const Index LO=INT64_MIN,HI=INT64_MAX;
static Index cap(int nd){ return nd<=1?(Index)1<<60:nd==2?(Index)1<<30:nd==3?(Index)1<<20:nd==4?(Index)1<<15:(Index)1<<12; } // nelems <= 2^60
static VI dims(const char*n,int nd,Index lo,Index hi){ VI r; for(int i=0;i<nd;i++) r.push_back(nsym_int(n,lo,hi)); return r; }
// dimensions of a tensor: all of them up to cap(nd), or one of them (any) much larger than the others
static int g_big=-1; static void pickBig(int nd){ g_big= nd<2?-1:(int)nsym_pick("big",nd+1)-1; }
static Index capd(int nd,int i){ if(g_big<0) return cap(nd); static const int L[]={0,60,50,40,39,40},S[]={0,60,10,10,7,5}; return (Index)1<<(i==g_big?L[nd]:S[nd]); }
static VI sdims(const char*n,int nd){ VI r; for(int i=0;i<nd;i++) r.push_back(nsym_int(n,1,capd(nd,i))); return r; }
// base tiles: like the tensor, or one dimension of any size and the others 1
static VI bdims(int n){ if(n>=1&&(n==1||g_big>=0)&&nsym_pick("hugebase",2)){ VI r; for(int i=0;i<n;i++) r.push_back(i==(n==1?0:g_big)?nsym_int("b",1,HI):(Index)1); return r; } return sdims("b",n); }
template<class F> static bool throws(F f){ try { f(); } catch(const std::exception&){ return true; } return false; }
static bool inside(const VI&x,const VI&s){ bool r=true; for(size_t i=0;i<s.size();i++) r=r&(x[i]>=0)&(x[i]<s[i]); return r; }
static void lemma(bool c,const char*m){ nsym_check(c,m); nsym_assume(c); } // proved, then available to the next questions
static int nd(){ return (int)nsym_pick("ndim",DEEP?6:5); }

// the description of the shape: strides, element count, matrix reshapes
ENTRY(layout){ nsym_mode("int",1); int n=nd(); pickBig(n); VI s=sdims("n",n); tile::TileTraits t(s);
    nsym_check(t.ndim==n,"ndim"); nsym_check((int)t.shape.size()==n&&(int)t.stride.size()==n&&(int)t.matrix_shape.size()==n+1,"lengths");
    Index left=1; for(int i=0;i<=n;i++){ nsym_check(t.matrix_shape[i][0]==left,"rows of the reshape"); if(i<n){ nsym_check(t.shape[i]==s[i],"shape"); nsym_check(t.stride[i]==left,"stride"); left*=s[i]; } }
    nsym_check(t.nelems==left,"number of elements"); Index right=1; for(int i=n;i>=0;i--){ nsym_check(t.matrix_shape[i][1]==right,"columns of the reshape"); if(i>0) right*=s[i-1]; } nsym_reach("end"); }

// index -> offset -> index
ENTRY(index_offset){ nsym_mode("int",1); int n=nd(); pickBig(n); VI s=sdims("n",n); tile::TileTraits t(s); VI x=dims("i",n,LO,HI); bool in=inside(x,s);
    bool c=t.contains_index(x); nsym_check(c==in,"contains_index"); Index l=0; bool th=throws([&]{ l=t.index_to_linear(x); });
    if(th){ nsym_check(!in,"a valid index is rejected"); nsym_reach("rejected"); return; }
    nsym_check(in,"an index outside the shape is accepted"); nsym_assume(in); Index e=0,m=1; for(int i=0;i<n;i++){ e+=x[i]*m; m*=s[i]; }
    nsym_check(l==e,"offset of the index in Fortran order"); nsym_check(l>=0,"the offset is not negative"); nsym_check(l<m,"the offset is below the number of elements");
    Index pre=0,q=1; for(int i=0;i<n;i++){ lemma(pre>=0,"lemma: partial offsets are not negative"); lemma(pre<q,"lemma: a partial offset is below the number of elements so far"); pre+=x[i]*q; q*=s[i]; }
    VI y; bool th2=throws([&]{ y=t.linear_to_index(l); }); nsym_check(!th2,"the offset of a valid index is rejected"); nsym_assume(!th2); nsym_check((int)y.size()==n,"length of the index"); for(int i=n-1;i>=0;i--) lemma(y[i]==x[i],"index -> offset -> index"); nsym_reach("end"); }

// offset -> index -> offset
ENTRY(offset_index){ nsym_mode("int",1); int n=nd(); pickBig(n); VI s=sdims("n",n); tile::TileTraits t(s); Index l=nsym_int("l",LO,HI),m=1; for(auto q:s) m*=q;
    VI x; bool th=throws([&]{ x=t.linear_to_index(l); }); if(th){ nsym_check(l<0||l>=m,"a valid offset is rejected"); nsym_reach("rejected"); return; }
    nsym_check(l>=0&&l<m,"an offset outside the tile is accepted"); nsym_assume(l>=0&&l<m); nsym_check((int)x.size()==n,"length of the index"); nsym_check(inside(x,s),"the index of an offset lies in the shape"); nsym_assume(inside(x,s)); Index e=0,q=1; for(int i=0;i<n;i++){ e+=x[i]*q; q*=s[i]; } nsym_check(e==l,"offset -> index: Fortran order");
    Index l2=-1; bool th2=throws([&]{ l2=t.index_to_linear(x); }); nsym_check(!th2&&l2==l,"offset -> index -> offset"); nsym_reach("end"); }

// distinct indices have distinct offsets: a consequence of index -> offset -> index being the identity

// indices of the wrong length, invalid shapes
ENTRY(wrong_length){ nsym_mode("int",1); int n=nd(); pickBig(n); VI s=sdims("n",n); tile::TileTraits t(s); int k=(int)nsym_pick("len",6); nsym_assume(k!=n); VI x(k,0); Index l=0; bool c=false; nsym_check(throws([&]{ l=t.index_to_linear(x); }),"index_to_linear accepts an index of the wrong length"); nsym_check(throws([&]{ c=t.contains_index(x); }),"contains_index accepts an index of the wrong length"); nsym_reach("end"); }
ENTRY(bad_shape){ nsym_mode("int",1); int n=1+(int)nsym_pick("ndim",DEEP?4:3),d=(int)nsym_pick("d",4); nsym_assume(d<n); VI s; for(int i=0;i<n;i++) s.push_back(i==d?nsym_int("n",LO,0):nsym_int("n",1,cap(n))); nsym_check(throws([&]{ tile::TileTraits t(s); }),"a shape with a non-positive dimension is accepted");
    VI o; for(int i=0;i<n;i++) o.push_back(nsym_int("p",1,cap(n))); nsym_check(throws([&]{ tensor::TensorTraits t(o,s); }),"a base tile with a non-positive dimension is accepted"); nsym_check(throws([&]{ tensor::TensorTraits t(s,o); }),"a tensor shape with a non-positive dimension is accepted"); nsym_reach("end"); }

// ---- C02
ENTRY(tiling){ nsym_mode("int",1); int n=nd(); pickBig(n); VI s=sdims("n",n),b=bdims(n); tensor::TensorTraits t(s,b);
    nsym_check(t.ndim==n&&t.grid.ndim==n&&(int)t.basetile_shape.size()==n&&(int)t.leftover_shape.size()==n,"lengths"); Index ne=1,ng=1;
    for(int i=0;i<n;i++){ Index g=t.grid.shape[i],lo=t.leftover_shape[i]; nsym_check(t.shape[i]==s[i]&&t.basetile_shape[i]==b[i],"shape and base tile"); ne*=s[i]; ng*=g;
        nsym_check(g>=1&&(g-1)*b[i]<s[i],"no tile is empty"); nsym_check(g*b[i]>=s[i]||g*b[i]<0,"the tiles cover the tensor"); nsym_check(lo>=1&&lo<=b[i],"the last tile is not empty nor larger than the base tile"); nsym_check((g-1)*b[i]+lo==s[i],"the tile sizes add up to the tensor size"); }
    nsym_check(t.nelems==ne,"number of elements"); nsym_check(t.grid.nelems==ng,"number of tiles"); nsym_reach("end"); }
ENTRY(tile_query){ nsym_mode("int",1); int n=nd(); pickBig(n); VI s=sdims("n",n),b=bdims(n); tensor::TensorTraits t(s,b); VI x=dims("i",n,LO,HI); VI r; bool th=throws([&]{ r=t.get_tile_shape(x); });
    bool in=true; for(int i=0;i<n;i++) in=in&(x[i]>=0)&(x[i]<=(s[i]-1)/b[i]); if(th){ nsym_check(!in,"the shape of an existing tile is refused"); nsym_reach("rejected"); return; }
    nsym_check(in,"a tile outside the grid is accepted"); nsym_assume(in); nsym_check((int)r.size()==n,"length of the tile shape"); for(int i=0;i<n;i++){ Index rest=s[i]-x[i]*b[i]; nsym_check(r[i]==(rest<b[i]?rest:b[i]),"shape of the tile: base size, remainder for the last"); } nsym_reach("end"); }
// every element lies in exactly one tile: the element's tile (x/b) holds it, and no other tile does
ENTRY(cover){ nsym_mode("int",1); int n=1+(int)nsym_pick("ndim",DEEP?3:2); pickBig(n); VI s=sdims("n",n),b=bdims(n); tensor::TensorTraits t(s,b); VI x=dims("x",n,0,HI); nsym_assume(inside(x,s)); VI k=dims("k",n,0,HI); nsym_assume(inside(k,t.grid.shape)); VI own; for(int i=0;i<n;i++) own.push_back(x[i]/b[i]);
    bool ing=inside(own,t.grid.shape); nsym_check(ing,"the tile of an element exists"); nsym_assume(ing); VI o=t.get_tile_shape(own),r=t.get_tile_shape(k); bool same=true,has=true; for(int i=0;i<n;i++){ nsym_check(x[i]-own[i]*b[i]<o[i],"the tile of an element holds it"); same=same&(k[i]==own[i]); Index q=x[i]-k[i]*b[i]; has=has&(q>=0)&(q<r[i]); } nsym_check(has==same,"an element lies in exactly one tile"); nsym_reach("end"); }
ENTRY(tiling_lengths){ nsym_mode("int",1); int n=nd(),k=(int)nsym_pick("len",6); pickBig(n); VI s=sdims("n",n); nsym_assume(k!=n); VI b(k,1); nsym_check(throws([&]{ tensor::TensorTraits t(s,b); }),"a base tile of another dimensionality is accepted"); tensor::TensorTraits t(s,s); VI r; nsym_check(throws([&]{ r=t.get_tile_shape(b); }),"a tile index of another dimensionality is accepted"); nsym_reach("end"); }

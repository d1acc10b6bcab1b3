// C02: a tensor owns one tile of the reported shape per grid position, in grid order.
#include "h.hh"
#define ENTRY(n) extern "C" void e_##n()
static Cfg anyCfg(){ Cfg c; int n=(int)nsym_pick("ndim",4); for(int i=0;i<n;i++){ Index s=1+nsym_pick("size",n<3?(DEEP?6:4):(DEEP?4:3)),b=1+nsym_pick("base",n<3?(DEEP?6:4):(DEEP?4:3)); c.shape.push_back(s); c.base.push_back(b); } return c; }
template<class F> static bool throws(F f){ try { f(); } catch(const std::exception&){ return true; } return false; }
template<class T> static void built(){ Cfg c=anyCfg(); int nd=(int)c.shape.size(); tensor::TensorTraits tr(c.shape,c.base); VI g=gridOf(c.shape,c.base); Index K=prod(g); starpu_mpi_tag_t tag=0; std::vector<int> d(K,0);
    { tensor::Tensor<T> t(tr,d,tag); nsym_check((Index)t.tile_traits.size()==K&&(Index)t.tile_handles.size()==K&&(Index)t.tile_distr.size()==K,"one tile per grid position"); nsym_check(rt_live==(int)K,"one registered handle per grid position"); nsym_check(t.shape==c.shape&&t.basetile_shape==c.base&&t.grid.shape==g,"the tensor reports the shape it was built from");
      for(Index k=0;k<K;k++){ VI ti=unlin(k,g),ts; for(int i=0;i<nd;i++){ Index r=c.shape[i]-ti[i]*c.base[i]; ts.push_back(r<c.base[i]?r:c.base[i]); } nsym_check(t.get_tile_traits(k).shape==ts,"shape of the tile"); nsym_check(t.get_tile_traits(ti).shape==ts,"shape of the tile at a grid position");
        auto u=t.get_tile(k); nsym_check(u.shape==ts,"get_tile(offset) has the shape of the tile"); auto w=t.get_tile(ti); nsym_check(w.shape==ts,"get_tile(index) has the shape of the tile");
        { auto loc=u.acquire(STARPU_W); for(Index i=0;i<prod(ts);i++) loc[i]=(T)(100*(k+1)+i); loc.release(); } }
      for(Index k=0;k<K;k++){ VI ti=unlin(k,g); auto w=t.get_tile(ti); auto loc=w.acquire(STARPU_R); for(Index i=0;i<w.nelems;i++) nsym_check(loc[i]==(T)(100*(k+1)+i),"every grid position has storage of its own"); loc.release(); auto q=starpu::Handle(t.get_tile_handle(ti)); nsym_check(static_cast<starpu_data_handle_t>(q)==static_cast<starpu_data_handle_t>(t.get_tile_handle(k)),"tiles are addressed consistently"); }
      Index o=nsym_int("offset",INT64_MIN,INT64_MAX); nsym_assume((o<0)|(o>=K)); nsym_check(throws([&]{ auto u=t.get_tile(o); }),"get_tile accepts an offset outside the grid");
      if(nd){ VI x(nd,0); int q=(int)nsym_pick("bad",nd); Index v=nsym_int("index",INT64_MIN,INT64_MAX); nsym_assume((v<0)|(v>=g[q])); x[q]=v; nsym_check(throws([&]{ auto u=t.get_tile(x); }),"get_tile accepts an index outside the grid"); nsym_check(throws([&]{ auto&u=t.get_tile_traits(x); (void)u; }),"get_tile_traits accepts an index outside the grid"); nsym_check(throws([&]{ auto&u=t.get_tile_handle(x); (void)u; }),"get_tile_handle accepts an index outside the grid"); } }
    nsym_check(rt_live==0,"every tile is unregistered with the tensor");
    int w=(int)nsym_pick("distr",3); std::vector<int> bad(w==0?K+1:w==1?K-1:2*K+3,0); nsym_check(throws([&]{ tensor::Tensor<T> t(tr,bad,tag); }),"a distribution of the wrong length is accepted"); nsym_check(rt_live==0,"a refused tensor leaves no registered tile"); nsym_reach("end"); }
extern "C" void e_tensor_float(){ built<fp32_t>(); }
extern "C" void e_tensor_double(){ built<fp64_t>(); }
extern "C" void e_tensor_index(){ built<Index>(); }
/* entries found by the driver:
ENTRY(tensor_float)
ENTRY(tensor_double)
ENTRY(tensor_index)
*/
// C18: a tile over a caller's buffer: accepted exactly when the buffer holds all elements
ENTRY(tile_buffer){ Cfg c=anyCfg(); Index n=prod(c.shape); double*buf=new double[n]; Index k=nsym_int("nelems",INT64_MIN,INT64_MAX); bool th=throws([&]{ tile::Tile<fp64_t> t(c.shape,buf,k); auto loc=t.acquire(STARPU_RW); for(Index i=0;i<n;i++) loc[i]=1.0; loc.release(); }); nsym_check(th==(k<n),"a tile accepts a buffer exactly when it is large enough");
    tile::TileTraits tr(c.shape); bool th2=throws([&]{ tile::Tile<fp64_t> t(tr,buf,k); }); nsym_check(th2==(k<n),"a tile built from traits accepts a buffer exactly when it is large enough"); nsym_check(rt_live==0,"nothing stays registered"); delete[] buf; nsym_reach("end"); }

// C33: NumPy arrays and tensors/tiles exchange their elements exactly; the class bindings expose the operations and
// fields of their name.
#define REAL_gather
#define REAL_scatter
#define REAL_copy_intersection
#define REAL_copy
#include "pystub/bindstub.hh"
#include <memory>
#include <cstring>
namespace pybind11 { struct array; template<class T,int F> struct array_t; }
// a NumPy array as the user sees it: logical contents (column-major enumeration) and the memory order it happens to have
template<class T> using SV=std::conditional_t<std::is_same<T,bool>::value,unsigned char,T>; // no packed booleans
template<class T> struct NP { VI shape; std::vector<SV<T>> v; bool fortran=true; };
template<class A> struct arr_of { static const bool yes=false; typedef void T; };
template<class X,int F> struct arr_of<pybind11::array_t<X,F>> { static const bool yes=true; static const int flags=F; typedef X T; };
static Index pos(Index i,const VI&s,bool fortran){ if(fortran) return i; VI x=unlin(i,s); Index l=0; for(size_t k=0;k<s.size();k++) l=l*s[k]+x[k]; return l; }
template<class AR> struct Conv { typedef typename arr_of<AR>::T T; AR a; bool fortran; const VI&shape;
    Conv(NP<T>&n):shape(n.shape){ int F=arr_of<AR>::flags; fortran= (F&2)?true:(F&1)?false:n.fortran; for(auto x:n.shape) a.shp.push_back(x); T*m=(T*)malloc(sizeof(T)*(n.v.size()+1)); for(size_t i=0;i<n.v.size();i++) m[pos(i,n.shape,fortran)]=n.v[i]; a.mem=m; a.fortran=fortran; }
    void back(NP<T>&n){ T*m=(T*)a.mem; for(size_t i=0;i<n.v.size();i++) n.v[i]=m[pos(i,n.shape,fortran)]; }
    ~Conv(){ free(a.mem); } };
// what the module registered for class C
template<class C> struct Reg { static std::map<std::string,std::function<void(C&)>> act; static std::string name; };
template<class C> std::map<std::string,std::function<void(C&)>> Reg<C>::act; template<class C> std::string Reg<C>::name;
template<class C,class T> struct RegA { static std::map<std::string,std::function<void(C&,NP<T>&)>> arr; };
template<class C,class T> std::map<std::string,std::function<void(C&,NP<T>&)>> RegA<C,T>::arr;
template<class C,class V> struct RegF { static std::map<std::string,std::function<V(const C&)>> fld; };
template<class C,class V> std::map<std::string,std::function<V(const C&)>> RegF<C,V>::fld;
template<class C,class R,class A> struct RegM { static std::map<std::string,std::function<R(C&,A)>> m; };
template<class C,class R,class A> std::map<std::string,std::function<R(C&,A)>> RegM<C,R,A>::m;
template<class C> struct RegI { static std::function<C*(const tensor::TensorTraits&,const std::vector<int>&,starpu_mpi_tag_t&)> mk; }; 
template<class A> constexpr bool isTT=std::is_base_of<tile::TileTraits,A>::value;
struct Hook {
    template<class C,class AR,class A0,class A1> static void addArr(const std::string&n,std::function<void(A0,A1)> f){ typedef typename arr_of<AR>::T T; RegA<C,T>::arr[n]=[f](C&c,NP<T>&x){ Conv<AR> v(x); f(c,v.a); if(!std::is_const<std::remove_reference_t<A1>>::value) v.back(x); }; }
    template<class R,class...A> static void on_function(const std::string&mod,const std::string&name,std::function<R(A...)> f){
        if constexpr(sizeof...(A)==2&&std::is_same<R,void>::value) two<A...>("::"+name,f); }
    template<class A0,class A1> static void two(const std::string&n,std::function<void(A0,A1)> f){ typedef std::decay_t<A0> C; typedef std::decay_t<A1> AR; if constexpr(arr_of<AR>::yes) addArr<C,AR,A0,A1>(n,f); }
    template<class V> static void on_attr(const std::string&,const std::string&,const V&){}
    template<class C> static void on_class(const std::string&,const std::string&n){ Reg<C>::name=n; }
    template<class C,class...A> static void on_init(const std::string&){}
    template<class C,class R,class...A> static void on_method(const std::string&,const std::string&n,std::function<R(A...)> f){
        if constexpr(sizeof...(A)==1&&std::is_same<R,void>::value) Reg<C>::act[n]=[f](C&c){ f(c); };
        else if constexpr(sizeof...(A)==2){ typedef std::tuple<A...> Tu; typedef std::tuple_element_t<1,Tu> A1; typedef std::decay_t<A1> AR; if constexpr(arr_of<AR>::yes&&std::is_same<R,void>::value) addArr<C,AR>(n,f); else RegM<C,R,AR>::m[n]=[f](C&c,AR a)->R{ return f(c,a); }; } }
    template<class C,class V,class D> static void on_field(const std::string&,const std::string&n,std::function<V(D)> f){ RegF<C,std::decay_t<V>>::fld[n]=[f](const C&c)->std::decay_t<V>{ return f(const_cast<C&>(c)); }; }
};
#include "wrappers/python/nntile/nntile_core.cc"
static void load(){ static bool done=false; if(done) return; done=true; pybind11::module_ m; m.name="nntile_core"; pymodule_init(m); }
template<class M> static auto&get(M&m,const char*n){ auto i=m.find(n); if(i==m.end()){ std::string s=std::string("the class binding offers ")+n; nsym_fail(s.c_str()); } return i->second; }
// ---- values
template<class T> struct V { static T sym(const char*n){ return (T)nsym_real(n); } static void eq(T a,T b,const char*m){ EQ(a,(double)b,m); } };
template<> struct V<Index> { static Index sym(const char*n){ return nsym_int(n,-1000000,1000000); } static void eq(Index a,Index b,const char*m){ nsym_check(a==b,m); } };
template<> struct V<unsigned char> { static void eq(unsigned char a,unsigned char b,const char*m){ nsym_check(a==b,m); } };
template<> struct V<bool> { static bool sym(const char*n){ return nsym_int(n,0,1)!=0; } static void eq(bool a,bool b,const char*m){ nsym_check(a==b,m); } };
template<class T> static NP<T> mkarr(const VI&shape,const char*n,bool orders=true){ NP<T> a; a.shape=shape; if(shape.empty()) a.shape.push_back(1); for(Index i=0;i<prod(a.shape);i++) a.v.push_back(V<T>::sym(n)); a.fortran= orders?nsym_pick("fortran",2):1; return a; }
template<class T> static NP<T> blank(const VI&shape){ NP<T> a; a.shape=shape; if(shape.empty()) a.shape.push_back(1); a.v.resize(prod(a.shape)); return a; }
template<class T,int L> static std::vector<SV<T>> contents(TH<T,L>&h){ std::vector<SV<T>> v(h.n()); h.each(STARPU_R,[&](Index i,T&p){ v[i]=p; }); return v; }
template<class X> static void same(const std::vector<X>&a,const std::vector<X>&b,const char*m){ nsym_check(a.size()==b.size(),m); if(a.size()!=b.size()) return; for(size_t i=0;i<a.size();i++) V<X>::eq(a[i],b[i],m); }
template<class T,int L> using Cls=std::conditional_t<L==0,tensor::Tensor<T>,tile::Tile<T>>;
template<class T,int L> static auto&bound(const char*n){ return get(RegA<Cls<T,L>,T>::arr,n); }
static const char*from(int L){ return nsym_pick("entry",2)?"from_array":L==0?"::tensor_from_array":"::tile_from_array"; }
static const char*to(int L){ return nsym_pick("entry",2)?"to_array":L==0?"::tensor_to_array":"::tile_to_array"; }
// bool has no arithmetic helper: operands are created through TH and filled element by element
template<class T,int L> static std::vector<SV<T>> fill(TH<T,L>&h,const char*n){ std::vector<SV<T>> v; for(Index i=0;i<h.n();i++) v.push_back(V<T>::sym(n)); h.each(STARPU_W,[&](Index i,T&p){ p=v[i]; }); return v; }
template<class T,int L> static void put_array(){ Cfg c=pickNd(0,3); TH<T,L> a(c,FREE_BASE|NOMUT); if(nsym_pick("init",2)) fill(a,"old"); auto x=mkarr<T>(c.shape,"x"); auto y=x; auto f=bound<T,L>(from(L)); INVOKE( f(a(),x) ); same(contents(a),y.v,"from_array: every element of the array arrives at its index"); same(x.v,y.v,"from_array: the array is unchanged");
    if(MODE==SCHED){ auto z=mkarr<T>(c.shape,"z"); f(a(),x); f(a(),z); rt_run_all(); same(contents(a),z.v,"from_array: the last array written stays"); } }
template<class T,int L> static void get_array(){ Cfg c=pickNd(0,3); TH<T,L> a(c,FREE_BASE|NOMUT); auto v=fill(a,"x"); auto y=blank<T>(c.shape); auto f=bound<T,L>(to(L)); if(MODE==SCHED){ auto z=mkarr<T>(c.shape,"z"); v=z.v; bound<T,L>("from_array")(a(),z); } INVOKE( f(a(),y) ); same(y.v,v,"to_array: every element arrives at its index"); same(contents(a),v,"to_array: the tensor is unchanged"); }
// an array of another shape is refused and nothing is written
template<class T,int L> static void refuse(){ Cfg c=pickNd(0,3); TH<T,L> a(c,FREE_BASE|NOMUT); auto v=fill(a,"x"); VI s=c.shape; int nd=s.size(); int how=nsym_pick("how",2+2*(nd?nd:1)); if(nd==0) s.push_back(1);
    if(how==0) s.push_back(nsym_pick("extra",2)+1); else if(how==1){ if(nd<=1) nsym_assume(false); s.pop_back(); } else { int d=(how-2)/2; s[d]+= how%2?1:-1; if(s[d]<0) nsym_assume(false); }
    int live=rt_live; auto x=mkarr<T>(s,"y",false); auto w=x.v; bool put=nsym_pick("put",2), thr=false; try { if(put) bound<T,L>(from(L))(a(),x); else bound<T,L>(to(L))(a(),x); } catch(std::exception&){ thr=true; } rt_run_all();
    nsym_check(thr,"an array of another shape is accepted"); same(contents(a),v,"a refused exchange leaves the tensor unchanged"); same(x.v,w,"a refused exchange leaves the array unchanged"); nsym_check(rt_live==live,"a refused exchange leaks a data handle"); }
// class bindings other than array exchange
template<class T> static void members(){ typedef tensor::Tensor<T> C; Cfg c=pickNd(0,3); static const char*N=sizeof(T)==8?(std::is_same<T,Index>::value?"Tensor_int64":"Tensor_fp64"):sizeof(T)==4?"Tensor_fp32":"Tensor_bool"; nsym_check(Reg<C>::name==N,"the class of every element type has the name of that type");
    tensor::TensorTraits tr(c.shape,c.base); std::vector<int> d(tr.grid.nelems,0); starpu_mpi_tag_t tag=nsym_int("tag",0,1000),t0=tag; C*t=new C(tr,d,tag);
    (void)t0; nsym_check(get(RegF<C,starpu_mpi_tag_t>::fld,"next_tag")(*t)==t->next_tag,"next_tag: first tag that is not in use"); nsym_check(t->next_tag>=t0,"next_tag: tags do not go back"); nsym_check(get(RegF<C,std::vector<int>>::fld,"distribution")(*t)==d,"distribution: owner of every tile");
    VI g=gridOf(c.shape,c.base); nsym_check(get(RegF<tensor::TensorTraits,VI>::fld,"basetile_shape")(*t)==c.base,"basetile_shape"); nsym_check(get(RegF<tensor::TensorTraits,tile::TileTraits>::fld,"grid")(*t).shape==g,"grid"); nsym_check(get(RegF<tile::TileTraits,VI>::fld,"shape")(*t)==c.shape,"shape"); nsym_check(get(RegF<tile::TileTraits,Index>::fld,"ndim")(*t)==(Index)c.shape.size(),"ndim"); nsym_check(get(RegF<tile::TileTraits,Index>::fld,"nelems")(*t)==prod(c.shape),"nelems");
    VI st; Index m=1; for(auto s:c.shape){ st.push_back(m); m*=s; } nsym_check(get(RegF<tile::TileTraits,VI>::fld,"stride")(*t)==st,"stride");
    NP<T> x=mkarr<T>(c.shape,"x"),y=blank<T>(c.shape); get(RegA<C,T>::arr,"from_array")(*t,x);
    const char*A=nsym_pick("hint",2)?"wont_use":"invalidate_submit"; get(Reg<C>::act,A)(*t); get(RegA<C,T>::arr,"to_array")(*t,y); same(y.v,x.v,"wont_use and invalidate_submit keep the contents");
    for(Index i=0;i<tr.grid.nelems;i++){ auto u=get(RegM<C,tile::Tile<T>,Index>::m,"get_tile")(*t,i); VI ti=unlin(i,g),ts; for(size_t k=0;k<ti.size();k++){ Index r=c.shape[k]-ti[k]*c.base[k]; ts.push_back(r<c.base[k]?r:c.base[k]); } nsym_check(u.shape==ts,"get_tile: shape of the tile"); }
    get(Reg<C>::act,"unregister")(*t); rt_run_all(); nsym_check(rt_live==0,"unregister releases every tile"); delete t; }
#define ENTRY(n) static void sc_##n(); extern "C" void e_##n(){ rt_init_all(); mode_setup(); load(); sc_##n(); rt_finish(); nsym_reach(#n); } static void sc_##n()
#define TYPES(F,L) do { int k=nsym_pick("type",L==0?4:2); if(k==0) F<float,L>(); else if(k==1) F<double,L>(); else if constexpr(L==0){ if(k==2) F<Index,L>(); else F<bool,L>(); } } while(0)
ENTRY(tensor_from){ TYPES(put_array,0); }
ENTRY(tensor_to){ TYPES(get_array,0); }
ENTRY(tile_from){ TYPES(put_array,1); }
ENTRY(tile_to){ TYPES(get_array,1); }
ENTRY(tensor_refuse){ if(MODE==SCHED) return; TYPES(refuse,0); }
ENTRY(tile_refuse){ if(MODE==SCHED) return; TYPES(refuse,1); }
ENTRY(tensor_members){ if(MODE==SCHED) return; int k=nsym_pick("type",4); if(k==0) members<float>(); else if(k==1) members<double>(); else if(k==2) members<Index>(); else members<bool>(); }

// set_reduction_*: contributions made in reduction mode are combined by the operation of that name
static void contribute(void*b[],void*a){ auto*v=(struct starpu_variable_interface*)b[0]; double*p=(double*)v->ptr; double*c=(double*)a; for(int i=0;i<2;i++) p[i]=c[i]; }
ENTRY(tensor_reduction){ if(MODE==SCHED) return; rt_redux=2; int k=nsym_pick("reduction",3); typedef tensor::Tensor<double> C; starpu_mpi_tag_t tag=0; tensor::TensorTraits tr(VI(1,2),VI(1,2)); C*t=new C(tr,std::vector<int>(1,0),tag);
    static struct starpu_codelet cl; memset(&cl,0,sizeof cl); cl.where=STARPU_CPU; cl.cpu_funcs[0]=contribute; cl.name="contribute"; cl.nbuffers=1; cl.modes[0]=STARPU_REDUX; 
    static const char*N[]={"set_reduction_add","set_reduction_hypot","set_reduction_maxsumexp"}; get(Reg<C>::act,N[k])(*t);
    double x0=nsym_real("x0"),x1=nsym_real("x1"),y0=nsym_real("y0"),y1=nsym_real("y1"); NP<double> init,res=blank<double>(VI(1,2)); init.shape=VI(1,2); init.v.resize(2);
    if(k==0){ init.v[0]=nsym_real("z0"); init.v[1]=nsym_real("z1"); } else if(k==1){ x0=3;y0=4;x1=12;y1=5; init.v[0]=0; init.v[1]=84; } else { x0=1; x1=2; y0=1; y1=3; init.v[0]=1; init.v[1]=4; }
    get(RegA<C,double>::arr,"from_array")(*t,init);
    for(int i=0;i<2;i++){ double*a=(double*)malloc(2*sizeof(double)); a[0]=i?y0:x0; a[1]=i?y1:x1; rt_acc_budget=0; starpu_task_insert(&cl,STARPU_REDUX,(starpu_data_handle_t)t->get_tile_handle(0),STARPU_CL_ARGS,a,2*sizeof(double),0); }
    get(RegA<C,double>::arr,"to_array")(*t,res); rt_run_all();
    if(k==0){ nsym_eq(res.v[0],init.v[0]+x0+y0,"set_reduction_add: contributions are added"); nsym_eq(res.v[1],init.v[1]+x1+y1,"set_reduction_add: contributions are added"); }
    else if(k==1){ nsym_eq(res.v[0],5,"set_reduction_hypot: contributions are combined by the Euclidean norm"); nsym_eq(res.v[1],85,"set_reduction_hypot: contributions are combined by the Euclidean norm"); }
    else { nsym_eq(res.v[0],1,"set_reduction_maxsumexp: contributions are combined as maximum and sum of exponents"); nsym_eq(res.v[1],9,"set_reduction_maxsumexp: contributions are combined as maximum and sum of exponents"); }
    delete t; }

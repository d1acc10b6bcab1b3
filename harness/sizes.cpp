// C24: sizes on their way from tensors and tiles to the kernels and to the numerical library. Sizes are symbolic 64-bit
// integers; the kernels and the library are replaced by stand-ins that record the sizes, offsets and strides they are given.
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
#include <nntile/starpu/gemm.hh>
#include <nntile/starpu/axpy.hh>
#include <nntile/starpu/nrm2.hh>
#include <nntile/starpu/scal_inplace.hh>
#include <cstring>
#include "kernels.inc"
static const Index IMAX=2147483647;
static int g_big; // one dimension may be much larger than the others
static Index capd(int nd,int i){ if(g_big<0){ static const int C[]={0,56,28,19,14}; return (Index)1<<C[nd]; } static const int L[]={0,56,46,38,36},S[]={0,56,10,9,7}; return (Index)1<<(i==g_big?L[nd]:S[nd]); }
static VI sdims(int nd){ g_big= nd<2?-1:(int)nsym_pick("big",nd+1)-1; VI r; for(int i=0;i<nd;i++) r.push_back(nsym_int("n",1,capd(nd,i))); return r; }
template<class T,int L> struct SV { VI shape; tensor::Tensor<T>*t=nullptr; tile::Tile<T>*u=nullptr;
    SV(const VI&s):shape(s){ if(L==0){ starpu_mpi_tag_t tag=0; tensor::TensorTraits tr(s,s); std::vector<int> d(1,0); t=new tensor::Tensor<T>(tr,d,tag); } else u=new tile::Tile<T>(s);
        starpu_data_handle_t h= L==0?static_cast<starpu_data_handle_t>(t->get_tile_handle(0)):static_cast<starpu_data_handle_t>(*u); nsym_check(rt_size(h)==prod(s)*(Index)sizeof(T),"the storage of a tile has the size of its elements"); { starpu_data_acquire(h,STARPU_W); starpu_data_release(h); } }
    ~SV(){ delete t; delete u; } SV(const SV&)=delete; auto&operator()() const { if constexpr(L==0) return *t; else return *u; } };
static void begin(){ nsym_mode("int",1); rt_init_all(); rt_virtual=1; rt_capture=1; rt_check_access=0; rt_footprints=1; g_async=0; rt_ncap=rt_ncalls=0; }
// the recorded call with these arguments: the same set of values, none narrowed
static void seen(int call,const VI&e){ VI r; for(int i=0;i<rt_ncap;i++) if(rt_capcall[i]==call) r.push_back(rt_caps[i]);
    for(auto x:e){ bool any=false; for(auto y:r) any=any|(x==y); nsym_check(any,"a size, offset or stride does not reach the kernel unchanged"); }
    for(auto y:r){ bool any=false; for(auto x:e) any=any|(x==y); nsym_check(any,"the kernel is given a size, offset or stride that is none of the operation's"); } }
static void sizes(const VI&e){ nsym_check(rt_ncalls>=1,"no kernel was called"); if(rt_ncalls<1) return; seen(rt_ncalls-1,e); }
template<class F> static bool throws(F f){ try { f(); } catch(const std::exception&){ return true; } rt_run_all(); return false; }
#define RUN(...) do { bool th=throws([&]{ __VA_ARGS__; }); nsym_check(!th,"an operation on sizes it can handle is refused"); nsym_assume(!th); } while(0)
#define CALL(name,...) do { if constexpr(L==0) RUN(tensor::name<T>(__VA_ARGS__)); else RUN(tile::name<T>(__VA_ARGS__)); } while(0)
#define CALL2(name,targs,uargs) do { if constexpr(L==0) RUN(tensor::name<T> targs); else RUN(tile::name<T> uargs); } while(0)
#define SC(name) template<class T,int L> static void sz_##name(); ENTRY(name){ begin(); int v=(int)nsym_pick("variant",DEEP?4:2); if(v==0) sz_##name<float,0>(); else if(v==1) sz_##name<double,1>(); else if(v==2) sz_##name<double,0>(); else sz_##name<float,1>(); rt_finish(); nsym_reach(#name); } template<class T,int L> static void sz_##name()
#define ENTRY(n) extern "C" void e_##n()
static VI shapeNd(){ return sdims(1+(int)nsym_pick("ndim",DEEP?4:3)); }
static Index before(const VI&s,Index a){ return prod(sub(s,0,a)); }
static Index after(const VI&s,Index a){ return prod(sub(s,a+1,s.size())); }
static VI withFront(Index f,VI s){ s.insert(s.begin(),f); return s; }

/* SCENARIO list for the driver:
ENTRY(elementwise)
ENTRY(slices)
ENTRY(fibers)
ENTRY(special)
ENTRY(copies)
ENTRY(library)
ENTRY(gemm)
ENTRY(flash)
ENTRY(submit_gemm)
ENTRY(submit_vector)
*/
SC(elementwise){ VI s=shapeNd(); Index n=prod(s); SV<T,L> a(s),b(s),c(s),d(s); T x=T(2),y=T(3); int op=(int)nsym_pick("op",27); switch(op){
    case 0: CALL(add,x,a(),y,b()); break; case 1: CALL(prod,a(),b()); break; case 2: CALL(maximum,a(),b()); break; case 3: CALL(hypot,x,a(),y,b()); break;
    case 4: CALL(scal,x,a(),b()); break; case 5: CALL(sqrt,a(),b()); break; case 6: CALL(sqrt_inplace,a()); break; case 7: CALL(pow,x,y,a()); break; case 8: CALL(fill,x,a()); break; case 9: CALL(add_scalar,x,y,a()); break;
    case 10: CALL(relu,a()); break; case 11: CALL(drelu,a()); break; case 12: CALL(gelu,a()); break; case 13: CALL(dgelu,a()); break; case 14: CALL(gelutanh,a(),b()); break; case 15: CALL(gelutanh_inplace,a()); break; case 16: CALL(dgelutanh,a()); break;
    case 17: CALL(relu_forward,a(),b()); break; case 18: CALL(relu_backward,a(),b(),c()); break; case 19: CALL(gelu_backward,a(),b(),c()); break; case 20: CALL(gelutanh_backward,a(),b(),c()); break; case 21: CALL(addcdiv,x,y,a(),b(),c()); break;
    case 22: CALL(adam_step,Index(7),x,y,x,y,x,a(),b(),c(),d()); break; case 23: CALL(adamw_step,Index(7),x,y,x,y,x,a(),b(),c(),d()); break;
    case 24: { SV<T,L> m(withFront(2,s)); CALL(logsumexp,m(),a()); break; }
    case 25: if constexpr(L==0) RUN(tensor::hypot_scalar_inverse<T>(x,y,a())); else nsym_assume(false); break;
    default: { VI ms=s; Index bt=L==0?nsym_pick("bt",2):1; if(L==0&&bt>=(Index)s.size()) nsym_assume(false); if(bt==0&&L==1) nsym_assume(false); for(Index i=0;i<bt;i++) ms.pop_back(); Index cols= bt?s.back():1; if(ms.empty()) nsym_assume(false); SV<bool_t,L> m(ms); CALL2(mask_scalar,(m(),x,a(),bt),(m(),x,a())); sizes({n/cols,cols}); return; } }
    if(op==22||op==23) sizes({n,7}); else sizes({n}); }
SC(slices){ VI s=shapeNd(); Index ax=nsym_pick("axis",s.size()); Index m=before(s,ax),n=after(s,ax),k=s[ax]; VI t=without(s,ax),st=withFront(2,t); T x=T(2),y=T(3); int op=(int)nsym_pick("op",12); SV<T,L> a(s),b(op>=7&&op<=10?st:t),a2(s); switch(op){
    case 0: CALL2(sum_slice,(x,a(),y,b(),ax,0),(x,a(),y,b(),ax)); break; case 1: CALL2(norm_slice,(x,a(),y,b(),ax,0),(x,a(),y,b(),ax)); break; case 2: CALL2(sumprod_slice,(x,a(),a2(),y,b(),ax,0),(x,a(),a2(),y,b(),ax)); break;
    case 3: CALL(add_slice,x,b(),y,a(),ax); break; case 4: CALL(add_slice3,x,b(),y,a(),a2(),ax); break; case 5: CALL(prod_slice,b(),x,a(),ax); break; case 6: nsym_assume(false); break;
    case 7: CALL2(maxsumexp,(a(),b(),ax,0),(a(),b(),ax)); break; case 8: CALL(softmax,b(),a(),x,a2(),ax); break; case 9: CALL(softmax_inplace,b(),x,a(),ax); break; case 10: CALL(sumnorm,a(),b(),ax); break;
    default: { SV<T,L> gb(VI{2}),sn(st); CALL(normalize,gb(),sn(),a(),Index(4611686018427387904),y,ax); sizes({m,n,k,Index(4611686018427387904)}); return; } }
    sizes({m,n,k}); }
SC(fibers){ VI s=shapeNd(); Index nd=s.size(),ax=nsym_pick("axis",nd),bt=nsym_pick("batch",2); if(ax+bt>=nd&&bt) nsym_assume(false); VI mid=sub(s,ax+1,nd-bt); Index m=before(s,ax),n=prod(mid),k=s[ax],B=bt?s.back():1; VI f{k}; if(bt) f.push_back(B); T x=T(2),y=T(3); int op=(int)nsym_pick("op",5); if(op>=2&&bt) nsym_assume(false); SV<T,L> a(s),b(f),a2(s); switch(op){
    case 0: CALL2(sum_fiber,(x,a(),y,b(),ax,bt,0),(x,a(),y,b(),ax,bt)); break; case 1: CALL(add_fiber,x,b(),y,a(),ax,bt); break;
    case 2: CALL2(sumprod_fiber,(x,a(),a2(),y,b(),ax,0),(x,a(),a2(),y,b(),ax)); sizes({m,n,k}); return; case 3: CALL(prod_fiber,b(),x,a(),ax); sizes({m,n,k}); return; default: CALL(prod_fiber3,b(),x,a(),a2(),ax); sizes({m,n,k}); return; }
    sizes({m,n,k,B}); }
SC(special){ T x=T(2); int op=(int)nsym_pick("op",5); switch(op){
    case 0: { VI s=sdims(3); Index ax=nsym_pick("axis",3); VI is=without(s,ax); Index m=before(s,ax),n=after(s,ax),k=s[ax],voc=nsym_int("voc",1,1<<20); if constexpr(L==0){ SV<Index,L> ix(is); SV<T,L> v(VI{k,voc}),e(s); int bw=(int)nsym_pick("backward",2); if(bw) RUN(tensor::embedding_backward<T>(ix(),e(),v(),ax,0)); else RUN(tensor::embedding<T>(ix(),v(),e(),ax)); sizes({m,n,k,0,k}); } else nsym_assume(false); break; }
    case 1: { VI s=sdims(2+(int)nsym_pick("nd",2)); VI lab=sub(s,1,s.size()); SV<Index,L> ix(lab); SV<T,L> d(s); CALL(subtract_indexed_outputs,x,ix(),d()); sizes({prod(lab),s[0]}); break; }
    case 2: { VI s=sdims(2+(int)nsym_pick("nd",2)); VI lab=sub(s,1,s.size()); SV<Index,L> ix(lab); SV<T,L> d(s),ls(lab),v(VI{}); CALL(total_sum_accum,x,ls(),d(),ix(),v()); sizes({prod(lab),s[0]}); break; }
    case 3: if constexpr(L==0){ VI s=sdims(2+(int)nsym_pick("nd",2)); Index k=1+nsym_pick("split",s.size()-1); VI r=cat(sub(s,k,s.size()),sub(s,0,k)); SV<T,L> a(s),b(r); RUN(tensor::transpose<T>(x,a(),b(),k)); sizes({prod(sub(s,0,k)),prod(sub(s,k,s.size()))}); } else nsym_assume(false); break;
    default: { int nd=1+(int)nsym_pick("nd",3); VI s=sdims(nd),st,us; for(int i=0;i<nd;i++){ st.push_back(nsym_int("st",0,1<<12)); us.push_back(s[i]+st[i]+nsym_int("pad",0,1<<12)); } SV<T,L> a(s); CALL(randn,a(),st,us,(unsigned long long)11,T(0),T(1)); VI e=cat(cat(cat(VI{(Index)nd,prod(s)},st),s),us); Index q=1; for(int i=0;i<nd;i++){ e.push_back(q); q*=s[i]; } sizes(e); } } }
SC(copies){ int nd=1+(int)nsym_pick("nd",2); VI s=sdims(nd),d; for(int i=0;i<nd;i++) d.push_back(nsym_int("m",1,capd(nd,i))); VI so,dof; Index R=(Index)1<<45; for(int i=0;i<nd;i++) so.push_back(nsym_int("so",0,R)); for(int i=0;i<nd;i++) dof.push_back(nsym_int("do",0,R)); SV<T,L> a(s),b(d); SV<Index,L> scr(VI{2*nd});
    rt_copied=-1; if constexpr(L==0) RUN(tensor::copy_intersection<T>(a(),so,b(),dof)); else RUN(tile::copy_intersection<T>(a(),so,b(),dof,scr()));
    bool empty=false,same=true; VI lo(nd),sz(nd); for(int i=0;i<nd;i++){ Index l=so[i]>dof[i]?so[i]:dof[i],h1=so[i]+s[i],h2=dof[i]+d[i],h=h1<h2?h1:h2; lo[i]=l; sz[i]=h-l; empty=empty|(h<=l); same=same&(so[i]==dof[i])&(s[i]==d[i]); }
    if(rt_copied>=0){ nsym_check(same,"tiles that differ are copied as a whole"); nsym_check(rt_copied==prod(s)*(Index)sizeof(T),"bytes copied"); return; }
    if(rt_ncalls==0){ nsym_check(empty,"tiles that intersect are not copied"); return; }
    nsym_check(!empty,"tiles that do not intersect are copied"); nsym_assume(!empty); VI e{(Index)nd}; Index q=1; for(int i=0;i<nd;i++){ e.push_back(lo[i]-so[i]); e.push_back(q); q*=s[i]; } q=1; for(int i=0;i<nd;i++){ e.push_back(lo[i]-dof[i]); e.push_back(q); e.push_back(sz[i]); q*=d[i]; } sizes(e); }
// ---- the numerical library: sizes that fit are passed unchanged, others are refused before anything is submitted
static void lib(bool fits,bool th,const VI&e,int before){ nsym_check(!fits||!th,"sizes that fit the library are refused"); if(th){ nsym_check(rt_nsubmitted==before,"a task was submitted although the size does not fit"); return; } rt_run_all(); nsym_check(rt_ncalls>=1,"the library was not called"); if(rt_ncalls) seen(0,e); }
SC(library){ VI s=shapeNd(); Index n=prod(s); SV<T,L> a(s),b(s); T x=T(2); int op=(int)nsym_pick("op",4),bef=rt_nsubmitted; bool th=false; SV<T,L> al(VI{}),t(L==0?VI(s.size(),1):VI{}),r(VI{}); 
    switch(op){ case 0: if constexpr(L==0) th=throws([&]{ tensor::axpy<T>(x,a(),b()); }); else th=throws([&]{ tile::axpy<T>(x,a(),b()); }); break; case 1: if constexpr(L==0) th=throws([&]{ tensor::axpy<T>(al(),a(),b()); }); else th=throws([&]{ tile::axpy<T>(al(),a(),b()); }); break;
    case 2: if constexpr(L==0) th=throws([&]{ tensor::scal_inplace<T>(x,a()); }); else th=throws([&]{ tile::scal_inplace<T>(x,a()); }); break; default: if constexpr(L==0) th=throws([&]{ tensor::nrm2<T>(x,a(),x,r(),t()); }); else th=throws([&]{ tile::nrm2<T>(x,a(),x,r(),t()); }); if(th){ nsym_check(n>IMAX,"sizes that fit the library are refused"); return; } }
    lib(n<=IMAX,th,{n},bef); }
SC(gemm){ int ta=(int)nsym_pick("ta",2),tb=(int)nsym_pick("tb",2),bt=(int)nsym_pick("batch",2); int km=(int)nsym_pick("kd",2); TransOp TA(ta?TransOp::Trans:TransOp::NoTrans),TB(tb?TransOp::Trans:TransOp::NoTrans);
    VI d=sdims(3+km),m{d[0]},n{d[1]},k=sub(d,2,d.size()),bb; if(bt) bb.push_back(2); SV<T,L> A(cat(ta?cat(k,m):cat(m,k),bb)),B(cat(tb?cat(n,k):cat(k,n),bb)),Cc(cat(cat(m,n),bb)); Index M=m[0],N=n[0],K=prod(k); int bef=rt_nsubmitted; bool th; T x=T(2);
    if constexpr(L==0) th=throws([&]{ tensor::gemm<T,T>(x,TA,A(),TB,B(),x,Cc(),1+km,bt,0); }); else th=throws([&]{ tile::gemm<T,T>(x,TA,A(),TB,B(),x,Cc(),1+km,bt); });
    Index la=ta?K:M,lb=tb?N:K; lib((M<=IMAX)&(N<=IMAX)&(K<=IMAX),th,{M,N,K,la,lb,M},bef); if(!th){ nsym_check(rt_ncalls==1+bt,"one library call per batch entry"); if(bt&&rt_ncalls==2){ seen(1,{M,N,K,la,lb,M}); nsym_check(rt_capptr[3]-rt_capptr[0]==M*K*(Index)sizeof(T),"offset of the second matrix of A"); nsym_check(rt_capptr[4]-rt_capptr[1]==N*K*(Index)sizeof(T),"offset of the second matrix of B"); nsym_check(rt_capptr[5]-rt_capptr[2]==M*N*(Index)sizeof(T),"offset of the second matrix of C"); } } }
// the submission functions, called as the tile level calls them, with any 64-bit size
template<class T> static starpu::VariableHandle*vh(){ auto*h=new starpu::VariableHandle(64,STARPU_RW); starpu_data_handle_t x=static_cast<starpu_data_handle_t>(*h); starpu_data_acquire(x,STARPU_W); starpu_data_release(x); return h; }
SC(submit_gemm){ if(L==1) nsym_assume(false); auto*A=vh<T>(),*B=vh<T>(),*C=vh<T>(); int ta=(int)nsym_pick("ta",2),tb=(int)nsym_pick("tb",2); TransOp TA(ta?TransOp::Trans:TransOp::NoTrans),TB(tb?TransOp::Trans:TransOp::NoTrans); Index M=nsym_int("m",1,INT64_MAX),N=nsym_int("n",1,INT64_MAX),K=nsym_int("k",1,INT64_MAX); int bef=rt_nsubmitted; T x=T(2);
    bool fits=(M<=IMAX)&(N<=IMAX)&(K<=IMAX); bool th=false; try { starpu::gemm::submit<T,T>(TA,TB,M,N,K,0,x,*A,*B,x,*C,0); } catch(const std::exception&){ th=true; } nsym_check(th||fits,"a size that does not fit the library is accepted"); nsym_check(!th||!fits,"sizes that fit the library are refused"); if(th) nsym_check(rt_nsubmitted==bef,"a task was submitted although the size does not fit"); rt_run_all(); delete A; delete B; delete C; }
SC(submit_vector){ if(L==1) nsym_assume(false); auto*A=vh<T>(),*B=vh<T>(),*C=vh<T>(); Index n=nsym_int("n",1,INT64_MAX); int op=(int)nsym_pick("op",4),bef=rt_nsubmitted; T x=T(2);
    bool th=throws([&]{ switch(op){ case 0: starpu::axpy::submit<T>(x,n,*A,*B); break; case 1: starpu::axpy::submit<T>(*C,n,*A,*B); break; case 2: starpu::nrm2::submit<T>(n,*A,*B); break; default: starpu::scal_inplace::submit<T>(x,n,*A); } }); nsym_check(th||n<=IMAX,"a size that does not fit the library is accepted"); lib(n<=IMAX,th,{n},bef); delete A; delete B; delete C; }
SC(flash){ if(L==1){ nsym_assume(false); } else { Index H=nsym_int("head",1,(Index)1<<38),S=nsym_int("seq",1,(Index)1<<20),B=1; int op=(int)nsym_pick("op",3); VI q{H,S,B,1}; SV<T,0> Q(q),K(q),V(q),D(q); SV<bool_t,0> M(VI{S,S}); SV<T,0> ms(VI{2,S,B,1}),tmp(VI{S,S,B,1}); int bef=rt_nsubmitted; bool th=false;
    if(op==0) th=throws([&]{ tensor::flash_maxsumexp<T>(Q(),K(),M(),ms(),tmp(),0); }); else if(op==1) th=throws([&]{ tensor::flash_softmax_gemm<T>(Q(),K(),V(),M(),ms(),D(),tmp(),0); });
    else { SV<T,0> dQ(q),dK(q),dV(q),tg(VI{S,S,B,1}),ts(VI{S,B,1}); th=throws([&]{ tensor::flash_softmax_gemm_backward<T>(Q(),dQ(),K(),dK(),V(),dV(),M(),ms(),D(),tmp(),tg(),ts(),0); }); }
    bool fits=(H<=IMAX)&(S<=IMAX); nsym_check(!th||!fits,"sizes that fit the library are refused"); if(th){ if(op!=2) nsym_check(rt_nsubmitted<=bef+1,"a task was submitted although the size does not fit"); return; }
    int nb=0; for(int c=0;c<rt_ncalls;c++) if(!strcmp(rt_capname[c],"blas gemm")){ nb++; for(int i=0;i<rt_ncap;i++) if(rt_capcall[i]==c) nsym_check((rt_caps[i]==H)|(rt_caps[i]==S),"the library is given a size that is none of the operation's"); } nsym_check(nb>=1,"the library was not called"); } }

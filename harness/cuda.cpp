// C30: the CUDA implementation of a kernel leaves the same values as the CPU implementation. The CUDA sources are compiled
// with the stand-in of rt/cudastub; both functions run on the same symbolic data.
#include "h.hh"
#include <nntile/kernel.hh>
#include <cuda_runtime.h>
#include "cudadecl.inc"
uint3v threadIdx,blockIdx; dim3 blockDim,gridDim; int rt_cuda_order=0;
static bool g_fiber=false; static rt_body g_body; static void*g_ctx;
static void setThread(int64_t q){ threadIdx.x=q%blockDim.x; threadIdx.y=q/blockDim.x%blockDim.y; threadIdx.z=q/blockDim.x/blockDim.y; }
static void threadBody(int64_t){ g_body(g_ctx); }
extern "C" void rt_cuda_barrier(void){ if(!g_fiber){ nsym_note("barrier in a kernel that is run without"); nsym_assume(false); } nsym_fiber_yield(); }
void rt_block(long nt,rt_body f,void*ctx){ if(g_fiber){ g_body=f; g_ctx=ctx; nsym_fibers(nt,threadBody,setThread,rt_cuda_order); } else for(long q=0;q<nt;q++){ setThread(rt_cuda_order?nt-1-q:q); f(ctx); } }
extern "C" void rt_cuda_launch(dim3 g,dim3 b,size_t shared){ nsym_check(g.x>0&&g.y>0&&g.z>0&&b.x>0&&b.y>0&&b.z>0,"launch with an empty grid or block"); nsym_check((long)b.x*b.y*b.z<=1024&&b.x<=1024&&b.y<=1024&&b.z<=64,"launch with more threads per block than the device has"); }
// data given to both implementations
enum { ANY, POS, UNIT, FIXED };
template<class T> struct B2 { std::vector<T> a,b; 
    B2(Index n,const char*nm,int kind=ANY):a(n){ for(Index i=0;i<n;i++){ bool s= n<=12||i==0||i==n-1||i==255||i==256; a[i]= s&&kind!=FIXED ? (T)(kind==POS?nsym_pos(nm):kind==UNIT?nsym_real_in(nm,0.1,1):nsym_real(nm)) : (T)(kind==ANY||kind==FIXED?(double)((i*7)%11)-5:1.+(i%5)); } b=a; }
    void same(const char*m){ for(size_t i=0;i<a.size();i++) EQ(b[i],(double)a[i],m); } };
template<class I> struct I2 { std::vector<I> v; const I*data()const{ return v.data(); } };
template<class T> static T sc(const char*n){ return (T)nsym_real(n); }
template<class T> static T un(const char*n){ return (T)nsym_real_in(n,0.1,0.9); }
static Index elems(){ static const int N[]={3,1,258}; return N[nsym_pick("nelems",3)]; }
static void mnk(Index&m,Index&n,Index&k){ static const int D[][3]={{2,2,3},{1,1,1},{3,1,2},{1,3,2},{9,2,17},{2,17,9},{35,2,3},{2,33,2}}; int i=(int)nsym_pick("mnk",DEEP?8:6); m=D[i][0]; n=D[i][1]; k=D[i][2]; }
static std::vector<Index> labels(Index n,Index hi){ std::vector<Index> l; for(Index i=0;i<n;i++) l.push_back(i<2?nsym_pick("label",hi):(i*5)%hi); return l; }
#define KSC(name) KSC_(name,false)
#define KSC_(name,barriers) template<class T> static void sc_##name(); extern "C" void e_##name(){ g_fiber=barriers; rt_cuda_order=(int)nsym_pick("order",2); if(nsym_pick("double",2)==0) sc_##name<float>(); else { nsym_mode("wide",1); sc_##name<double>(); } nsym_reach(#name); } template<class T> static void sc_##name()
#define BSC(name) KSC_(name,true)
#define CPU(name,...) kernel::name::cpu<T>(__VA_ARGS__)
#define GPU(name,...) kernel::name::cuda<T>(nullptr,__VA_ARGS__)
#define INPL(name) KSC(name){ Index n=elems(); B2<T> d(n,"x"); CPU(name,n,d.a.data()); GPU(name,n,d.b.data()); d.same(#name ": CUDA and CPU differ"); }
#define SRCDST(name) KSC(name){ Index n=elems(); B2<T> s(n,"x"),d(n,"y"); CPU(name,n,s.a.data(),d.a.data()); GPU(name,n,s.b.data(),d.b.data()); d.same(#name ": CUDA and CPU differ"); s.same(#name ": source changed"); }
#define BACKW(name) KSC(name){ Index n=elems(); B2<T> x(n,"x"),y(n,"dy"),d(n,"dx"); CPU(name,n,x.a.data(),y.a.data(),d.a.data()); GPU(name,n,x.b.data(),y.b.data(),d.b.data()); d.same(#name ": CUDA and CPU differ"); x.same(#name ": source changed"); y.same(#name ": source changed"); }
INPL(relu)
INPL(drelu)
INPL(gelu)
INPL(dgelu)
INPL(dgelutanh)
INPL(gelutanh_inplace)
SRCDST(gelutanh)
SRCDST(relu_forward)
SRCDST(maximum)
SRCDST(prod)
BACKW(relu_backward)
BACKW(gelu_backward)
BACKW(gelutanh_backward)
KSC(sqrt){ Index n=elems(); B2<T> s(n,"x",POS),d(n,"y"); CPU(sqrt,n,s.a.data(),d.a.data()); GPU(sqrt,n,s.b.data(),d.b.data()); d.same("sqrt: CUDA and CPU differ"); s.same("sqrt: source changed"); }
KSC(sqrt_inplace){ Index n=elems(); B2<T> d(n,"x",POS); CPU(sqrt_inplace,n,d.a.data()); GPU(sqrt_inplace,n,d.b.data()); d.same("sqrt_inplace: CUDA and CPU differ"); }
KSC(accumulate_maxsumexp){ Index n=2; B2<T> s(2*n,"x"),d(2*n,"y"); for(Index i=0;i<n;i++){ T p=(T)nsym_pos("sum1"),q=(T)nsym_pos("sum2"); s.a[2*i+1]=s.b[2*i+1]=nsym_pick("empty1",2)?0:p; d.a[2*i+1]=d.b[2*i+1]=nsym_pick("empty2",2)?0:q; } CPU(accumulate_maxsumexp,n,s.a.data(),d.a.data()); GPU(accumulate_maxsumexp,n,s.b.data(),d.b.data()); d.same("accumulate_maxsumexp: CUDA and CPU differ"); s.same("accumulate_maxsumexp: source changed"); }
#define ADAM(name) KSC(name){ Index n=nsym_pick("nelems",2)?258:1,it=1+nsym_pick("iter",3); bool sy=n==1; T b1=sy?un<T>("beta1"):T(0.75),b2=sy?un<T>("beta2"):T(0.75),eps=sy?un<T>("eps"):T(0.5),lr=sy?un<T>("lr"):T(0.25),wd=nsym_pick("wd",2)?(sy?un<T>("wd"):T(0.125)):T(0); B2<T> g(n,"g",n>1?FIXED:ANY),m(n,"m",n>1?FIXED:ANY),v(n,"v",n>1?FIXED:POS),p(n,"p",n>1?FIXED:ANY); CPU(name,it,n,b1,b2,eps,lr,wd,g.a.data(),m.a.data(),v.a.data(),p.a.data()); GPU(name,it,n,b1,b2,eps,lr,wd,g.b.data(),m.b.data(),v.b.data(),p.b.data()); g.same(#name ": CUDA and CPU gradients differ"); m.same(#name ": CUDA and CPU first moments differ"); v.same(#name ": CUDA and CPU second moments differ"); p.same(#name ": CUDA and CPU parameters differ"); }
ADAM(adam_step)
ADAM(adamw_step)
KSC(add){ Index n=elems(); T al=sc<T>("alpha"),be=sc<T>("beta"); B2<T> s(n,"x"),d(n,"y"); CPU(add,n,al,s.a.data(),be,d.a.data()); GPU(add,n,al,s.b.data(),be,d.b.data()); d.same("add: CUDA and CPU differ"); s.same("add: source changed"); }
KSC(hypot){ Index n=elems(); T al=sc<T>("alpha"),be=sc<T>("beta"); B2<T> s(n,"x"),d(n,"y"); CPU(hypot,n,al,s.a.data(),be,d.a.data()); GPU(hypot,n,al,s.b.data(),be,d.b.data()); d.same("hypot: CUDA and CPU differ"); s.same("hypot: source changed"); }
KSC(scal){ Index n=elems(); T al=sc<T>("alpha"); B2<T> s(n,"x"),d(n,"y"); CPU(scal,n,al,s.a.data(),d.a.data()); GPU(scal,n,al,s.b.data(),d.b.data()); d.same("scal: CUDA and CPU differ"); s.same("scal: source changed"); }
KSC(add_scalar){ Index n=elems(); T al=sc<T>("alpha"),be=sc<T>("beta"); B2<T> d(n,"y"); CPU(add_scalar,n,al,be,d.a.data()); GPU(add_scalar,n,al,be,d.b.data()); d.same("add_scalar: CUDA and CPU differ"); }
KSC(addcdiv){ Index n=elems(); T al=sc<T>("val"),e=un<T>("eps"); B2<T> x(n,"nom"),y(n,"denom",POS),d(n,"res"); CPU(addcdiv,al,e,n,x.a.data(),y.a.data(),d.a.data()); GPU(addcdiv,al,e,n,x.b.data(),y.b.data(),d.b.data()); d.same("addcdiv: CUDA and CPU differ"); x.same("addcdiv: source changed"); y.same("addcdiv: source changed"); }
KSC(fill){ Index n=elems(); T al=sc<T>("val"); B2<T> d(n,"y"); CPU(fill,n,al,d.a.data()); GPU(fill,n,al,d.b.data()); d.same("fill: CUDA and CPU differ"); }
KSC(pow){ Index n=elems(); T al=sc<T>("alpha"),e=(T)(1+nsym_pick("exp",3))/2; B2<T> d(n,"y",POS); CPU(pow,n,al,e,d.a.data()); GPU(pow,n,al,e,d.b.data()); d.same("pow: CUDA and CPU differ"); }
KSC(hypot_scalar_inverse){ Index n=elems(); T al=un<T>("alpha"),e=un<T>("eps"); B2<T> d(n,"y"); CPU(hypot_scalar_inverse,n,e,al,d.a.data()); GPU(hypot_scalar_inverse,n,e,al,d.b.data()); d.same("hypot_scalar_inverse: CUDA and CPU differ"); }
KSC(logsumexp){ Index n=nsym_pick("nelems",2)?258:2; B2<T> s(2*n,"x",POS),d(n,"y"); CPU(logsumexp,n,s.a.data(),d.a.data()); GPU(logsumexp,n,s.b.data(),d.b.data()); d.same("logsumexp: CUDA and CPU differ"); s.same("logsumexp: source changed"); }
KSC(mask_scalar){ Index nr=nsym_pick("rows",2)?258:2,nc=1+nsym_pick("cols",2); T val=sc<T>("val"); std::vector<char> mk; for(Index i=0;i<nr;i++) mk.push_back(i<2?(char)nsym_pick("mask",2):i%2); B2<T> d(nr*nc,"y"); CPU(mask_scalar,nr,nc,(const bool_t*)mk.data(),val,d.a.data()); GPU(mask_scalar,nr,nc,(const bool_t*)mk.data(),val,d.b.data()); d.same("mask_scalar: CUDA and CPU differ"); }
KSC(add_slice){ Index m,n,k; mnk(m,n,k); T al=sc<T>("alpha"),be=sc<T>("beta"); B2<T> s(m*n,"x"),d(m*n*k,"y"); CPU(add_slice,m,n,k,al,s.a.data(),be,d.a.data()); GPU(add_slice,m,n,k,al,s.b.data(),be,d.b.data()); d.same("add_slice: CUDA and CPU differ"); s.same("add_slice: source changed"); }
KSC(add_slice3){ Index m,n,k; mnk(m,n,k); T al=sc<T>("alpha"),be=sc<T>("beta"); B2<T> s(m*n,"x"),q(m*n*k,"z"),d(m*n*k,"y"); CPU(add_slice3,m,n,k,al,s.a.data(),be,q.a.data(),d.a.data()); GPU(add_slice3,m,n,k,al,s.b.data(),be,q.b.data(),d.b.data()); d.same("add_slice3: CUDA and CPU differ"); s.same("add_slice3: source changed"); q.same("add_slice3: source changed"); }
KSC(prod_slice){ Index m,n,k; mnk(m,n,k); T al=sc<T>("alpha"); B2<T> s(m*n,"x"),d(m*n*k,"y"); CPU(prod_slice,m,n,k,al,s.a.data(),d.a.data()); GPU(prod_slice,m,n,k,al,s.b.data(),d.b.data()); d.same("prod_slice: CUDA and CPU differ"); s.same("prod_slice: source changed"); }
KSC(prod_fiber){ Index m,n,k; mnk(m,n,k); T al=sc<T>("alpha"); B2<T> s(k,"x"),d(m*n*k,"y"); CPU(prod_fiber,m,n,k,al,s.a.data(),d.a.data()); GPU(prod_fiber,m,n,k,al,s.b.data(),d.b.data()); d.same("prod_fiber: CUDA and CPU differ"); s.same("prod_fiber: source changed"); }
KSC(prod_fiber3){ Index m,n,k; mnk(m,n,k); T al=sc<T>("alpha"); B2<T> s(k,"x"),q(m*n*k,"z"),d(m*n*k,"y"); CPU(prod_fiber3,m,n,k,al,s.a.data(),q.a.data(),d.a.data()); GPU(prod_fiber3,m,n,k,al,s.b.data(),q.b.data(),d.b.data()); d.same("prod_fiber3: CUDA and CPU differ"); s.same("prod_fiber3: source changed"); q.same("prod_fiber3: source changed"); }
KSC(add_fiber){ Index m,n,k; mnk(m,n,k); Index b=1+nsym_pick("batch",2); T al=sc<T>("alpha"),be=sc<T>("beta"); B2<T> s(k*b,"x"),d(m*n*k*b,"y"); CPU(add_fiber,m,n,k,b,al,s.a.data(),be,d.a.data()); GPU(add_fiber,m,n,k,b,al,s.b.data(),be,d.b.data()); d.same("add_fiber: CUDA and CPU differ"); s.same("add_fiber: source changed"); }
KSC(transpose){ Index m,n,k; mnk(m,n,k); n*=k; T al=sc<T>("alpha"); B2<T> s(m*n,"x"),d(m*n,"y"); CPU(transpose,m,n,al,s.a.data(),d.a.data()); GPU(transpose,m,n,al,s.b.data(),d.b.data()); d.same("transpose: CUDA and CPU differ"); s.same("transpose: source changed"); }
KSC(sumnorm){ Index m,n,k; static const int D[][3]={{1,1,2},{2,1,2},{1,2,1},{9,5,2}}; int i=(int)nsym_pick("mnk",4); m=D[i][0]; n=D[i][1]; k=D[i][2]; B2<T> s(m*n*k,"x",i==3?FIXED:ANY),d(2*m*n,"y",i==3?FIXED:POS); if(i==3) for(Index j=0;j<m*n;j++) d.a[2*j+1]=d.b[2*j+1]=2; CPU(sumnorm,m,n,k,s.a.data(),d.a.data()); GPU(sumnorm,m,n,k,s.b.data(),d.b.data()); d.same("sumnorm: CUDA and CPU differ"); s.same("sumnorm: source changed"); }
KSC(normalize){ Index m,n,k; static const int D[][3]={{1,1,2},{2,1,2},{1,2,1},{9,5,2}}; int i=(int)nsym_pick("mnk",4); m=D[i][0]; n=D[i][1]; k=D[i][2]; Index l=3; T eps=nsym_pick("eps",2)?(T)0.25:(T)4; B2<T> g(1,"gamma"),b(1,"beta"),d(m*n*k,"x"),s(2*m*n,"sn"); for(Index j=0;j<m*n;j++){ T u=(T)nsym_real_in("sum",-2,2),v=(T)nsym_real_in("norm",1.5,9); int z=i<3?(int)nsym_pick("slice",3):2; if(z==1){ u=0; v=0; } if(z==2||j){ u=1; v=2; } s.a[2*j]=s.b[2*j]=u; s.a[2*j+1]=s.b[2*j+1]=v; } CPU(normalize,m,n,k,l,eps,g.a.data(),b.a.data(),s.a.data(),d.a.data()); GPU(normalize,m,n,k,l,eps,g.b.data(),b.b.data(),s.b.data(),d.b.data()); d.same("normalize: CUDA and CPU differ"); s.same("normalize: source changed"); }
KSC(embedding){ Index m=1+nsym_pick("m",2),n=1+nsym_pick("n",2),k=5,ks=nsym_pick("start",2),kz=1+nsym_pick("size",3); auto ix=labels(m*n,3); B2<T> s(kz*3,"x"),d(m*n*k,"y"); CPU(embedding,m,n,k,ks,kz,ix.data(),s.a.data(),d.a.data()); GPU(embedding,m,n,k,ks,kz,ix.data(),s.b.data(),d.b.data()); d.same("embedding: CUDA and CPU differ"); s.same("embedding: source changed"); }
KSC(embedding_backward){ Index m=1+nsym_pick("m",2),n=1+nsym_pick("n",2),k=5,ks=nsym_pick("start",2),kz=1+nsym_pick("size",3); auto ix=labels(m*n,3); B2<T> s(kz*3,"x"),d(m*n*k,"y"); CPU(embedding_backward,m,n,k,ks,kz,ix.data(),d.a.data(),s.a.data()); GPU(embedding_backward,m,n,k,ks,kz,ix.data(),d.b.data(),s.b.data()); s.same("embedding_backward: CUDA and CPU differ"); d.same("embedding_backward: source changed"); }
KSC(subtract_indexed_outputs){ Index c=3,n=nsym_pick("n",2)?258:3; T v=sc<T>("val"); auto lb=labels(n,c); B2<T> d(c*n,"y"); CPU(subtract_indexed_outputs,c,n,v,lb.data(),d.a.data()); GPU(subtract_indexed_outputs,c,n,v,lb.data(),d.b.data()); d.same("subtract_indexed_outputs: CUDA and CPU differ"); }
KSC(total_sum_accum){ Index c=3,n=nsym_pick("n",2)?258:3; T v=sc<T>("alpha"); auto lb=labels(n,c); B2<T> l(n,"l",n>3?FIXED:ANY),s(c*n,"x",n>3?FIXED:ANY),d(1,"y"); CPU(total_sum_accum,v,c,n,l.a.data(),s.a.data(),lb.data(),d.a.data()); GPU(total_sum_accum,v,c,n,l.b.data(),s.b.data(),lb.data(),d.b.data()); d.same("total_sum_accum: CUDA and CPU differ"); s.same("total_sum_accum: source changed"); l.same("total_sum_accum: source changed"); }
// kernels with barriers
static void small(Index&m,Index&n,Index&k){ static const int D[][3]={{2,1,3},{1,1,1},{1,2,2},{1,1,4},{9,2,2},{2,1,35},{3,9,17}}; int i=(int)nsym_pick("mnk",DEEP?7:6); m=D[i][0]; n=D[i][1]; k=D[i][2]; }
BSC(sum_slice){ Index m,n,k; small(m,n,k); T al=sc<T>("alpha"),be=nsym_pick("beta0",2)?T(0):sc<T>("beta"); B2<T> s(m*n*k,"x"),d(m*n,"y"); CPU(sum_slice,m,n,k,al,s.a.data(),be,d.a.data()); GPU(sum_slice,m,n,k,al,s.b.data(),be,d.b.data()); d.same("sum_slice: CUDA and CPU differ"); s.same("sum_slice: source changed"); }
BSC(sumprod_slice){ Index m,n,k; small(m,n,k); T al=sc<T>("alpha"),be=nsym_pick("beta0",2)?T(0):sc<T>("beta"); B2<T> s(m*n*k,"x"),q(m*n*k,"z"),d(m*n,"y"); CPU(sumprod_slice,m,n,k,al,s.a.data(),q.a.data(),be,d.a.data()); GPU(sumprod_slice,m,n,k,al,s.b.data(),q.b.data(),be,d.b.data()); d.same("sumprod_slice: CUDA and CPU differ"); s.same("sumprod_slice: source changed"); }
BSC(sum_fiber){ Index m,n,k; small(k,n,m); Index b=1+nsym_pick("batch",2); T al=sc<T>("alpha"),be=nsym_pick("beta0",2)?T(0):sc<T>("beta"); B2<T> s(m*n*k*b,"x"),d(k*b,"y"); CPU(sum_fiber,m,n,k,b,al,s.a.data(),be,d.a.data()); GPU(sum_fiber,m,n,k,b,al,s.b.data(),be,d.b.data()); d.same("sum_fiber: CUDA and CPU differ"); s.same("sum_fiber: source changed"); }
BSC(sumprod_fiber){ Index m,n,k; small(k,n,m); T al=sc<T>("alpha"),be=nsym_pick("beta0",2)?T(0):sc<T>("beta"); B2<T> s(m*n*k,"x"),q(m*n*k,"z"),d(k,"y"); CPU(sumprod_fiber,m,n,k,al,s.a.data(),q.a.data(),be,d.a.data()); GPU(sumprod_fiber,m,n,k,al,s.b.data(),q.b.data(),be,d.b.data()); d.same("sumprod_fiber: CUDA and CPU differ"); s.same("sumprod_fiber: source changed"); }
BSC(norm_slice){ static const int D[][3]={{1,1,1},{2,1,2},{1,2,2},{9,2,3},{1,1,20}}; int i=(int)nsym_pick("mnk",5); Index m=D[i][0],n=D[i][1],k=D[i][2]; int z=(int)nsym_pick("coef",3); T al=z==0?T(2):T(-1.5),be=z==2?T(0.5):T(0); B2<T> s(m*n*k,"x",i>2?FIXED:ANY),d(m*n,"y",i>2?FIXED:ANY); CPU(norm_slice,m,n,k,al,s.a.data(),be,d.a.data()); GPU(norm_slice,m,n,k,al,s.b.data(),be,d.b.data()); d.same("norm_slice: CUDA and CPU differ"); s.same("norm_slice: source changed"); }
BSC(softmax){ Index m,n,k; small(m,n,k); int mk=(int)nsym_pick("masked",2); T al=sc<T>("alpha"); B2<T> st(2*m*n,"st",POS),s(m*n*k,"x"),d(m*n*k,"y"); if(mk) s.a[0]=s.b[0]=-(T)INFINITY; CPU(softmax,m,n,k,st.a.data(),s.a.data(),al,d.a.data()); GPU(softmax,m,n,k,st.b.data(),s.b.data(),al,d.b.data()); d.same("softmax: CUDA and CPU differ"); st.same("softmax: source changed"); }
BSC(softmax_inplace){ Index m,n,k; small(m,n,k); int mk=(int)nsym_pick("masked",2); T al=sc<T>("alpha"); B2<T> st(2*m*n,"st",POS),d(m*n*k,"x"); if(mk) d.a[0]=d.b[0]=-(T)INFINITY; CPU(softmax_inplace,m,n,k,st.a.data(),al,d.a.data()); GPU(softmax_inplace,m,n,k,st.b.data(),al,d.b.data()); d.same("softmax_inplace: CUDA and CPU differ"); st.same("softmax_inplace: source changed"); }

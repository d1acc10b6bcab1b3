// C34: every function of the extension module forwards to the core operation of its name with its arguments in order.
#include "pystub/bindstub.hh"
namespace pybind11 { struct array; }
template<class A> constexpr bool known=!std::is_base_of<pybind11::array,std::decay_t<A>>::value;
static int g_count=0,g_want=-1;
static bool mine(){ return g_count++==g_want; }
// ---- arguments: fresh tensors, symbolic scalars
template<class A> struct Mk; // make() -> value/reference, recorded into e
template<class T> struct Mk<const tensor::Tensor<T>&> { static const tensor::Tensor<T>&make(Rec&e){ starpu_mpi_tag_t tag=0; tensor::TensorTraits tr(VI{},VI{}); auto*t=new tensor::Tensor<T>(tr,std::vector<int>(1,0),tag); e.k.push_back((int64_t)(uintptr_t)t); return *t; } };
template<> struct Mk<const TransOp&> { static const TransOp&make(Rec&e){ auto*t=new TransOp(nsym_pick("trans",2)?TransOp::Trans:TransOp::NoTrans); e.k.push_back((int64_t)t->value); return *t; } };
template<> struct Mk<TransOp> { static TransOp make(Rec&e){ return Mk<const TransOp&>::make(e); } };
template<class T> struct MkNum { static T make(Rec&e){ if constexpr(std::is_floating_point<T>::value){ T v=(T)nsym_real("scalar"); e.k.push_back(500+sizeof(T)); e.r.push_back((double)v); return v; } else { T v=(T)nsym_int("integer",std::is_signed<T>::value?-100000:0,100000); e.k.push_back((int64_t)v); return v; } } };
template<> struct Mk<float>:MkNum<float>{}; template<> struct Mk<double>:MkNum<double>{}; template<> struct Mk<int>:MkNum<int>{}; template<> struct Mk<unsigned>:MkNum<unsigned>{}; template<> struct Mk<long>:MkNum<long>{}; template<> struct Mk<long long>:MkNum<long long>{}; template<> struct Mk<unsigned long>:MkNum<unsigned long>{}; template<> struct Mk<unsigned long long>:MkNum<unsigned long long>{};
template<> struct Mk<bool> { static bool make(Rec&e){ bool b=nsym_pick("flag",2); e.k.push_back(b); return b; } };
template<class T> struct MkVec { static std::vector<T> make(Rec&e){ std::vector<T> v; int n=2; e.k.push_back(n); for(int i=0;i<n;i++) v.push_back(Mk<T>::make(e)); return v; } };
template<class T> struct Mk<std::vector<T>>:MkVec<T>{};
template<class T> struct Mk<const std::vector<T>&> { static const std::vector<T>&make(Rec&e){ return *new std::vector<T>(MkVec<T>::make(e)); } };
template<class A> struct Mk<const A&>:Mk<A>{};
template<class A> struct Mk<A&&>:Mk<A>{};
// ---- expected operation and types of a name
static bool ends(const std::string&s,const char*t){ std::string x(t); return s.size()>=x.size()&&s.compare(s.size()-x.size(),x.size(),x)==0; }
static int suffixType(std::string&s){ static const char*N[]={"_fp64","_fp32","_fp16","_int64","_bool"}; static const int I[]={64,32,16,6,1}; for(int i=0;i<5;i++) if(ends(s,N[i])){ s.resize(s.size()-std::string(N[i]).size()); return I[i]; } return 0; }
static std::string msg(const std::string&n,const char*m){ return n+": "+m; }
#define CHK(c,n,m) do { std::string _s=msg(n,m); nsym_check(c,_s.c_str()); } while(0)
static void compare(const std::string&name,const Rec&e,const Rec&g,int ntypes){
    std::string op=name; int ty=0; if(op!="fp32_to_fp16_async"&&op!="fp16_to_fp32_async"&&op!="fp32_to_fp16"&&op!="fp16_to_fp32") ty=suffixType(op);
    CHK(g.n==1,name,"forwards to exactly one core operation"); if(g.n!=1) return;
    CHK(g.name==op,name,"runs the core operation of its name"); if(g.name!=op) return;
    std::vector<int64_t> w; if(ty){ w.push_back(1000+ty); int have=0; for(auto x:g.k) if(x>=1001&&x<=1064) have++; (void)have; if(op=="gemm"||op=="gemm_async") w.push_back(1000+(ty==16?32:ty)); }
    for(auto x:e.k) w.push_back(x);
    CHK(w.size()==g.k.size(),name,"passes all its arguments in the precision of its name"); if(w.size()!=g.k.size()) return;
    for(size_t i=0;i<w.size();i++) CHK(w[i]==g.k[i],name,"passes every argument in its own position and precision");
    CHK(e.r.size()==g.r.size(),name,"passes every scalar"); if(e.r.size()!=g.r.size()) return;
    for(size_t i=0;i<e.r.size();i++){ std::string s=msg(name,"passes scalar arguments unchanged"); nsym_eq(g.r[i],e.r[i],s.c_str()); } }
static int g_status[3]; static int g_nst=0;
struct Hook {
    template<class R,class...A> static void on_function(const std::string&mod,const std::string&name,std::function<R(A...)> f){
        if(!mine()) return;
        if(ends(mod,".tensor")||ends(mod,".tile")){ if(ends(name,"_array")) return; if constexpr(std::is_same<R,void>::value&&(known<A>&&...)) run<A...>(name,f); return; }
        if constexpr(sizeof...(A)==0){ if(!ends(mod,".starpu")) return;
            int p=g_pause,r=g_resume,i=g_init,s=g_restore,w=g_nwhere; g_where=0;
            if(name=="wait_for_all"){ waitall(f); return; }
            f(); p=g_pause-p; r=g_resume-r; i=g_init-i; s=g_restore-s; w=g_nwhere-w;
            auto only=[&](int P,int Rr,int I,int S,int W){ CHK(p==P&&r==Rr&&i==I&&s==S&&w==W,name,"makes exactly the runtime call of its name"); };
            if(name=="pause") only(1,0,0,0,0); else if(name=="resume") only(0,1,0,0,0); else if(name=="init") only(0,0,1,0,0); else if(name=="restrict_restore") only(0,0,0,1,0);
            else if(name=="restrict_cuda"){ only(0,0,0,0,1); CHK(g_where==STARPU_CUDA,name,"restricts to CUDA"); } else if(name=="restrict_cpu"){ only(0,0,0,0,1); CHK(g_where==STARPU_CPU,name,"restricts to CPU"); }
            else only(0,0,0,0,0); } }
    template<class...A> static void run(const std::string&name,std::function<void(A...)>&f){
        nsym_mode("wide",ends(name,"_fp64")); Rec e,g; std::tuple<A...> args{Mk<A>::make(e)...}; g_rec=&g; std::apply(f,args); g_rec=nullptr; compare(name,e,g,0); }
    // wait_for_all returns only after the runtime reports that nothing is outstanding; a pending interrupt ends it
    template<class F> static void waitall(F&f){ g_nst=0; int n=1+(int)nsym_pick("polls",3); static int polls,sig; polls=n; sig=(int)nsym_pick("interrupt",4); static int asked,last; asked=0; last=-1;
        g_nsubmitted=[]()->int{ asked++; last= asked>=polls?0:(int)nsym_int("outstanding",1,1000000); return last; };
        g_signals=[]()->int{ return sig&&asked>=sig?-1:0; };
        bool thr=false; try { f(); } catch(std::exception&){ thr=true; }
        if(!thr) nsym_check(last==0,"wait_for_all: returns only when no submitted task is outstanding"); else nsym_check(sig!=0,"wait_for_all: ended without an interrupt");
        if(sig==0) nsym_check(!thr,"wait_for_all: fails without an interrupt"); if(sig&&sig<polls) nsym_check(thr,"wait_for_all: an interrupt ends the wait"); g_nsubmitted=nullptr; g_signals=nullptr; }
    template<class V> static void on_attr(const std::string&,const std::string&name,const V&v){ if(!mine()) return; if(name=="notrans") CHK(((const TransOp*)v.p)->value==TransOp::NoTrans,name,"is the operation without transposition"); if(name=="trans") CHK(((const TransOp*)v.p)->value==TransOp::Trans,name,"is transposition"); }
    template<class C> static void on_class(const std::string&,const std::string&){}
    template<class C,class...A> static void on_init(const std::string&){}
    template<class C,class F> static void on_method(const std::string&,const std::string&,const F&){}
    template<class C,class F> static void on_field(const std::string&,const std::string&,const F&){}
};
#include "wrappers/python/nntile/nntile_core.cc"
#define ENTRY(n) extern "C" void e_##n()
ENTRY(functions){ mode_setup(); pybind11::module_ m; m.name="nntile_core"; g_count=0; g_want=-1; pymodule_init(m); int n=g_count; nsym_check(n>0,"the extension module registers functions"); g_want=(int)nsym_pick("function",n); g_count=0; pymodule_init(m); nsym_reach("functions"); }

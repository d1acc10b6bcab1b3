// C21: life cycle of data handles and of local access to them, over histories of operations chosen by the solver.
#include "h.hh"
#include <memory>
#include <type_traits>
using starpu::Handle; using starpu::VariableHandle; using starpu::HandleLocalData;
#define ENTRY(n) extern "C" void e_##n()
static int op(const char*n,int k){ int64_t v=nsym_int(n,0,k-1); for(int i=0;i<k-1;i++) if(v==i) return i; return k-1; } // a symbolic choice, resolved by branching
static const int MODES[]={STARPU_R,STARPU_W,STARPU_RW,STARPU_SCRATCH}, HOW[]={2,1,1,3};
// --- reference: which registered datum each owner refers to
struct Data { starpu_data_handle_t h; int how; int refs; };
static Data g_d[32]; static int g_n=0;
static int reg(starpu_data_handle_t h,int how){ g_d[g_n]={h,how,0}; return g_n++; }
static void audit(){ int live=0; for(int i=0;i<g_n;i++){ int w=rt_how(g_d[i].h); if(g_d[i].refs>0){ live++; nsym_check(w==0,"a data handle is unregistered although an owner is left"); } else nsym_check(w==g_d[i].how,w==0?"a data handle is not unregistered when its last owner is gone":"a data handle is unregistered in another way than its mode asks for"); } nsym_check(rt_live<=live||rt_any_pending(),"a data handle is still registered without an owner"); }
static const int NS=3;
// owners of type Handle / VariableHandle: construction, copy, copy and move assignment, explicit unregistration, destruction
template<class H> static void history(int K){
    H*s[NS]={}; int id[NS]={-1,-1,-1}; static double mem[64]; auto drop=[&](int i){ if(id[i]>=0) g_d[id[i]].refs--; id[i]=-1; };
    for(int k=0;k<K;k++){ int o=op("op",5),a=op("slot",NS); 
        if(o==0){ int m=op("mode",4); drop(a); delete s[a]; s[a]=nullptr; bool user=m==2; VariableHandle v= user?VariableHandle((void*)(mem+k),8,(starpu_data_access_mode)MODES[m]):VariableHandle((size_t)8,(starpu_data_access_mode)MODES[m]); s[a]=new H(v); id[a]=reg(static_cast<starpu_data_handle_t>(v),HOW[m]); g_d[id[a]].refs=1; }
        else if(o==1){ int b=(a+1+op("from",NS-1))%NS; nsym_assume(s[b]!=nullptr); drop(a); if(s[a]) *s[a]=*s[b]; else s[a]=new H(*s[b]); id[a]=id[b]; if(id[a]>=0) g_d[id[a]].refs++; }
        else if(o==2){ int b=(a+1+op("from",NS-1))%NS; nsym_assume(s[b]!=nullptr); drop(a); if(s[a]) *s[a]=std::move(*s[b]); else s[a]=new H(std::move(*s[b])); id[a]=id[b]; bool kept=static_cast<starpu_data_handle_t>(*s[b])!=nullptr; if(id[a]>=0&&kept) g_d[id[a]].refs++; else id[b]=-1; }
        else if(o==3){ nsym_assume(s[a]!=nullptr); s[a]->unregister(); drop(a); nsym_check(static_cast<starpu_data_handle_t>(*s[a])==nullptr,"an unregistered owner still refers to its datum"); }
        else { nsym_assume(s[a]!=nullptr); delete s[a]; s[a]=nullptr; drop(a); }
        for(int i=0;i<NS;i++) if(s[i]) nsym_check(static_cast<starpu_data_handle_t>(*s[i])==(id[i]<0?nullptr:g_d[id[i]].h),"an owner refers to another datum than the one it was given");
        audit(); }
    for(int i=0;i<NS;i++){ delete s[i]; drop(i); } audit(); nsym_check(rt_live==0,"a data handle was never unregistered"); nsym_reach("end"); }
ENTRY(history_variable){ rt_order=1; history<VariableHandle>(DEEP?5:3); }
ENTRY(history_base){ rt_order=1; history<Handle>(DEEP?5:3); }
// tasks in flight when the last owner goes: waited for, or (scratch) unregistered lazily
ENTRY(pending){ rt_init_all(); rt_order=1; int m=op("mode",4); bool async=op("explicit",2); static float mem[4]={1,2,3,4}; starpu_data_handle_t h; { VariableHandle v= m==3?VariableHandle((size_t)16,STARPU_SCRATCH):VariableHandle((void*)mem,16,(starpu_data_access_mode)MODES[m]); h=static_cast<starpu_data_handle_t>(v); int n=op("tasks",3); for(int i=0;i<n;i++) starpu::clear::submit(v); VariableHandle w=v; if(async) v.unregister(); nsym_check(rt_how(h)==0,"a data handle is unregistered although an owner is left"); }
    nsym_check(rt_how(h)==HOW[m],"a data handle is unregistered in another way than its mode asks for"); rt_run_all(); nsym_check(rt_live==0,"a data handle was never unregistered"); nsym_reach("end"); }
ENTRY(zero_size){ static char c; int64_t n=nsym_int("n",0,2); bool t=false; try { if(op("kind",2)) VariableHandle v((size_t)n,STARPU_R); else VariableHandle v(&c,(size_t)n,STARPU_RW); } catch(const std::exception&){ t=true; } nsym_check(t==(n==0),"a datum of size zero is rejected, others accepted"); nsym_check(rt_live==0,"a data handle was never unregistered"); nsym_reach("end"); }
ENTRY(bad_mode){ int64_t m=nsym_int("mode",0,63); starpu_data_handle_t h; starpu_variable_data_register(&h,-1,0,8); bool t=false; { Handle keep; try { keep=Handle(h,(starpu_data_access_mode)m); } catch(const std::exception&){ t=true; } if(!t) nsym_check(rt_how(h)==0,"a data handle is unregistered although an owner is left"); } bool known= m==STARPU_R||m==STARPU_W||m==STARPU_RW||m==STARPU_SCRATCH; nsym_check(t==!known,"ownership modes: R, W, RW and SCRATCH are accepted, others are rejected"); if(t) starpu_data_unregister(h); else nsym_check(rt_how(h)!=0,"a data handle is not unregistered when its last owner is gone"); nsym_check(rt_live==0,"a data handle was never unregistered"); nsym_reach("end"); }
// --- local access
static const starpu_data_access_mode AM[]={STARPU_R,STARPU_W,STARPU_RW};
// legal sequences of acquire/release on one local access object, any of the acquisitions may be refused, the block may be left by an exception
ENTRY(local){ rt_init_all(); rt_order=op("order",2); rt_symerr=1; static float mem[4]={1,2,3,4}; auto*v=new VariableHandle((void*)mem,16,STARPU_RW); starpu_data_handle_t h=static_cast<starpu_data_handle_t>(*v); int K=DEEP?6:4; bool drop=op("drop",2); rt_acquire_fail_at=op("fail",K+1); int acq=0,failed=0;
    struct Leave{}; 
    try { int f0=rt_acquire_fail_at; acq++; if(f0==1){ bool t=false; try { HandleLocalData l=v->acquire(AM[op("am",3)]); } catch(const std::exception&){ t=true; } nsym_check(t,"a refused acquisition is not reported"); failed=1; nsym_check(rt_acquired(h)==0,"something stays acquired after a refused acquisition"); throw Leave{}; }
        HandleLocalData l=v->acquire(AM[op("am",3)]); if(drop){ delete v; v=nullptr; } bool on=true; nsym_check(rt_acquired(h)==1&&rt_how(h)==0,"local access is in force after acquisition"); nsym_check(l.get_ptr()==(void*)mem,"local pointer");
        for(int k=0;k<K;k++){ int o=op("do",3); if(o==2) throw Leave{}; if(on&&o==0){ l.release(); on=false; nsym_check(rt_acquired(h)==0,"release gives the local access back"); nsym_check(l.get_ptr()==nullptr,"no pointer after release"); if(v&&op("task",2)) starpu::clear::submit(*v); }
            else if(!on&&o==1){ acq++; bool exp=f0==acq,t=false; try { l.acquire(AM[op("am",3)]); } catch(const std::exception&){ t=true; } nsym_check(t==exp,"a refused acquisition is reported, others are not"); on=!exp; nsym_check(rt_acquired(h)==(on?1:0),"exactly the granted acquisition is in force"); if(on) nsym_check(l.get_ptr()==(void*)mem,"local pointer"); }
            else break; }
    } catch(Leave&){} (void)failed; rt_acquire_fail_at=0;
    nsym_check(rt_acquired(h)==0,"local access outlives its object"); if(drop&&v==nullptr) nsym_check(rt_how(h)==1,"the datum is unregistered after the local access that kept it"); delete v; rt_run_all(); nsym_check(rt_how(h)==1&&rt_live==0,"a data handle was never unregistered"); nsym_reach("end"); }
// local access objects are unique: copying one must not release twice; moving must hand the access over
template<class L> static L&& mv(L&l){ return static_cast<L&&>(l); }
template<class L> static void copies(starpu_data_handle_t h,L l){
    nsym_check(rt_acquired(h)==1,"local access is in force after acquisition");
    if constexpr(std::is_copy_constructible_v<L>){ { L m(l); nsym_check(m.get_ptr()==l.get_ptr(),"a copy of a local access sees the same memory"); } nsym_check(rt_acquired(h)==1,"a copy of a local access releases the original"); }
    if constexpr(std::is_move_constructible_v<L>){ { L m(mv(l)); nsym_check(rt_acquired(h)==1,"a moved local access is in force"); } nsym_check(rt_acquired(h)<=1,"balance of acquisitions"); } }
ENTRY(copy){ static float mem[4]; VariableHandle v((void*)mem,16,STARPU_RW); auto h=static_cast<starpu_data_handle_t>(v); if constexpr(std::is_move_constructible_v<HandleLocalData>||std::is_copy_constructible_v<HandleLocalData>){ copies<HandleLocalData>(h,v.acquire(STARPU_R)); nsym_check(rt_acquired(h)==0,"local access outlives its object"); } tile::Tile<float> t(VI{2,2},mem,4); auto g=static_cast<starpu_data_handle_t>(t); if constexpr(std::is_move_constructible_v<tile::TileLocalData<float>>||std::is_copy_constructible_v<tile::TileLocalData<float>>){ copies<tile::TileLocalData<float>>(g,t.acquire(STARPU_R)); nsym_check(rt_acquired(g)==0,"local access outlives its object"); } nsym_reach("end"); }
// --- tiles and tensors
ENTRY(tiles){ rt_init_all(); rt_order=op("order",2); static float mem[6]; int K=DEEP?5:4; tensor::Tensor<float>*t[2]={}; tile::Tile<float>*u[2]={}; int tid[2]={-1,-1},uid[2]={-1,-1}; const int NT=3; auto ref=[&](int id,int n,int d){ if(id>=0) for(int i=0;i<n;i++) g_d[id+i].refs+=d; };
    for(int k=0;k<K;k++){ int o=op("op",8),a=op("slot",2),b=1-a;
        if(o==0){ ref(tid[a],NT,-1); delete t[a]; t[a]=nullptr; starpu_mpi_tag_t tag=0; t[a]=new tensor::Tensor<float>(tensor::TensorTraits({5},{2}),std::vector<int>(NT,0),tag); tid[a]=g_n; for(int i=0;i<NT;i++) reg(static_cast<starpu_data_handle_t>(t[a]->get_tile_handle(i)),2); ref(tid[a],NT,1); }
        else if(o==1){ nsym_assume(t[b]!=nullptr); ref(tid[a],NT,-1); if(t[a]) *t[a]=*t[b]; else t[a]=new tensor::Tensor<float>(*t[b]); tid[a]=tid[b]; ref(tid[a],NT,1); }
        else if(o==2){ nsym_assume(t[a]!=nullptr); t[a]->unregister(); ref(tid[a],NT,-1); tid[a]=-1; for(int i=0;i<NT;i++) nsym_check(static_cast<starpu_data_handle_t>(t[a]->get_tile_handle(i))==nullptr,"an unregistered tensor still refers to its tiles"); }
        else if(o==3){ nsym_assume(t[a]!=nullptr); delete t[a]; t[a]=nullptr; ref(tid[a],NT,-1); tid[a]=-1; }
        else if(o==4){ nsym_assume(t[b]!=nullptr&&tid[b]>=0); int i=op("tile",NT); ref(uid[a],1,-1); delete u[a]; u[a]=nullptr; u[a]=new tile::Tile<float>(t[b]->get_tile(i)); uid[a]=tid[b]+i; ref(uid[a],1,1); }
        else if(o==5){ bool user=op("user",2); ref(uid[a],1,-1); delete u[a]; u[a]=nullptr; u[a]=user?new tile::Tile<float>(VI{3,2},mem,6):new tile::Tile<float>(VI{3,2}); uid[a]=reg(static_cast<starpu_data_handle_t>(*u[a]),user?1:2); ref(uid[a],1,1); }
        else if(o==6){ nsym_assume(u[a]!=nullptr&&uid[a]>=0); starpu::clear::submit(*u[a]); auto h=g_d[uid[a]].h; if(op("local",2)){ { auto l=u[a]->acquire(STARPU_RW); nsym_check(rt_acquired(h)==1,"local access is in force after acquisition"); } nsym_check(rt_acquired(h)==0,"local access outlives its object"); } }
        else { nsym_assume(u[a]!=nullptr); delete u[a]; u[a]=nullptr; ref(uid[a],1,-1); uid[a]=-1; }
        audit(); }
    for(int a=0;a<2;a++){ delete t[a]; ref(tid[a],NT,-1); delete u[a]; ref(uid[a],1,-1); } audit(); rt_run_all(); nsym_check(rt_live==0,"a data handle was never unregistered"); nsym_reach("end"); }
// a buffer too small for its tile is refused and leaves nothing registered
ENTRY(buffer){ static float mem[6]; int64_t n=nsym_int("n",-2,8); bool t=false; try { tile::Tile<float> u(VI{3,2},mem,n); } catch(const std::exception&){ t=true; } nsym_check(t==(n<6),"a buffer smaller than the tile is refused, others accepted"); nsym_check(rt_live==0,"a data handle was never unregistered"); nsym_reach("end"); }

#include <string>
#include "model.h"
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
extern "C" {
int rt_blas_exact=0, rt_order=0, rt_pick_budget=6, rt_acc_budget=0, rt_symerr=0, rt_check_access=1, rt_redux=0, rt_fail_at=0, rt_failed=0, rt_ntasks=0, rt_nsubmitted=0, rt_live=0, rt_footprints=1, rt_last_where=-1, rt_acquire_fail_at=0, rt_virtual=0, rt_capture=0, rt_ncap=0, rt_ncalls=0, rt_capcall[64]; int64_t rt_caps[64], rt_capptr[48], rt_copied=-1; const char*rt_capname[16];
void rt_cap_begin(const char*n){ if(rt_ncalls>=16) nsym_fail("too many recorded calls"); rt_capname[rt_ncalls++]=n; } void rt_cap(int64_t v){ if(rt_ncap>=64) nsym_fail("too many recorded arguments"); rt_capcall[rt_ncap]=rt_ncalls-1; rt_caps[rt_ncap++]=v; }
}
static const int MAXB=32, NACC=2;
struct _starpu_data_state {
    int magic; void *ptr; size_t size; int owned; int initialized; int dead; int unreg_pending; int how;
    int acq_r, acq_w; struct starpu_codelet *redux_cl, *init_cl; void *acc[NACC]; int acc_used[NACC]; int acc_next; };
struct Task { struct starpu_codelet *cl; void *arg; size_t argsize; int free_arg; int nb; starpu_data_handle_t h[MAXB]; int m[MAXB]; int copy; Task *next; void (*cb)(void*); void *cbarg; };
static Task *head=nullptr,*tail=nullptr; static int running=0;
static const int MAGIC=0x5a5a17;
static void chk(starpu_data_handle_t h,const char*what){ if(!h||h->magic!=MAGIC) nsym_fail(what); if(h->dead) nsym_fail(what); }
static void ensure(starpu_data_handle_t h){ if(!h->ptr&&rt_virtual){ h->ptr=calloc(1,64); h->owned=1; return; } if(!h->ptr){ h->ptr=malloc(h->size); nsym_garbage(h->ptr,h->size); h->owned=1; } }
static int isw(int m){ return m&(STARPU_W|STARPU_SCRATCH)?1:0; }
static int conflict(Task*a,Task*b){ for(int i=0;i<a->nb;i++) for(int j=0;j<b->nb;j++) if(a->h[i]==b->h[j]){ int x=a->m[i],y=b->m[j]; if((x&STARPU_SCRATCH)||(y&STARPU_SCRATCH)) continue; if(rt_redux&&(x&STARPU_REDUX)&&(y&STARPU_REDUX)) continue; if((x&STARPU_REDUX)||(y&STARPU_REDUX)) return 1; if((x&STARPU_COMMUTE)&&(y&STARPU_COMMUTE)&&(x&STARPU_W)&&(y&STARPU_W)) continue; if((x&STARPU_W)||(y&STARPU_W)) return 1; } return 0; }
static int blocked(Task*t){ for(int i=0;i<t->nb;i++){ auto h=t->h[i]; if(t->m[i]&STARPU_SCRATCH) continue; if(h->acq_w) return 1; if(h->acq_r&&(t->m[i]&(STARPU_W|STARPU_REDUX))) return 1; } return 0; }
static void reap(starpu_data_handle_t h){ if(h->dead) return; if(h->owned&&h->ptr) free(h->ptr); for(int k=0;k<NACC;k++) if(h->acc[k]){ free(h->acc[k]); h->acc[k]=nullptr; } h->ptr=nullptr; h->dead=1; rt_live--; }
static int used(starpu_data_handle_t h){ for(Task*t=head;t;t=t->next) for(int i=0;i<t->nb;i++) if(t->h[i]==h) return 1; return 0; }
static void call_cl(struct starpu_codelet*cl,int n,void**ptrs,size_t*sizes,void*arg){
    struct starpu_variable_interface iv[MAXB]; void *bufs[MAXB];
    for(int i=0;i<n;i++){ iv[i].id=STARPU_VARIABLE_INTERFACE_ID; iv[i].ptr=(uintptr_t)ptrs[i]; iv[i].dev_handle=(uintptr_t)ptrs[i]; iv[i].offset=0; iv[i].elemsize=sizes[i]; bufs[i]=&iv[i]; }
    cl->cpu_funcs[0](bufs,arg); }
static void fold(starpu_data_handle_t h){ // gather reduction contributions
    int any=0; for(int k=0;k<NACC;k++) any|=h->acc_used[k]; if(!any) return; ensure(h);
    if(!h->initialized){ void*p[1]={h->ptr}; size_t s[1]={h->size}; nsym_garbage(h->ptr,h->size); call_cl(h->init_cl,1,p,s,nullptr); h->initialized=1; }
    // either order; or the accumulators are combined with each other first
    int how=0; if(h->acc_used[0]&&h->acc_used[1]&&rt_redux>1){ how=(int)nsym_pick("fold",3); rt_redux=1; } if(how==2){ void*p[2]={h->acc[0],h->acc[1]}; size_t s[2]={h->size,h->size}; call_cl(h->redux_cl,2,p,s,nullptr); h->acc_used[1]=0; free(h->acc[1]); h->acc[1]=nullptr; }
    for(int kk=0;kk<NACC;kk++){ int k= how==1?NACC-1-kk:kk; if(!h->acc_used[k]) continue; void*p[2]={h->ptr,h->acc[k]}; size_t s[2]={h->size,h->size}; call_cl(h->redux_cl,2,p,s,nullptr); h->acc_used[k]=0; free(h->acc[k]); h->acc[k]=nullptr; } }
static void run(Task*t){
    void*ptrs[MAXB]; size_t sz[MAXB]; void*snap[MAXB]; void*scr[MAXB]; running++;
    for(int i=0;i<t->nb;i++){ auto h=t->h[i]; int m=t->m[i]; snap[i]=nullptr; scr[i]=nullptr; sz[i]=h->size; chk(h,"task uses a data handle that is no longer registered");
        if(m&STARPU_SCRATCH){ scr[i]=rt_virtual?calloc(1,256):malloc(h->size); if(!rt_virtual) nsym_garbage(scr[i],h->size); ptrs[i]=scr[i]; continue; }
        if((m&STARPU_REDUX)&&rt_redux){ if(!h->redux_cl||!h->init_cl) nsym_fail("STARPU_REDUX access without reduction methods"); int k=h->acc_next; if(rt_acc_budget>0){ rt_acc_budget--; k=(int)nsym_pick("acc",NACC); } h->acc_next=(k+1)%NACC; if(!h->acc[k]) h->acc[k]=malloc(h->size); if(!h->acc_used[k]){ nsym_garbage(h->acc[k],h->size); void*p[1]={h->acc[k]}; size_t s[1]={h->size}; call_cl(h->init_cl,1,p,s,nullptr); h->acc_used[k]=1; } ptrs[i]=h->acc[k]; continue; }
        fold(h); ensure(h); ptrs[i]=h->ptr;
        if((m&STARPU_R)&&!h->initialized) nsym_fail("task reads a data handle that was never initialised");
        if((m&STARPU_REDUX)&&!h->initialized) nsym_fail("task reads a data handle that was never initialised");
        int other=0; for(int j=0;j<t->nb;j++) if(j!=i&&t->h[j]==h&&!(t->m[j]&STARPU_SCRATCH)) other|=t->m[j];
        if((m&STARPU_RW)==STARPU_W&&!(other&STARPU_R)&&!rt_virtual) nsym_garbage(h->ptr,h->size);
        if((m&STARPU_RW)==STARPU_R&&!(other&STARPU_W)&&rt_check_access){ snap[i]=malloc(h->size); memcpy(snap[i],h->ptr,h->size); } }
    if(rt_virtual&&!t->copy&&!strcmp(t->cl->name,"nntile_clear")){} else
    if(t->copy&&rt_virtual){ rt_copied=(int64_t)sz[0]; nsym_check(sz[0]==sz[1],"starpu_data_cpy between handles of different sizes"); }
    else if(t->copy){ if(sz[0]!=sz[1]) nsym_fail("starpu_data_cpy between handles of different sizes"); memcpy(ptrs[1],ptrs[0],sz[0]); }
    else {
        struct starpu_codelet*cl=t->cl;
        if(rt_footprints&&cl->model&&cl->model->footprint){ struct starpu_task st; memset(&st,0,sizeof st); st.cl=cl; st.cl_arg=t->arg; st.cl_arg_size=t->argsize; st.nbuffers=t->nb; for(int i=0;i<t->nb&&i<STARPU_NMAXBUFS;i++) st.handles[i]=t->h[i]; cl->model->footprint(&st); }
        call_cl(cl,t->nb,ptrs,sz,t->arg); }
    rt_ntasks++;
    for(int i=0;i<t->nb;i++){ auto h=t->h[i]; int m=t->m[i]; if(snap[i]){ if(!nsym_memsame(snap[i],h->ptr,h->size)) nsym_check(false,"a buffer accessed in STARPU_R mode was modified by the task"); free(snap[i]); } if(scr[i]) free(scr[i]); else if(m&(STARPU_W|STARPU_REDUX)) h->initialized=1; }
    running--;
    if(t->cb) t->cb(t->cbarg);
    if(t->arg&&t->free_arg) free(t->arg); free(t); }
static void reap_pending(Task*t0,starpu_data_handle_t*hs,int n){ for(int i=0;i<n;i++) if(hs[i]->unreg_pending&&!hs[i]->dead&&!used(hs[i])) reap(hs[i]); }
static int step(int mustrun){ // run one ready task; 0 if none
    Task*ready[16]; Task*prevs[16]; int n=0; Task*prev=nullptr;
    for(Task*t=head;t&&n<16;prev=t,t=t->next){ int ok=!blocked(t); for(Task*u=head;ok&&u!=t;u=u->next) if(conflict(u,t)) ok=0; if(ok){ ready[n]=t; prevs[n]=prev; n++; if(rt_order<=1) break; } }
    if(!n){ if(head&&mustrun) nsym_fail("deadlock: tasks wait for data that is acquired and never released"); return 0; }
    int k=0; if(rt_order==2) k=n-1; else if(rt_order==3&&n>1){ if(rt_pick_budget>0){ rt_pick_budget--; k=(int)nsym_pick("sched",n); } else k=n-1; }
    Task*t=ready[k]; if(prevs[k]) prevs[k]->next=t->next; else head=t->next; if(tail==t) tail=prevs[k];
    starpu_data_handle_t hs[MAXB]; int nb=t->nb; for(int i=0;i<nb;i++) hs[i]=t->h[i]; run(t); reap_pending(t,hs,nb); return 1; }
static void enqueue(Task*t){ t->next=nullptr; if(tail) tail->next=t; else head=t; tail=t; if(rt_order==0) while(head&&step(0)){} }
static void drain_handle(starpu_data_handle_t h){ while(used(h)) if(!step(1)) break; }
extern "C" {
void rt_run_all(void){ while(head) if(!step(1)) break; }
int rt_any_pending(void){ return head!=nullptr; }
void rt_finish(void){ rt_run_all(); nsym_check(rt_live==0,"a data handle was never unregistered"); }
void starpu_variable_data_register(starpu_data_handle_t *out,int home,uintptr_t ptr,size_t size){
    auto h=(starpu_data_handle_t)malloc(sizeof(struct _starpu_data_state)); memset(h,0,sizeof *h); h->magic=MAGIC; h->size=size; if(home>=0){ h->ptr=(void*)ptr; h->initialized=1; } *out=h; rt_live++; }
int64_t rt_size(starpu_data_handle_t h){ return (int64_t)h->size; }
int rt_how(starpu_data_handle_t h){ return h->how; } int rt_acquired(starpu_data_handle_t h){ return h->acq_r+h->acq_w; }
static void unreg(starpu_data_handle_t h,int how){ chk(h,"starpu_data_unregister of an invalid or already unregistered handle"); if(h->unreg_pending) nsym_fail("handle unregistered twice"); if(h->acq_r||h->acq_w) nsym_fail("handle unregistered while it is acquired"); drain_handle(h); fold(h); h->how=how; reap(h); }
void starpu_data_unregister(starpu_data_handle_t h){ unreg(h,1); }
void starpu_data_unregister_no_coherency(starpu_data_handle_t h){ unreg(h,2); }
void starpu_data_unregister_submit(starpu_data_handle_t h){ chk(h,"starpu_data_unregister_submit of an invalid handle"); if(h->unreg_pending) nsym_fail("handle unregistered twice"); h->unreg_pending=1; h->how=3; if(!used(h)) reap(h); }
void starpu_data_set_reduction_methods(starpu_data_handle_t h,struct starpu_codelet*r,struct starpu_codelet*i){ chk(h,"set_reduction_methods on an invalid handle"); h->redux_cl=r; h->init_cl=i; }
int starpu_data_acquire(starpu_data_handle_t h,enum starpu_data_access_mode m){ chk(h,"acquire of an invalid handle"); if(rt_acquire_fail_at>0&&--rt_acquire_fail_at==0) return rt_symerr?(int)nsym_int("err",-4095,-1):-EINVAL; if(h->acq_w||(h->acq_r&&(m&STARPU_W))) nsym_fail("handle acquired while it is already acquired in a conflicting mode"); drain_handle(h); fold(h); ensure(h); if((m&STARPU_R)&&!h->initialized) nsym_fail("acquire for reading of a handle that was never initialised"); if(m&STARPU_W){ h->acq_w++; if(!(m&STARPU_R)&&!rt_virtual) nsym_garbage(h->ptr,h->size); h->initialized=1; } else h->acq_r++; return 0; }
int starpu_data_acquire_cb(starpu_data_handle_t h,enum starpu_data_access_mode m,void(*cb)(void*),void*arg){ int r=starpu_data_acquire(h,m); cb(arg); return r; }
void *starpu_data_get_local_ptr(starpu_data_handle_t h){ chk(h,"get_local_ptr of an invalid handle"); return h->ptr; }
void starpu_data_release(starpu_data_handle_t h){ chk(h,"release of an invalid handle"); if(h->acq_w) h->acq_w--; else if(h->acq_r) h->acq_r--; else nsym_fail("release of a handle that is not acquired"); if(rt_order==0) while(head&&step(0)){} }
void starpu_data_invalidate_submit(starpu_data_handle_t h){ chk(h,"invalidate of an invalid handle"); drain_handle(h); h->initialized=0; if(h->ptr) nsym_garbage(h->ptr,h->size); }
void starpu_data_invalidate(starpu_data_handle_t h){ starpu_data_invalidate_submit(h); }
void starpu_data_wont_use(starpu_data_handle_t h){ chk(h,"wont_use on an invalid handle"); }
static int inject(void){ rt_nsubmitted++; if(rt_fail_at>0&&--rt_fail_at==0){ rt_failed++; return 1; } return 0; }
int starpu_data_cpy(starpu_data_handle_t d,starpu_data_handle_t s,int async,void(*cb)(void*),void*arg){
    chk(d,"data_cpy to an invalid handle"); chk(s,"data_cpy from an invalid handle"); if(inject()) return rt_symerr?(int)nsym_int("err",-4095,-1):-ENODEV;
    Task*t=(Task*)malloc(sizeof(Task)); memset(t,0,sizeof *t); t->copy=1; t->nb=2; t->h[0]=s; t->m[0]=STARPU_R; t->h[1]=d; t->m[1]=STARPU_W; t->cb=cb; t->cbarg=arg; enqueue(t); if(!async) rt_run_all(); return 0; }
int starpu_task_wait_for_all(void){ rt_run_all(); return 0; }
uint32_t starpu_hash_crc32c_be_n(const void*in,size_t n,uint32_t c){ const unsigned char*p=(const unsigned char*)in; volatile unsigned char x; for(size_t i=0;i<n;i+=8){ x=p[i]; c=c*31+7; } if(n){ x=p[n-1]; } (void)x; return c; }
uint32_t starpu_hash_crc32c_be(uint32_t v,uint32_t c){ return c*31+v; }
int starpu_conf_init(struct starpu_conf*c){ memset(c,0,sizeof *c); return 0; } int starpu_init(struct starpu_conf*){ return 0; } void starpu_shutdown(void){ rt_run_all(); } void starpu_fxt_autostart_profiling(int){} int starpu_worker_get_count_by_type(enum starpu_worker_archtype){ return 1; }
}
template<class G> static Task* parse(struct starpu_codelet*cl,G&g){
    Task*t=(Task*)malloc(sizeof(Task)); memset(t,0,sizeof *t); t->cl=cl; t->free_arg=1; int nval=0; char*vb=nullptr; size_t vn=0; 
    for(;;){ int k=g.i(); if(k==0) break; 
        if(k==STARPU_VALUE){ void*p=g.p(); size_t n=g.z(); size_t need=(vn?vn:sizeof(int))+sizeof(size_t)+n; char*nb=(char*)malloc(need); if(vb){ memcpy(nb,vb,vn); free(vb);} else vn=sizeof(int); vb=nb; memcpy(vb+vn,&n,sizeof n); memcpy(vb+vn+sizeof n,p,n); vn=need; nval++; memcpy(vb,&nval,sizeof(int)); }
        else if(k==STARPU_CL_ARGS||k==STARPU_CL_ARGS_NFREE){ t->arg=g.p(); t->argsize=g.z(); if(k==STARPU_CL_ARGS_NFREE) t->free_arg=0; }
        else if(k==STARPU_FLOPS){ g.d(); } else if(k==STARPU_PRIORITY||k==STARPU_EXECUTE_ON_NODE||k==STARPU_EXECUTE_ON_WORKER){ g.i(); } else if(k==STARPU_NAME||k==STARPU_TASK_FILE){ g.p(); } else if(k==STARPU_TASK_LINE||k==STARPU_TASK_SYNCHRONOUS||k==STARPU_SCHED_CTX){ g.i(); } else if(k==STARPU_CALLBACK){ t->cb=(void(*)(void*))g.p(); } else if(k==STARPU_CALLBACK_ARG||k==STARPU_CALLBACK_ARG_NFREE){ t->cbarg=g.p(); } else if(k==STARPU_CALLBACK_WITH_ARG||k==STARPU_CALLBACK_WITH_ARG_NFREE){ t->cb=(void(*)(void*))g.p(); t->cbarg=g.p(); }
        else if(k==STARPU_DATA_MODE_ARRAY){ auto*d=(struct starpu_data_descr*)g.p(); int n=g.i(); for(int i=0;i<n;i++){ t->h[t->nb]=d[i].handle; t->m[t->nb]=d[i].mode; t->nb++; } }
        else if(k>0&&k<(1<<16)){ auto h=(starpu_data_handle_t)g.p(); if(t->nb>=MAXB) nsym_fail("too many buffers"); t->h[t->nb]=h; t->m[t->nb]=k; t->nb++; }
        else nsym_fail("unknown starpu_task_insert argument"); }
    if(vb){ t->arg=vb; t->argsize=vn; }
    return t; }
static int submit(Task*t){ struct starpu_codelet*cl=t->cl;
    for(int i=0;i<t->nb;i++) chk(t->h[i],"task submitted on an invalid or unregistered handle");
    for(int i=0;i<t->nb;i++) if(t->h[i]->unreg_pending) nsym_fail("task submitted on a handle whose unregistration was already requested");
    rt_last_where=cl->where;
    if(inject()||!(cl->where&STARPU_CPU)||!cl->cpu_funcs[0]){ if(t->arg) free(t->arg); free(t); return rt_symerr?(int)nsym_int("err",-4095,-1):-ENODEV; }
    if(cl->nbuffers!=STARPU_VARIABLE_NBUFFERS&&cl->nbuffers!=t->nb) nsym_fail("number of buffers does not match the codelet");
    enqueue(t); return 0; }
template<class G> static int insert(struct starpu_codelet*cl,G&g){ return submit(parse(cl,g)); }
// starpu_task_build: the task is completed by the caller and submitted explicitly
template<class G> static struct starpu_task* build(struct starpu_codelet*cl,G&g){ struct starpu_task*st=(struct starpu_task*)malloc(sizeof *st); memset(st,0,sizeof *st); Task*t=parse(cl,g); st->cl=cl; st->sched_data=t; return st; }
#undef starpu_task_submit
extern "C" int starpu_task_submit(struct starpu_task*st){ Task*t=(Task*)st->sched_data; if(st->cl_arg){ t->arg=st->cl_arg; t->argsize=st->cl_arg_size; t->free_arg=st->cl_arg_free; } free(st); return submit(t); }
#ifdef NSYM_NATIVE
#undef starpu_task_insert
#undef starpu_task_build
struct VG { va_list ap; int i(){return va_arg(ap,int);} void*p(){return va_arg(ap,void*);} size_t z(){return va_arg(ap,size_t);} double d(){return va_arg(ap,double);} };
extern "C" int starpu_task_insert(struct starpu_codelet*cl,...){ VG g; va_start(g.ap,cl); int r=insert(cl,g); va_end(g.ap); return r; }
extern "C" struct starpu_task* starpu_task_build(struct starpu_codelet*cl,...){ VG g; va_start(g.ap,cl); auto*r=build(cl,g); va_end(g.ap); return r; }
#else
struct AG { uint64_t*a; int k; int i(){return (int)a[k++];} void*p(){return (void*)a[k++];} size_t z(){return a[k++];} double d(){k++;return 0;} };
extern "C" int rt_task_insert(struct starpu_codelet*cl,uint64_t*items,int64_t n){ AG g{items,0}; int r=insert(cl,g); free(items); return r; }
extern "C" struct starpu_task* rt_task_build(struct starpu_codelet*cl,uint64_t*items,int64_t n){ AG g{items,0}; auto*r=build(cl,g); free(items); return r; }
#endif
// ---- CBLAS reference semantics (column/row major general case used by NNTile: column major)
#include <cblas.h>
template<class T> static void gemm_(CBLAS_LAYOUT l,CBLAS_TRANSPOSE ta,CBLAS_TRANSPOSE tb,int m,int n,int k,T al,const T*A,int lda,const T*B,int ldb,T be,T*Cm,int ldc){
    if(rt_capture){ if(rt_ncalls<16){ rt_capptr[3*rt_ncalls]=(int64_t)(uintptr_t)A; rt_capptr[3*rt_ncalls+1]=(int64_t)(uintptr_t)B; rt_capptr[3*rt_ncalls+2]=(int64_t)(uintptr_t)Cm; } rt_cap_begin("blas gemm"); rt_cap(m); rt_cap(n); rt_cap(k); rt_cap(lda); rt_cap(ldb); rt_cap(ldc); return; }
    if(l==CblasRowMajor){ gemm_<T>(CblasColMajor,tb,ta,n,m,k,al,B,ldb,A,lda,be,Cm,ldc); return; }
    if(m<0||n<0||k<0||lda<(ta==CblasNoTrans?m:k)||ldb<(tb==CblasNoTrans?k:n)||ldc<m) nsym_fail("cblas gemm: illegal argument");
    for(int j=0;j<n;j++) for(int i=0;i<m;i++){ T s=0; for(int p=0;p<k;p++) s+=(ta==CblasNoTrans?A[i+(size_t)p*lda]:A[p+(size_t)i*lda])*(tb==CblasNoTrans?B[p+(size_t)j*ldb]:B[j+(size_t)p*ldb]); T*c=&Cm[i+(size_t)j*ldc]; if(be==(T)0) *c=al*s; else *c=al*s+be*(*c); } }
extern "C" {
void cblas_sgemm(CBLAS_LAYOUT l,CBLAS_TRANSPOSE ta,CBLAS_TRANSPOSE tb,const int m,const int n,const int k,const float al,const float*A,const int lda,const float*B,const int ldb,const float be,float*Cm,const int ldc){ gemm_<float>(l,ta,tb,m,n,k,al,A,lda,B,ldb,be,Cm,ldc); }
void cblas_dgemm(CBLAS_LAYOUT l,CBLAS_TRANSPOSE ta,CBLAS_TRANSPOSE tb,const int m,const int n,const int k,const double al,const double*A,const int lda,const double*B,const int ldb,const double be,double*Cm,const int ldc){ gemm_<double>(l,ta,tb,m,n,k,al,A,lda,B,ldb,be,Cm,ldc); }
#define L1(P,T) void cblas_##P##axpy(const int n,const T a,const T*x,const int ix,T*y,const int iy){ if(rt_capture){ rt_cap_begin("blas axpy"); rt_cap(n); return; } for(int i=0;i<n;i++) y[(size_t)i*iy]+=a*x[(size_t)i*ix]; } \
 void cblas_##P##scal(const int n,const T a,T*x,const int ix){ if(rt_capture){ rt_cap_begin("blas scal"); rt_cap(n); return; } for(int i=0;i<n;i++) x[(size_t)i*ix]*=a; } \
 T cblas_##P##nrm2(const int n,const T*x,const int ix){ if(rt_capture){ rt_cap_begin("blas nrm2"); rt_cap(n); return 0; } if(rt_blas_exact){ nsym_mode("overflow",0); T r=0; for(int i=0;i<n;i++) r=__builtin_hypot(r,x[(size_t)i*ix]); nsym_mode("overflow",1); return r; } T s=0; for(int i=0;i<n;i++) s+=x[(size_t)i*ix]*x[(size_t)i*ix]; return __builtin_sqrt(s); } \
 T cblas_##P##dot(const int n,const T*x,const int ix,const T*y,const int iy){ T s=0; for(int i=0;i<n;i++) s+=x[(size_t)i*ix]*y[(size_t)i*iy]; return s; } \
 void cblas_##P##copy(const int n,const T*x,const int ix,T*y,const int iy){ for(int i=0;i<n;i++) y[(size_t)i*iy]=x[(size_t)i*ix]; }
L1(s,float) L1(d,double)
}
// out-of-line members of std::string, so that code using strings can be executed
template class std::basic_string<char>;

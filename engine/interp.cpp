#include <ucontext.h>
#include <sys/mman.h>
#include <exception>
// nsym: symbolic executor for LLVM IR compiled from the real NNTile sources.
// Paths are explored by fork(2); every branch on a symbolic condition is decided by z3.
#include "term.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <random>
#include <set>
#include <chrono>
using namespace llvm;
using std::string; using std::vector;
#undef major
// ---------------------------------------------------------------- shared state
struct Shared { std::atomic<int> tokens; std::atomic<long> paths, completed, killed, truncated, unsupported, instr, queries, unknown, solverUs, checks, checksSynt, checksSolver, checksUnknown, checksConf, candidates, forks, errs, obligations; std::atomic<int> stop; double deadline; std::atomic<uint16_t> msgCount[4096]; std::atomic<uint8_t> fn[1<<16]; };
static Shared*SH; static int logfd=-1; static bool ownToken=true; static vector<pid_t> kids; static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static string jstr(const string&s){ string o="\""; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c;} return o+"\""; }
static void logLine(const string&s){ string t=s+"\n"; ssize_t r=write(logfd,t.data(),t.size()); (void)r; }
static long instrCount=0; static long pathLimit=1000000;
static uint64_t stepLimit=400000000ull;
static void finish(int kind){ // 0 complete 1 killed 2 truncated 3 unsupported/error
    SH->instr+=instrCount; if(kind==0) SH->completed++; else if(kind==1) SH->killed++; else if(kind==2) SH->truncated++; else SH->unsupported++;
    if(ownToken) SH->tokens++;
    for(pid_t k:kids) waitpid(k,0,0);
    _exit(0); }
static int forkN(int n){
    if(now()>SH->deadline) SH->stop=1; if(SH->stop) finish(2);
    for(int i=0;i<n-1;i++){
        if(SH->stop||SH->paths>pathLimit){ continue; }
        bool tok=false; int t=SH->tokens; while(t>0&&!tok) tok=SH->tokens.compare_exchange_weak(t,t-1);
        SH->forks++;
        pid_t p=fork(); if(p<0){ if(tok) SH->tokens++; SH->truncated++; continue; }
        if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); kids.clear(); ownToken=tok; instrCount=0; SH->paths++; return i; }
        if(tok) kids.push_back(p); else { int st=0; waitpid(p,&st,0); if(WIFSIGNALED(st)){ SH->errs++; logLine("{\"k\":\"crash\",\"sig\":"+std::to_string(WTERMSIG(st))+"}"); } } }
    if((SH->stop||SH->paths>pathLimit)&&n>1) SH->truncated++;
    return n-1; }
// ---------------------------------------------------------------- values & memory
enum VK: uint8_t { CONC, FLT, SINT, BOOL, UNDEFV, FBITS, AGG, BLOB };
struct Val { VK k=CONC; uint64_t b=0; const void*s=nullptr; };
struct Blob { vector<uint8_t> raw, sh; };
static Val C(uint64_t b){ Val v; v.b=b; return v; } static Val F(PP p){ Val v; v.k=FLT; v.s=p; return v; }
static Val SI(IP i){ Val v; if(i->op==I_CONST){ v.b=i->c; return v; } v.k=SINT; v.s=i; return v; }
static Val BO(BP b){ Val v; if(b->kind==B_TRUE) return C(1); if(b->kind==B_FALSE) return C(0); v.k=BOOL; v.s=b; return v; }
static Val UD(){ Val v; v.k=UNDEFV; return v; }
static Val AG(vector<Val>&&x){ Val v; v.k=AGG; v.s=new vector<Val>(std::move(x)); return v; }
static const vector<Val>& agg(const Val&v){ return *(const vector<Val>*)v.s; }
static const uint64_t ABASE=0x600000000000ull, ASIZE=1ull<<31, SBASE=0x610000000000ull;
static uint64_t abrk=ABASE+4096;
static inline uint8_t* RAW(uint64_t a){ return (uint8_t*)a; } static inline uint8_t* SHD(uint64_t a){ return (uint8_t*)(SBASE+(a-ABASE)); }
enum { S_RED=0,S_INIT=1,S_UNINIT=2,S_FREED=3,S_C1=0x10,S_C2=0x11,S_C4=0x12,S_C8=0x13,S_CONT=0x20 };
struct Cell { VK k; const void*s; int w; };
static vector<Cell> cells(1); static std::map<std::tuple<int,const void*,int>,uint32_t> cellIdx;
struct Obj { uint64_t size; string what; bool freed=false; bool heap=false; };
static std::map<uint64_t,Obj> objs;
static void fail(const string&msg,bool always=true,BP extra=nullptr);
static uint64_t alloc(uint64_t size,const string&what,bool init,bool heap,uint64_t red=512){
    uint64_t a=(abrk+red+15)&~15ull; if(a+size+red+4096>ABASE+ASIZE) throw Unsupported{"out of arena"}; abrk=a+size; memset(SHD(a),init?S_INIT:S_UNINIT,size); objs[a]={size,what,false,heap}; return a; }
static string objDesc(uint64_t a){ auto it=objs.upper_bound(a); if(it==objs.begin()) return "wild address"; --it; long off=a-it->first; char b[200]; snprintf(b,200,"offset %ld of %s object of size %lu",off,it->second.what.c_str(),(unsigned long)it->second.size); return b; }
static inline bool inArena(uint64_t a,uint64_t n){ return a>=ABASE&&a+n<=ABASE+ASIZE&&n<ASIZE; }
static string curLoc();
struct PathEnd{};
static string memDetail;
static void memErr(uint64_t a,uint64_t n,const char*what){
    string d= inArena(a,n)?objDesc(a):(a<4096?"null pointer":"wild address"); bool fr=inArena(a,n)&&SHD(a)[0]==S_FREED; memDetail=std::to_string(n)+" bytes at "+d; fail(string("memory error: ")+(fr?"use after free: ":"")+what+" outside the object ["+curLoc()+"]"); finish(0); }
static void checkAcc(uint64_t a,uint64_t n,const char*what){
    if(n==0) return; if(!inArena(a,n)) memErr(a,n,what); const uint8_t*s=SHD(a);
    if(n==8){ uint64_t v; memcpy(&v,s,8); if(v==0x0101010101010101ull) return; }
    for(uint64_t i=0;i<n;i++) if(s[i]==S_RED||s[i]==S_FREED) memErr(a,n,what); }
static void setConc(uint64_t a,const void*p,uint64_t n){ memcpy(RAW(a),p,n); memset(SHD(a),S_INIT,n); }
static void killStraddle(uint64_t a,uint64_t n){ // a partial overwrite of a symbolic cell
    if(n==0) return; if(*SHD(a)==S_CONT){ uint64_t b=a; while(*SHD(b)==S_CONT){ *SHD(b)=S_UNINIT; b--; } *SHD(b)=S_UNINIT; uint64_t e=a; while(e<a+n&&*SHD(e)==S_CONT){ *SHD(e)=S_UNINIT; e++; } }
    uint64_t e=a+n; while(*SHD(e)==S_CONT){ *SHD(e)=S_UNINIT; e++; } }
static void setCell(uint64_t a,int size,VK k,const void*s,int w){
    auto key=std::make_tuple((int)k,s,w); auto it=cellIdx.find(key); uint32_t id; if(it==cellIdx.end()){ id=cells.size(); cells.push_back({k,s,w}); cellIdx[key]=id; } else id=it->second;
    uint64_t v=id; if(size==1&&id>255) throw Unsupported{"too many symbolic bytes"}; memcpy(RAW(a),&v,size); uint8_t*s2=SHD(a); s2[0]= size==8?S_C8:size==4?S_C4:size==2?S_C2:S_C1; for(int i=1;i<size;i++) s2[i]=S_CONT; }
static long garbageN=0; static std::set<int> garbageAtoms;
static PP freshGarbage(){ string n="garbage#"+std::to_string(garbageN++); PP p=pvar(n); garbageAtoms.insert(mono(p->t[0].first).f[0].first); return p; }
static bool hasGarbage(PP p){ if(garbageAtoms.empty()||p->kind!=P_POLY) return false; for(auto&x:p->t) for(auto&f:mono(x.first).f) if(garbageAtoms.count(f.first)) return true; return false; }
// ---------------------------------------------------------------- path condition
static vector<BP> pc; static z3::context*Z; static Z3T*ZT; static z3::solver*pcs; // incremental path-condition solver
static bool modeFP=false; // floating point values are IEEE values, decided bit by bit
struct VarInfo { string name; int kind; double lo,hi; int64_t ilo,ihi; }; // 0 real 1 pos 2 bounded 3 int
static vector<VarInfo> vars; static vector<std::pair<string,int64_t>> picks; static std::map<string,int> nameCount;
static vector<NEnv> models; static std::mt19937_64 rng(12345); static unsigned RL=3000000; static int seed=1;
static double rnd(const VarInfo&v){ std::uniform_real_distribution<double> u(-2,2); if(v.kind==1) return 0.25+std::fabs(u(rng)); if(v.kind==2) return v.lo+(v.hi-v.lo)*std::uniform_real_distribution<double>(0,1)(rng); return u(rng); }
static void newVar(const VarInfo&v){ vars.push_back(v); for(auto&m:models){ if(v.kind==3) m.iv[v.name]=v.ilo+(int64_t)(rng()%(uint64_t)(v.ihi-v.ilo+1?v.ihi-v.ilo+1:1)); else m.v[v.name]=rnd(v); m.pc.clear(); } }
static NEnv randEnv(){ NEnv e; for(auto&v:vars) if(v.kind==3) e.iv[v.name]=v.ilo+(int64_t)(rng()%(uint64_t)(v.ihi-v.ilo+1?v.ihi-v.ilo+1:1)); else e.v[v.name]=rnd(v); for(long i=0;i<garbageN;i++) e.v["garbage#"+std::to_string(i)]=1e3+i; return e; }
static void drain(z3::solver&s){ auto ax=std::move(ZT->axioms); ZT->axioms.clear(); for(auto&a:ax) s.add(a); }
static vector<z3::expr> allAxioms;
static z3::check_result query(z3::solver&s); static bool envFromModel(z3::model&m,NEnv&e); static void emitCand(const string&msg,vector<NEnv>&envs,const string&detail);
static void drainAll(){ for(auto&a:ZT->axioms){ allAxioms.push_back(a); pcs->add(a);} ZT->axioms.clear();
    while(!ZT->range.empty()){ IP i=ZT->range.back(); ZT->range.pop_back(); static std::unordered_set<const IT*> done; if(!done.insert(i).second) continue; z3::expr x=ZT->I(i); for(auto&a:ZT->axioms){ allAxioms.push_back(a); pcs->add(a);} ZT->axioms.clear();
        z3::expr hi=Z->int_val(mpz_class(mpz_class(1)<<(i->w-1)).get_str().c_str()); pcs->push(); pcs->add(x>=hi||x< -hi); auto r=query(*pcs); vector<NEnv> envs; if(r==z3::sat){ z3::model m=pcs->get_model(); NEnv e; if(envFromModel(m,e)) envs.push_back(e); } pcs->pop(); if(!envs.empty()) emitCand("an integer computation leaves the range of its type",envs,""); if(r!=z3::unsat) throw Unsupported{r==z3::sat?"integer mode: possible integer overflow":"integer mode: range not proved"}; } }
static Facts G;
static void addPC(BP b){ if(b->kind==B_TRUE) return; pc.push_back(b); if(modeFP){ models.clear(); return; } assertPos(b); G.add(b); G.memo.clear(); z3::expr e=ZT->B(b); drainAll(); pcs->add(e); vector<NEnv> k; for(auto&m:models) if(beval(b,m)) k.push_back(m); models.swap(k); }
static double qd(const z3::expr&e){ string s; z3::expr v=e; if(v.is_algebraic()) { s=Z3_get_numeral_decimal_string(*Z,v,20); return atof(s.c_str()); } if(v.is_numeral()){ s=Z3_get_numeral_decimal_string(*Z,v,20); return atof(s.c_str()); } return 0.5; }
static bool envFromModel(z3::model&m,NEnv&e){
    for(auto&v:vars){ if(v.kind==3){ if(intMode){ z3::expr x=m.eval(Z->int_const(v.name.c_str()),true); int64_t q=0; if(!x.is_numeral_i64(q)) return false; if(q<v.ilo||q>v.ihi) q=v.ilo; e.iv[v.name]=q; continue; } z3::expr x=m.eval(Z->bv_const(v.name.c_str(),64),true); uint64_t u=0; if(Z3_get_numeral_uint64(*Z,x,(uint64_t*)&u)){ int64_t q=(int64_t)u; if(q<v.ilo||q>v.ihi) q=v.ilo; e.iv[v.name]=q; } else return false; }
        else { z3::expr x=m.eval(Z->real_const(v.name.c_str()),true); double q=qd(x); if(v.kind==1&&!(q>0)) q=0.5; if(v.kind==2&&!(q>=v.lo&&q<=v.hi)) q=(v.lo+v.hi)/2; e.v[v.name]=q; } }
    for(long i=0;i<garbageN;i++) e.v["garbage#"+std::to_string(i)]=1e3+i; return true; }
static volatile bool inSolver=false; static int softSecs=8; static bool dbg=getenv("NSYM_DBG")!=nullptr;
static int softAlarm=0; static void onAlarm(int){ if(inSolver&&softAlarm){ softAlarm=0; Z3_interrupt(*Z); alarm(12); return; } if(inSolver){ SH->unknown++; SH->truncated++; logLine("{\"k\":\"hang\"}"); SH->instr+=instrCount; if(ownToken) SH->tokens++; for(pid_t k:kids) waitpid(k,0,0); _exit(0);} }
static z3::check_result query(z3::solver&s){ double t=now(); SH->queries++; z3::check_result r; inSolver=true; softAlarm=1; alarm(softSecs); try { r=s.check(); } catch(z3::exception&e){ r=z3::unknown; } alarm(0); inSolver=false; SH->solverUs+=(long)((now()-t)*1e6); if(r==z3::unknown) SH->unknown++; if(dbg&&now()-t>1){ std::ostringstream os; os<<s; string q=os.str(); fprintf(stderr,"SLOW %.1f %s\n%s\n",now()-t,r==z3::unknown?"unknown":"",q.size()>6000?q.substr(q.size()-6000).c_str():q.c_str()); } return r; }
// ---- floating point mode: every symbolic floating point value is a term of z3's theory of IEEE floats
static std::unordered_map<const Poly*,z3::expr> *fpx; static vector<z3::expr> fpAx; static long fpN=0; static int fpSecs=20; static std::map<std::string,z3::expr>*fpVar;
static z3::check_result satFP(BP b,NEnv*out){
    static z3::tactic*T=nullptr; if(!T) T=new z3::tactic(z3::tactic(*Z,"simplify")&z3::tactic(*Z,"propagate-values")&z3::tactic(*Z,"fpa2bv")&z3::tactic(*Z,"simplify")&z3::tactic(*Z,"propagate-values")&z3::tactic(*Z,"solve-eqs")&z3::tactic(*Z,"bit-blast")&z3::tactic(*Z,"sat"));
    z3::solver s=T->mk_solver(); for(auto p:pc) s.add(ZT->B(p)); s.add(ZT->B(b)); for(auto&a:fpAx) s.add(a); int old=softSecs; softSecs=fpSecs; auto r=query(s); softSecs=old;
    if(r==z3::sat){ NEnv e; z3::model m=s.get_model(); for(auto&v:vars){ auto it=fpVar->find(v.name); if(it==fpVar->end()) continue; z3::expr x=m.eval(it->second,true); z3::expr bv=m.eval(z3::expr(*Z,Z3_mk_fpa_to_ieee_bv(*Z,x)),true); uint64_t u=0; if(!Z3_get_numeral_uint64(*Z,bv,&u)) continue; if(Z3_fpa_get_sbits(*Z,it->second.get_sort())==24){ float f; uint32_t w=u; memcpy(&f,&w,4); e.v[v.name]=f; } else { double d; memcpy(&d,&u,8); e.v[v.name]=d; } } if(out) *out=e; }
    return r; }
// satisfiability of pc & b
static z3::check_result satPC(BP b,NEnv*out=nullptr){
    if(b->kind==B_FALSE) return z3::unsat; if(modeFP) return satFP(b,out); for(auto&m:models) if(beval(b,m)){ if(out) *out=m; return z3::sat; }
    z3::expr e=ZT->B(b); drainAll(); pcs->push(); pcs->add(e); z3::check_result r=query(*pcs); if(r==z3::sat){ z3::model m=pcs->get_model(); NEnv ne; if(envFromModel(m,ne)){ if(out) *out=ne; bool ok=beval(b,ne); for(auto p:pc) ok=ok&&beval(p,ne); ne.pc.clear(); if(ok&&models.size()<24) models.push_back(ne); } }
    pcs->pop(); return r; }
static BP bsimp(BP b){ int k=G.known(b); if(k>=0) return bconst(k); switch(b->kind){ case B_NOT: return bnot(bsimp(b->a)); case B_AND: return band(bsimp(b->a),bsimp(b->b)); case B_OR: return bor(bsimp(b->a),bsimp(b->b)); case B_GT0: case B_EQ0: { try { PP q=psimp(b->p,G); if(q!=b->p&&q->kind==P_POLY){ BP r= b->kind==B_GT0?bgt0(q):beq0(q); int k2=G.known(r); return k2>=0?bconst(k2):r; } } catch(Unsupported&){} return b; } default: return b; } }
static bool decide(BP b){
    if(b->kind!=B_TRUE&&b->kind!=B_FALSE&&!modeFP) b=bsimp(b);
    if(b->kind==B_TRUE) return true; if(b->kind==B_FALSE) return false;
    for(auto p:pc){ if(p==b) return true; if(p==bnot(b)) return false; }
    softSecs=1; z3::check_result t=satPC(b), f=satPC(bnot(b)); softSecs=8; // a branch that cannot be settled quickly is explored both ways
    if(t==z3::unsat&&f==z3::unsat) finish(1);
    if(t==z3::unsat){ return false; } if(f==z3::unsat) return true;
    int r=forkN(2); bool v=(r==0); addPC(v?b:bnot(b)); return v; }
// ---------------------------------------------------------------- reporting
static std::map<string,int> failCount; static string harnessEntry;
static string envJson(NEnv&e){ string s="{"; bool first=true; for(auto&v:vars){ if(!first) s+=","; first=false; char b[64]; if(v.kind==3) snprintf(b,64,"\"%ld\"",(long)e.iv[v.name]); else snprintf(b,64,"\"%.17g\"",e.v[v.name]); s+=jstr(v.name)+":"+b; } return s+"}"; }
static string picksJson(){ string s="["; for(size_t i=0;i<picks.size();i++){ if(i) s+=","; s+="["+jstr(picks[i].first)+","+std::to_string(picks[i].second)+"]"; } return s+"]"; }
static void emitCand(const string&msg,vector<NEnv>&envs,const string&detail){
    if(++failCount[msg]>3) return; SH->candidates++; if(++SH->msgCount[std::hash<string>()(msg)%4096]>24) return; string s="{\"k\":\"cand\",\"msg\":"+jstr(msg)+",\"picks\":"+picksJson()+",\"detail\":"+jstr(detail.substr(0,1500))+",\"loc\":"+jstr(curLoc())+",\"envs\":["; for(size_t i=0;i<envs.size()&&i<4;i++){ if(i) s+=","; s+=envJson(envs[i]); } s+="]}"; logLine(s); }
static bool pcHolds(NEnv&e){ for(auto p:pc) if(!beval(p,e)) return false; return true; }
static void fail(const string&msg,bool always,BP extra){ // failure under pc (& extra)
    vector<NEnv> envs; for(auto&m:models) if(!extra||beval(extra,m)){ envs.push_back(m); if(envs.size()>=3) break; }
    if(envs.empty()){ NEnv e; auto r=satPC(extra?extra:btrue(),&e); if(r==z3::unsat) return; if(r==z3::sat) envs.push_back(e); else { SH->checksUnknown++; for(int i=0;i<2000&&envs.size()<2;i++){ NEnv x=randEnv(); if(pcHolds(x)&&(!extra||beval(extra,x))) envs.push_back(x); } } }
    if(envs.empty()){ logLine("{\"k\":\"inconclusive\",\"msg\":"+jstr(msg)+",\"picks\":"+picksJson()+"}"); return; }
    emitCand(msg,envs,memDetail); }
static vector<std::tuple<PP,PP,string>> pending; // equalities to be proved at path end (one solver call)
static void checkBool(BP c,const string&msg){ SH->checks++; if(c->kind==B_TRUE){ SH->checksSynt++; return; } SH->checksSolver++; BP n=bnot(c); NEnv e; auto r=satPC(n,&e); if(r==z3::unsat) return; if(r==z3::unknown){ SH->checksUnknown++; } fail(msg,true,n); }
static void flushPending(){
    // one query: pc & (D1!=0 | D2!=0 | ...)
    vector<std::pair<PP,PP>> same; size_t sz=0; // equal normal forms: still put to z3, as disequalities of the computed terms
    vector<std::tuple<PP,string,PP,PP>> ds; Facts facts; for(int r=0;r<3;r++) for(auto b:pc) facts.add(b);
    for(auto&t:pending){ PP a=std::get<0>(t),b=std::get<1>(t); SH->checks++;
        if(a->kind!=P_POLY||b->kind!=P_POLY){ if(a->kind==b->kind){ SH->checksSynt++; continue; } SH->checksSolver++; vector<NEnv> envs; for(auto&m:models){ envs.push_back(m); if(envs.size()>2) break; } if(envs.empty()){ NEnv e; if(satPC(btrue(),&e)==z3::sat) envs.push_back(e); } if(!envs.empty()) emitCand(std::get<2>(t),envs,"got "+pstr(a)+" expected "+pstr(b)); else logLine("{\"k\":\"inconclusive\",\"msg\":"+jstr(std::get<2>(t))+"}"); continue; }
        PP d=psub(a,b); if(d->isZero()){ SH->checksSynt++; sz+=a->t.size(); if(sz<3000) same.push_back({a,b}); continue; }
        { // a clear difference on assignments satisfying the path condition: a counterexample, no proof is attempted
            vector<NEnv> envs; auto tryEnv=[&](NEnv&e){ e.pc.clear(); double x=peval(d,e),u=peval(a,e),v=peval(b,e); e.pc.clear(); if(!std::isnan(x)&&!std::isinf(x)&&std::fabs(x)>2e-2*(1e-3+std::fabs(u)+std::fabs(v))) envs.push_back(e); };
            for(auto&m:models) if(envs.size()<4) tryEnv(m); for(int i=0;i<40&&envs.size()<3&&(i<8||!envs.empty());i++){ NEnv e=randEnv(); if(pcHolds(e)) tryEnv(e); }
            if(envs.size()>=2){ SH->checksSolver++; emitCand(std::get<2>(t),envs,"got "+pstr(a,12)+"  expected "+pstr(b,12)); continue; } }
        PP nmr=d; try { PP q=psimp(d,facts); if(q->isZero()){ SH->checksSynt++; continue; } nmr=d=q; } catch(Unsupported&){} try { nmr=pnumer(d); } catch(Unsupported&){ nmr=d; }
        if(nmr->isZero()){ SH->checksSynt++; continue; } try { PP q=psimp(nmr,facts); if(q->isZero()){ SH->checksSynt++; continue; } q=pnumer(q); if(q->isZero()){ SH->checksSynt++; continue; } nmr=q; } catch(Unsupported&){}
        if(dbg) logLine("{\"k\":\"dbg\",\"s\":"+jstr(pstr(nmr,12)+"  pc: "+[&]{ string r; for(auto q:pc) r+=bstr(q)+" ; "; return r; }())+"}");
        ds.push_back({nmr,std::get<2>(t),a,b}); SH->checksSolver++; }
    pending.clear();
    if(!same.empty()){ z3::expr_vector ev(*Z); for(auto&x:same) ev.push_back(ZT->P(x.first)!=ZT->P(x.second)); z3::expr q=z3::mk_or(ev); drainAll(); pcs->push(); pcs->add(q); auto r=query(*pcs); pcs->pop(); if(r==z3::unsat) SH->checksConf+=same.size(); else if(r==z3::sat) logLine("{\"k\":\"inconclusive\",\"msg\":\"normal form not confirmed by z3\"}"); }
    if(ds.empty()){ return; }
    auto one=[&](std::tuple<PP,string,PP,PP>&d){
        PP D=std::get<0>(d); PP raw=psub(std::get<2>(d),std::get<3>(d)); // numeric witness first
        vector<NEnv> envs; auto score=[&](NEnv&e){ e.pc.clear(); double x=peval(raw,e),a=peval(std::get<2>(d),e),b=peval(std::get<3>(d),e); if(std::isnan(x)||std::isinf(x)) return 0.0; return std::fabs(x)/(1e-3+std::fabs(a)+std::fabs(b)); };
        auto consider=[&](NEnv&e){ double s=score(e); if(s>2e-2) envs.push_back(e); };
        for(auto&m:models) consider(m); for(int i=0;i<300&&envs.size()<4;i++){ NEnv e=randEnv(); if(pcHolds(e)) consider(e); }
        z3::expr q=ZT->P(D)!=0; drainAll(); pcs->push(); pcs->add(q); auto r=query(*pcs); if(r==z3::sat&&envs.empty()){ z3::model m=pcs->get_model(); NEnv e; if(envFromModel(m,e)) { envs.push_back(e); } } pcs->pop();
        if(r==z3::unsat) return; 
        if(envs.empty()){ SH->checksUnknown++; logLine("{\"k\":\"inconclusive\",\"msg\":"+jstr(std::get<1>(d))+",\"picks\":"+picksJson()+",\"detail\":"+jstr("D="+pstr(D,12))+"}"); return; }
        emitCand(std::get<1>(d),envs,"got "+pstr(std::get<2>(d),12)+"  expected "+pstr(std::get<3>(d),12)); };
    if(ds.size()>1){ z3::expr_vector ev(*Z); for(auto&d:ds) ev.push_back(ZT->P(std::get<0>(d))!=0); z3::expr q=z3::mk_or(ev); drainAll(); pcs->push(); pcs->add(q); auto r=query(*pcs); pcs->pop(); if(r==z3::unsat) return; }
    for(auto&d:ds){ one(d); } }
// ---------------------------------------------------------------- module & decoded code
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout*DL;
struct Opnd { int slot=-1; Val c; };
struct PhiMove { int dst; Opnd src; };
struct DFunc; struct DI { unsigned op=0; int dst=-1; const Instruction*I=nullptr; Type*ty=nullptr; int bits=0; bool isF=false,f32=false; uint64_t size=0; vector<Opnd> o; int t0=-1,t1=-1; uint64_t off=0; vector<std::pair<Opnd,int64_t>> idx; int pred=0; DFunc*callee=nullptr; const Function*cf=nullptr; int ext=-1; vector<std::pair<uint64_t,int>> cases; };
struct DBlock { vector<DI> ins; std::map<int,vector<PhiMove>> phi; };
struct DFunc { const Function*f; int id=0; bool decoded=false; vector<DBlock> bl; int nslots=0; std::unordered_map<const Value*,int> slot; int ext=-2; };
static std::unordered_map<const Function*,DFunc*> dfs; static vector<DFunc*> fnById; static std::unordered_map<const GlobalValue*,uint64_t> gaddr; static std::unordered_map<uint64_t,DFunc*> faddr;
static const DI*curI=nullptr; static DFunc*curF=nullptr; static vector<DFunc*> cstack;
static string demangle(const string&s){ int st=0; char*d=abi::__cxa_demangle(s.c_str(),0,0,&st); if(!d) return s; string r=d; free(d); return r; }
static string curLoc(){ string s; if(curF) { s=demangle(curF->f->getName().str()); if(s.size()>160) s=s.substr(0,160); } if(curI&&curI->I) if(auto&dl=curI->I->getDebugLoc()) s+=" line "+std::to_string(dl.getLine()); return s; }
static uint64_t tsize(Type*t){ return DL->getTypeStoreSize(t); }
static bool isFP(Type*t){ return t->isFloatTy()||t->isDoubleTy()||t->isHalfTy()||t->isX86_FP80Ty(); }
static uint64_t funcAddr(const Function*f){ auto it=gaddr.find(f); if(it!=gaddr.end()) return it->second; uint64_t a=0x100000+16*(gaddr.size()+1); gaddr[f]=a; auto d=dfs.find(f); DFunc*df; if(d==dfs.end()){ df=new DFunc; df->f=f; dfs[f]=df; df->id=fnById.size(); fnById.push_back(df);} else df=d->second; faddr[a]=df; return a; }
static uint64_t globAddr(const GlobalValue*g);
static Val constVal(const Constant*c);
static Val bitsToF(uint64_t b,Type*t){ if(t->isFloatTy()){ float f; uint32_t u=b; memcpy(&f,&u,4); return F(psnap(f,true)); } if(t->isDoubleTy()){ double d; memcpy(&d,&b,8); return F(psnap(d,false)); } throw Unsupported{"fp type"}; }
static bool ppToBits(PP p,int size,uint64_t&out){ // exactly representable?
    if(p->kind==P_NAN){ if(size==4){ float f=NAN; uint32_t u; memcpy(&u,&f,4); out=u; } else { double d=NAN; memcpy(&out,&d,8);} return true; }
    if(p->kind!=P_POLY){ double s=p->kind==P_PINF?INFINITY:-INFINITY; if(size==4){ float f=s; uint32_t u; memcpy(&u,&f,4); out=u; } else memcpy(&out,&s,8); return true; }
    if(!p->isConst()) return false; mpq_class q=p->cval(); double d=q.get_d(); if(mpq_class(d)!=q) return false; if(size==4){ float f=d; if((double)f!=d) return false; if(psnap(f,true)!=p) return false; uint32_t u; memcpy(&u,&f,4); out=u; } else { if(psnap(d,false)!=p) return false; memcpy(&out,&d,8);} return true; }
static Val loadT(uint64_t a,Type*t);
static void storeT(uint64_t a,Type*t,const Val&v);
static Val zeroOf(Type*t){ if(isFP(t)) return F(pint(0)); if(t->isStructTy()){ vector<Val> v; for(unsigned i=0;i<t->getStructNumElements();i++) v.push_back(zeroOf(t->getStructElementType(i))); return AG(std::move(v)); } if(t->isArrayTy()){ vector<Val> v; for(uint64_t i=0;i<t->getArrayNumElements();i++) v.push_back(zeroOf(t->getArrayElementType())); return AG(std::move(v)); } if(auto*vt=dyn_cast<FixedVectorType>(t)){ vector<Val> v(vt->getNumElements(),zeroOf(vt->getElementType())); return AG(std::move(v)); } return C(0); }
static Val undefOf(Type*t){ if(isFP(t)) return F(pnan()); if(t->isStructTy()){ vector<Val> v; for(unsigned i=0;i<t->getStructNumElements();i++) v.push_back(undefOf(t->getStructElementType(i))); return AG(std::move(v)); } if(t->isArrayTy()){ vector<Val> v; for(uint64_t i=0;i<t->getArrayNumElements();i++) v.push_back(undefOf(t->getArrayElementType())); return AG(std::move(v)); } if(auto*vt=dyn_cast<FixedVectorType>(t)){ vector<Val> v(vt->getNumElements(),undefOf(vt->getElementType())); return AG(std::move(v)); } return UD(); }
static Val constVal(const Constant*c){
    Type*t=c->getType();
    if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) throw Unsupported{"wide int"}; return C(ci->getZExtValue()); }
    if(auto*cf=dyn_cast<ConstantFP>(c)){ if(t->isFloatTy()) return F(psnap(cf->getValueAPF().convertToFloat(),true)); if(t->isDoubleTy()) return F(psnap(cf->getValueAPF().convertToDouble(),false)); APFloat x=cf->getValueAPF(); bool l; x.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&l); return F(psnap(x.convertToDouble(),false)); }
    if(isa<ConstantPointerNull>(c)) return C(0); if(isa<UndefValue>(c)) return undefOf(t); if(isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if(auto*f=dyn_cast<Function>(c)) return C(funcAddr(f)); if(auto*g=dyn_cast<GlobalValue>(c)) return C(globAddr(g));
    if(auto*ca=dyn_cast<ConstantAggregate>(c)){ vector<Val> v; for(auto&o:ca->operands()) v.push_back(constVal(cast<Constant>(o))); return AG(std::move(v)); }
    if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ vector<Val> v; for(unsigned i=0;i<cd->getNumElements();i++) v.push_back(constVal(cd->getElementAsConstant(i))); return AG(std::move(v)); }
    if(auto*ce=dyn_cast<ConstantExpr>(c)){
        switch(ce->getOpcode()){
        case Instruction::GetElementPtr: { APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) throw Unsupported{"const gep"}; Val b=constVal(ce->getOperand(0)); return C(b.b+off.getSExtValue()); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::Trunc: { Val v=constVal(ce->getOperand(0)); unsigned w=t->getIntegerBitWidth(); return C(w>=64?v.b:v.b&((1ull<<w)-1)); }
        case Instruction::Sub: return C(constVal(ce->getOperand(0)).b-constVal(ce->getOperand(1)).b);
        case Instruction::Add: return C(constVal(ce->getOperand(0)).b+constVal(ce->getOperand(1)).b);
        default: break; } }
    string s; raw_string_ostream os(s); c->print(os); throw Unsupported{"constant "+s}; }
static void initGlob(uint64_t a,const Constant*c){
    Type*t=c->getType(); if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) { memset(RAW(a),0,DL->getTypeAllocSize(t)); return; }
    if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initGlob(a+sl->getElementOffset(i),cs->getOperand(i)); return; }
    if(auto*ca=dyn_cast<ConstantArray>(c)){ uint64_t es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initGlob(a+i*es,ca->getOperand(i)); return; }
    if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ auto r=cd->getRawDataValues(); memcpy(RAW(a),r.data(),r.size()); return; }
    if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); uint64_t v=b.getRawData()[0]; memcpy(RAW(a),&v,tsize(t)>8?8:tsize(t)); return; }
    Val v=constVal(c); memcpy(RAW(a),&v.b,tsize(t)); }
static uint64_t globAddr(const GlobalValue*g){
    if(auto*f=dyn_cast<Function>(g)) return funcAddr(f); auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
    if(auto*al=dyn_cast<GlobalAlias>(g)){ Val v=constVal(al->getAliasee()); return gaddr[g]=v.b; }
    auto*gv=cast<GlobalVariable>(g); uint64_t sz=gv->isDeclaration()?512:(uint64_t)DL->getTypeAllocSize(gv->getValueType()); if(gv->isDeclaration()&&gv->getValueType()->isSized()) sz=std::max<uint64_t>(sz,DL->getTypeAllocSize(gv->getValueType()));
    uint64_t a=alloc(sz,"global "+gv->getName().str(),true,false,128); gaddr[g]=a; memset(RAW(a),0,sz); if(gv->hasInitializer()) initGlob(a,gv->getInitializer()); return a; }
static bool isAggT(Type*t){ return t->isStructTy()||t->isArrayTy()||t->isVectorTy(); }
static Val loadT(uint64_t a,Type*t){
    if(isAggT(t)){ vector<Val> v; if(t->isStructTy()){ auto*sl=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<t->getStructNumElements();i++) v.push_back(loadT(a+sl->getElementOffset(i),t->getStructElementType(i))); } else { Type*et= t->isArrayTy()?t->getArrayElementType():cast<FixedVectorType>(t)->getElementType(); uint64_t n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); uint64_t es=DL->getTypeAllocSize(et); for(uint64_t i=0;i<n;i++) v.push_back(loadT(a+i*es,et)); } return AG(std::move(v)); }
    uint64_t n=tsize(t); checkAcc(a,n,"read"); const uint8_t*s=SHD(a); bool fp=isFP(t);
    bool allI=true,allU=true; for(uint64_t i=0;i<n;i++){ if(s[i]!=S_INIT) allI=false; if(s[i]!=S_UNINIT) allU=false; }
    if(allI){ uint64_t v=0; if(n>8) throw Unsupported{"wide load"}; memcpy(&v,RAW(a),n); if(fp) return bitsToF(v,t); if(t->isIntegerTy(1)) v&=1; return C(v); }
    if(allU){ if(fp){ PP g=freshGarbage(); setCell(a,n,FLT,g,n*8); return F(g); } return UD(); }
    uint8_t want= n==8?S_C8:n==4?S_C4:n==2?S_C2:S_C1; bool cell=s[0]==want; for(uint64_t i=1;i<n;i++) if(s[i]!=S_CONT) cell=false;
    if(cell){ uint64_t id=0; memcpy(&id,RAW(a),n); const Cell&c=cells[id]; Val v; v.k=c.k; v.s=c.s; v.b=c.w;
        if(fp){ if(c.k==FLT) return v; throw Unsupported{"float load of symbolic int"}; }
        if(c.k==FLT){ v.k=FBITS; return v; } if(c.k==SINT&&t->isIntegerTy(1)){ IP i=(IP)c.s; if(i->op==I_ITE&&i->a->op==I_CONST&&i->b->op==I_CONST&&i->a->c==1&&i->b->c==0) return BO(i->cond); return BO(bicmp(33,iop(I_AND,i->w,i,iconst(i->w,1)),iconst(i->w,0))); }
        return v; }
    if(fp){ // partially initialised
        PP g=freshGarbage(); return F(g); }
    Blob*b=new Blob; b->raw.assign(RAW(a),RAW(a)+n); b->sh.assign(s,s+n); Val v; v.k=BLOB; v.s=b; return v; }
static Val flattenB(const Val&v,int w){ if(v.k==BOOL){ return SI(iite((BP)v.s,iconst(w,1),iconst(w,0))); } return v; }
static void storeT(uint64_t a,Type*t,const Val&v){
    if(isAggT(t)){ if(v.k!=AGG) throw Unsupported{"store agg"}; auto&g=agg(v); if(t->isStructTy()){ auto*sl=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<g.size();i++) storeT(a+sl->getElementOffset(i),t->getStructElementType(i),g[i]); } else { Type*et= t->isArrayTy()?t->getArrayElementType():cast<FixedVectorType>(t)->getElementType(); uint64_t es=DL->getTypeAllocSize(et); for(uint64_t i=0;i<g.size();i++) storeT(a+i*es,et,g[i]); } return; }
    uint64_t n=tsize(t); checkAcc(a,n,"write"); killStraddle(a,n);
    switch(v.k){
    case CONC: { uint64_t b=v.b; setConc(a,&b,n); return; }
    case FLT: case FBITS: { uint64_t b; if(ppToBits((PP)v.s,n,b)) setConc(a,&b,n); else setCell(a,n,FLT,v.s,n*8); return; }
    case UNDEFV: memset(SHD(a),S_UNINIT,n); return;
    case BOOL: { Val x=flattenB(v,n*8); setCell(a,n,SINT,x.s,n*8); return; }
    case SINT: { IP i=(IP)v.s; if(i->w<(int)n*8) i=iop(I_ZEXT,n*8,i,nullptr); setCell(a,n,SINT,i,n*8); return; }
    case BLOB: { auto*b=(const Blob*)v.s; if(b->raw.size()!=n) throw Unsupported{"blob size"}; memcpy(RAW(a),b->raw.data(),n); memcpy(SHD(a),b->sh.data(),n); return; }
    default: throw Unsupported{"store kind"}; } }
static void memCopy(uint64_t d,uint64_t s,uint64_t n){ if(n==0) return; checkAcc(s,n,"read"); checkAcc(d,n,"write"); killStraddle(d,n); memmove(RAW(d),RAW(s),n); memmove(SHD(d),SHD(s),n); }
#include "interp_exec.inc"

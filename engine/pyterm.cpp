// C interface to the term engine and its decision procedure, used by the Python-level checks
// (tools/pysym.py): terms are built by executing the real Python code on symbolic elements.
#include "term.h"
#include <chrono>
#include <cmath>
#include <cstring>
#include <random>
#include <set>
using std::string; using std::vector;
static std::vector<PP> T; static std::unordered_map<PP,int> TI; static string err;
static z3::context*Z; static Z3T*ZT; static vector<z3::expr> ax; static vector<BP> facts; static Facts F; static unsigned softMs=8000;
struct VarInfo { string name; int kind; double lo,hi; }; static vector<VarInfo> vars;
static int id(PP p){ auto it=TI.find(p); if(it!=TI.end()) return it->second; T.push_back(p); TI[p]=T.size()-1; return T.size()-1; }
template<class G> static int guard(G g){ try { return id(g()); } catch(Unsupported&u){ err=u.msg; return -1; } catch(std::exception&e){ err=e.what(); return -1; } }
static void init(){ if(!Z){ Z=new z3::context; ZT=new Z3T(*Z); } }
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Stats { long queries=0,unknown=0,syntactic=0,solver=0; double secs=0; } S;
static std::mt19937_64 rng(1);
static double rnd(const VarInfo&v){ std::uniform_real_distribution<double> u(-2,2); if(v.kind==1) return 0.25+std::fabs(u(rng)); if(v.kind==2) return v.lo+(v.hi-v.lo)*std::uniform_real_distribution<double>(0.02,0.98)(rng); return u(rng); }
static z3::check_result query(z3::solver&s){ z3::params p(*Z); p.set("timeout",softMs); s.set(p); double t=now(); S.queries++; z3::check_result r; try { r=s.check(); } catch(z3::exception&){ r=z3::unknown; } S.secs+=now()-t; if(r==z3::unknown) S.unknown++; return r; }
static void drain(){ for(auto&a:ZT->axioms) ax.push_back(a); ZT->axioms.clear(); }
static void base(z3::solver&s){ for(auto b:facts){ z3::expr e=ZT->B(b); drain(); s.add(e); } for(auto&v:vars){ z3::expr x=Z->real_const(v.name.c_str()); if(v.kind==1) s.add(x>0); if(v.kind==2){ s.add(x>Z->real_val(std::to_string(v.lo).c_str())); s.add(x<Z->real_val(std::to_string(v.hi).c_str())); } } for(auto&a:ax) s.add(a); }
extern "C" {
const char* t_err(){ return err.c_str(); }
void t_reset(unsigned seed,unsigned ms){ rng.seed(seed); facts.clear(); F=Facts(); vars.clear(); softMs=ms; }
int t_rat(const char*s){ return guard([&]{ mpq_class q(s); q.canonicalize(); return pconst(q); }); }
int t_float(double v,int f32){ return guard([&]{ return psnap(v,f32); }); }
int t_var(const char*n,int kind,double lo,double hi){ vars.push_back({n,kind,lo,hi}); return guard([&]{ return pvar(n,kind==1||(kind==2&&lo>=0)); }); }
int t_cut(const char*n,int positive){ return guard([&]{ return pvar(n,positive); }); } // abstraction variable
int t_add(int a,int b){ return guard([&]{ return padd(T[a],T[b]); }); }
int t_sub(int a,int b){ return guard([&]{ return psub(T[a],T[b]); }); }
int t_mul(int a,int b){ return guard([&]{ return pmul(T[a],T[b]); }); }
int t_inv(int a){ return guard([&]{ return pinv(T[a]); }); }
int t_pow(int a,int k){ return guard([&]{ return ppow(T[a],k); }); }
int t_fun(const char*f,int a){ return guard([&]{ string n=f; PP p=T[a]; if(n=="exp") return pexp(p); if(n=="log") return plog(p); if(n=="sqrt") return psqrt(p); if(n=="abs") return pabs(p); if(n=="pos") return ppp(p); if(n=="ispos") return pind(bgt0(p)); return pfun(n,{p}); }); }
int t_nterms(int a){ return T[a]->kind==P_POLY?(int)T[a]->t.size():0; }
int t_kind(int a){ return T[a]->kind; }
int t_isconst(int a){ return T[a]->isConst(); }
double t_eval0(int a){ NEnv e; return peval(T[a],e); }
int t_syntpos(int a){ return syntPos(T[a],true); }
const char* t_str(int a,int n){ static string s; s=pstr(T[a],n); return s.c_str(); }
void t_assume_pos(int a){ BP b=bgt0(T[a]); facts.push_back(b); assertPos(b); F.add(b); }
void t_stats(double*o){ o[0]=S.queries; o[1]=S.unknown; o[2]=S.syntactic; o[3]=S.solver; o[4]=S.secs; }
double t_value(int a,const char**names,const double*vals,int n){ NEnv e; for(int i=0;i<n;i++) e.v[names[i]]=vals[i]; return peval(T[a],e); }
// sign of a term: 1 provably >0, 0 unknown/other (solver)
int t_provepos(int a){ init(); BP b=bgt0(T[a]); if(b->kind==B_TRUE) return 1; if(b->kind==B_FALSE) return 0; z3::expr e=ZT->B(bnot(b)); drain(); z3::solver s(*Z); base(s); s.add(e); return query(s)==z3::unsat; }
// n equalities a[i]==b[i]: out[i]=0 proved, 1 not proved.  Equal normal forms are put to z3 together, as
// disequalities of the computed terms; the others as disequalities of their numerators.
int t_prove(const int*a,const int*b,int n,int*out){
    init(); vector<std::pair<PP,PP>> same; size_t sz=0; vector<std::pair<int,PP>> ds;
    for(int i=0;i<n;i++){ out[i]=1; PP x=T[a[i]],y=T[b[i]]; if(x->kind!=P_POLY||y->kind!=P_POLY){ if(x->kind==y->kind){ out[i]=0; S.syntactic++; } continue; }
        try { PP d=psub(x,y); if(d->isZero()){ out[i]=0; S.syntactic++; sz+=x->t.size(); if(sz<3000) same.push_back({x,y}); continue; }
            { bool diff=false; for(int k=0;k<3&&!diff;k++){ NEnv e; for(auto&v:vars) e.v[v.name]=rnd(v); bool ok=true; for(auto f:facts) ok=ok&&beval(f,e); if(!ok) continue; double v=peval(d,e),u=peval(x,e),w=peval(y,e); if(std::isfinite(v)&&std::fabs(v)>1e-6*(1e-3+std::fabs(u)+std::fabs(w))) diff=true; } if(diff){ S.solver++; continue; } }
            PP q=d; try { q=psimp(d,F); } catch(Unsupported&){} if(q->isZero()){ out[i]=0; S.syntactic++; continue; } try { q=pnumer(q); } catch(Unsupported&){} if(q->isZero()){ out[i]=0; S.syntactic++; continue; } try { q=psimp(q,F); if(!q->isZero()) q=pnumer(q); } catch(Unsupported&){} if(q->isZero()){ out[i]=0; S.syntactic++; continue; }
            ds.push_back({i,q}); S.solver++; } catch(Unsupported&u){ err=u.msg; } }
    if(!same.empty()){ z3::expr_vector ev(*Z); for(auto&x:same) ev.push_back(ZT->P(x.first)!=ZT->P(x.second)); drain(); z3::solver s(*Z); base(s); s.add(z3::mk_or(ev)); if(query(s)==z3::sat) return -1; }
    if(!ds.empty()){ z3::expr_vector ev(*Z); for(auto&d:ds) ev.push_back(ZT->P(d.second)!=0); drain(); z3::solver s(*Z); base(s); s.add(z3::mk_or(ev)); auto r=query(s); if(r==z3::unsat) for(auto&d:ds) out[d.first]=0; else if(ds.size()>1) for(auto&d:ds){ z3::solver s1(*Z); base(s1); s1.add(ZT->P(d.second)!=0); drain(); if(query(s1)==z3::unsat) out[d.first]=0; } }
    int bad=0; for(int i=0;i<n;i++) bad+=out[i]; return bad; }
// an assignment on which the two terms differ: values of all declared variables into vals (same order as declared)
int t_witness(int a,int b,double*vals){ init(); PP x=T[a],y=T[b]; for(int k=0;k<400;k++){ NEnv e; for(auto&v:vars) e.v[v.name]=rnd(v); bool ok=true; for(auto f:facts) ok=ok&&beval(f,e); if(!ok) continue; double p=peval(x,e),q=peval(y,e); bool diff= std::isnan(p)!=std::isnan(q) || std::isinf(p)!=std::isinf(q) || std::fabs(p-q)>1e-4*(1e-3+std::fabs(p)+std::fabs(q)); if(diff){ for(size_t i=0;i<vars.size();i++) vals[i]=e.v[vars[i].name]; return 1; } }
    if(x->kind!=P_POLY||y->kind!=P_POLY) return 0; try { PP d=pnumer(psub(x,y)); z3::expr q=ZT->P(d)!=0; drain(); z3::solver s(*Z); base(s); s.add(q); if(query(s)!=z3::sat) return 0; z3::model m=s.get_model(); for(size_t i=0;i<vars.size();i++){ z3::expr v=m.eval(Z->real_const(vars[i].name.c_str()),true); vals[i]=(v.is_numeral()||v.is_algebraic())?atof(Z3_get_numeral_decimal_string(*Z,v,17)):0.5; } return 1; } catch(Unsupported&){ return 0; } }
int t_nvars(){ return vars.size(); } const char* t_varname(int i){ return vars[i].name.c_str(); }
}

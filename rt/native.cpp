// Native implementation of the harness interface: replays a counterexample against real code.
#include <unistd.h>
#include "nsym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <vector>
#include <thread>
#include <mutex>
#include <condition_variable>
static std::map<std::string,std::string> vals; static std::map<std::string,int> cnt; static std::vector<std::pair<std::string,long>> picks; static size_t pk=0; static int gstyle=0; static bool loaded=false; static int reported=0;
static void load(){ if(loaded) return; loaded=true; const char*f=getenv("NSYM_REPLAY"); if(const char*g=getenv("NSYM_GARBAGE")) gstyle=atoi(g); if(!f) return; std::ifstream in(f); std::string l; while(std::getline(in,l)){ std::istringstream s(l); std::string k,n; s>>k>>n; if(k=="pick"){ long v; s>>v; picks.push_back({n,v}); } else if(k=="val"){ std::string v; s>>v; vals[n]=v; } } }
static std::string uname(const char*n){ load(); int k=cnt[n]++; return k?std::string(n)+"#"+std::to_string(k):n; }
static double val(const char*n,double def){ auto u=uname(n); auto it=vals.find(u); return it==vals.end()?def:atof(it->second.c_str()); }
static void violated(const char*m,const char*extra=""){ printf("NSYM-FAIL: %s %s\n",m,extra); fflush(stdout); reported++; }
struct AtEnd{ ~AtEnd(){ } };
extern "C" {
int nsym_reported(){ return reported; }
double nsym_real(const char*n){ return val(n,0.7); } double nsym_real_in(const char*n,double lo,double hi){ double v=val(n,0.5*(lo+hi)); return v<lo?lo:v>hi?hi:v; } double nsym_pos(const char*n){ return val(n,0.7); }
int64_t nsym_int(const char*n,int64_t lo,int64_t hi){ auto u=uname(n); auto it=vals.find(u); int64_t v= it==vals.end()?lo:atoll(it->second.c_str()); return v<lo?lo:v>hi?hi:v; }
int64_t nsym_pick(const char*n,int64_t k){ auto u=uname(n); int64_t v=0; if(pk<picks.size()){ if(picks[pk].first!=u){ printf("NSYM-DIVERGED at pick %s (recorded %s)\n",u.c_str(),picks[pk].first.c_str()); fflush(stdout); _exit(3);} v=picks[pk++].second; } if(v>=k){ printf("NSYM-DIVERGED pick range\n"); _exit(3);} return v; }
int64_t nsym_concrete(int64_t v){ return v; }
void nsym_assume(bool c){ if(!c){ if(reported) _exit(1); printf("NSYM-ASSUME-FALSE\n"); fflush(stdout); _exit(4); } }
void nsym_check(bool c,const char*m){ if(!c) violated(m); }
static void cmp(double a,double b,double tol,const char*m){ char e[128]; snprintf(e,128,"(got %.9g expected %.9g)",a,b); if(std::isnan(a)||std::isnan(b)){ if(std::isnan(a)!=std::isnan(b)) violated(m,e); return; } if(std::isinf(a)||std::isinf(b)){ if(a!=b) violated(m,e); return; } if(std::fabs(a-b)>tol*(1+std::fabs(a)+std::fabs(b))) violated(m,e); }
void nsym_eq(double a,double b,const char*m){ cmp(a,b,1e-10,m); } void nsym_eq32(double a,double b,const char*m){ cmp(a,b,2e-3,m); }
void nsym_reach(const char*){} void nsym_note(const char*){}
void nsym_fail(const char*m){ violated(m); fflush(stdout); _exit(1); }
void nsym_garbage(void*p,size_t n){ load(); if(gstyle==0) memset(p,0xff,n); else if(gstyle==1){ float v=1.2345e4f; for(size_t i=0;i+4<=n;i+=4) memcpy((char*)p+i,&v,4); } else memset(p,0x47,n); }
bool nsym_memsame(const void*a,const void*b,size_t n){ return memcmp(a,b,n)==0; }
void nsym_mode(const char*,int){} double nsym_isfinite(double x){ return std::isfinite(x); } bool nsym_symbolic(void){ return false; }
bool nsym_err_small(double c,double e,double,const char*m){ double d=std::fabs(c-e); if(!(d<=1e-5*(1e-30+std::fabs(e)))) { violated(m); return false; } return true; }
void harness_main();
// fibers as threads of which one runs at a time
static std::mutex fm; static std::condition_variable fcv; static long fcur=-1; static thread_local long fme=-1;
static void fwait(long who){ std::unique_lock<std::mutex> l(fm); fcv.wait(l,[&]{ return fcur==who; }); }
static void fgive(long who){ { std::lock_guard<std::mutex> l(fm); fcur=who; } fcv.notify_all(); }
void nsym_fibers(int64_t n,void(*body)(int64_t),void(*pre)(int64_t),int back){ std::vector<char> done(n,0); std::vector<std::thread> th; bool live=true; for(int r=0;live;r++){ live=false; for(long q=0;q<n;q++){ long j=back?n-1-q:q; if(done[j]) continue; pre(j); fgive(j); if(!r) th.emplace_back([&,j]{ fme=j; fwait(j); body(j); done[j]=1; fgive(-1); }); fwait(-1); if(!done[j]) live=true; } } for(auto&t:th) t.join(); }
void nsym_fiber_yield(void){ long j=fme; fgive(-1); fwait(j); }
}
#include <exception>
#include <unistd.h>
extern "C" void NSYM_ENTRY();
int main(){ load(); try { NSYM_ENTRY(); } catch(std::exception&e){ violated("uncaught exception",e.what()); } catch(...){ violated("uncaught exception"); } if(reported) return 1; printf("NSYM-OK\n"); return 0; }

#include "term.h"
#include <cmath>
#include <deque>
#include <set>
#include <algorithm>
#include <cstring>
#include <sstream>
static std::deque<Atom> atoms; static std::deque<Mono> monos; static std::deque<Poly> polys; static std::deque<BT> bts;
static std::map<std::string,int> atomIdx; static std::map<std::vector<std::array<int,3>>,int> monoIdx;
struct PH { size_t operator()(const Poly*p) const { size_t h=p->kind; for(auto&x:p->t){ h=h*1000003u+x.first; h=h*1000003u+mpz_get_si(x.second.get_num_mpz_t()); h=h*31+mpz_get_si(x.second.get_den_mpz_t()); } return h; } };
struct PE { bool operator()(const Poly*a,const Poly*b) const { if(a->kind!=b->kind||a->t.size()!=b->t.size()) return false; for(size_t i=0;i<a->t.size();i++) if(a->t[i].first!=b->t[i].first||a->t[i].second!=b->t[i].second) return false; return true; } };
#include <unordered_set>
static std::unordered_set<const Poly*,PH,PE> polySet; static std::map<std::string,BP> btIdx;
const Atom& atom(int i){return atoms[i];} const Mono& mono(int i){return monos[i];}
static const size_t MAXTERMS=60000;
static PP mk(Poly&&p){ if(p.t.size()>MAXTERMS) throw Unsupported{"polynomial too large"}; auto it=polySet.find(&p); if(it!=polySet.end()) return *it; p.id=polys.size(); polys.push_back(std::move(p)); polySet.insert(&polys.back()); return &polys.back(); }
static int mkMono(std::vector<std::pair<int,Exp>> f){
    std::vector<std::array<int,3>> k; for(auto&x:f) k.push_back({x.first,x.second.n,x.second.d});
    auto it=monoIdx.find(k); if(it!=monoIdx.end()) return it->second;
    int id=monos.size(); monos.push_back({id,f}); monoIdx[k]=id; return id; }
static struct Init{ Init(){ mkMono({}); } } init_;
static Exp exps(int n,int d){ if(d<0){n=-n;d=-d;} int g=std::__gcd(std::abs(n),d); if(g==0) g=1; return {n/g,d/g}; }
static Exp eadd(Exp a,Exp b){ return exps(a.n*b.d+b.n*a.d,a.d*b.d); }
PP pconst(const mpq_class&q){ Poly p; p.kind=P_POLY; p.id=0; if(q!=0) p.t.push_back({0,q}); return mk(std::move(p)); }
PP pint(long v){ return pconst(mpq_class(v)); }
PP pinf(int s){ Poly p; p.kind=s>0?P_PINF:P_NINF; p.id=0; return mk(std::move(p)); }
PP pnan(){ Poly p; p.kind=P_NAN; p.id=0; return mk(std::move(p)); }
static int mkAtom(Atom a,const std::string&key){ auto it=atomIdx.find(key); if(it!=atomIdx.end()) return it->second; a.id=atoms.size(); atoms.push_back(a); atomIdx[key]=a.id; return a.id; }
static PP monoPoly(int m,const mpq_class&c=1){ if(c==0) return pint(0); Poly p; p.kind=P_POLY;p.id=0; p.t.push_back({m,c}); return mk(std::move(p)); }
static PP atomPow(int a,Exp e){ if(e.n==0) return pint(1); return monoPoly(mkMono({{a,e}})); }
PP pvar(const std::string&n,bool pos){ Atom a; a.kind=A_VAR; a.name=n; a.positive=pos; a.nonneg=pos; if(n=="$pi"){a.positive=a.nonneg=true;a.isconst=true;a.constval=M_PI;} return atomPow(mkAtom(a,"V:"+n),{1,1}); }
static bool fin(PP a){return a->kind==P_POLY;}
PP padd(PP a,PP b){
    if(!fin(a)||!fin(b)) throw Unsupported{"padd special"};
    if(a->t.empty()) return b; if(b->t.empty()) return a;
    Poly r; r.kind=P_POLY; r.id=0; r.t.reserve(a->t.size()+b->t.size()); size_t i=0,j=0;
    while(i<a->t.size()||j<b->t.size()){
        if(j>=b->t.size()||(i<a->t.size()&&a->t[i].first<b->t[j].first)) r.t.push_back(a->t[i++]);
        else if(i>=a->t.size()||b->t[j].first<a->t[i].first) r.t.push_back(b->t[j++]);
        else { mpq_class c=a->t[i].second+b->t[j].second; if(c!=0) r.t.push_back({a->t[i].first,c}); i++;j++; } }
    return mk(std::move(r)); }
PP pscale(PP a,const mpq_class&q){ if(q==0) return pint(0); if(q==1) return a; Poly r=*a; for(auto&x:r.t) x.second*=q; return mk(std::move(r)); }
PP pneg(PP a){return pscale(a,-1);} PP psub(PP a,PP b){return padd(a,pneg(b));}
PP ppow(PP a,long k){ if(k<0) return ppow(pinv(a),-k); PP r=pint(1); for(;k>0;k>>=1){ if(k&1) r=pmul(r,a); if(k>1) a=pmul(a,a);} return r; }
// reduce atom^e to polynomial
static PP reduceAtom(int id,Exp e){
    if(e.n==0) return pint(1); const Atom a=atoms[id];
    switch(a.kind){
    case A_SQRT: if(e.d==1){ int q=(e.n>=0?e.n/2:-((-e.n+1)/2)); int r=e.n-2*q; if(q!=0){ PP x=ppow(a.args[0],q); return r?pmul(x,atomPow(id,{1,1})):x; } } break;
    case A_ABS: if(e.d==1){ int q=(e.n>=0?e.n/2:-((-e.n+1)/2)); int r=e.n-2*q; if(q!=0){ PP x=ppow(a.args[0],2*q); return r?pmul(x,atomPow(id,{1,1})):x; } } break;
    case A_IND: if(e.d==1&&e.n>1) return atomPow(id,{1,1}); break;
    case A_PP: if(e.d==1&&e.n>1) return pmul(ppow(a.args[0],e.n-1),atomPow(id,{1,1})); break;
    case A_INV: if(e.d==1&&e.n<0) return ppow(a.args[0],-e.n); break;
    default: break; }
    return atomPow(id,e); }
static bool needsReduce(int id,Exp e){ const Atom&a=atoms[id]; switch(a.kind){ case A_SQRT: case A_ABS: return e.d==1&&(e.n>1||e.n<0); case A_IND: case A_PP: return e.d==1&&e.n>1; case A_INV: return e.d==1&&e.n<0; default: return false; } }
static PP monoMul(int m1,int m2){
    static std::unordered_map<uint64_t,PP> memo; if(m1>m2) std::swap(m1,m2); if(m1==0) return monoPoly(m2);
    uint64_t k=((uint64_t)m1<<32)|m2; auto it=memo.find(k); if(it!=memo.end()) return it->second;
    const auto A=monos[m1].f,B=monos[m2].f; std::vector<std::pair<int,Exp>> f; std::vector<std::pair<int,Exp>> red; size_t i=0,j=0;
    auto put=[&](int a,Exp e){ if(e.n==0) return; if(needsReduce(a,e)) red.push_back({a,e}); else f.push_back({a,e}); };
    while(i<A.size()||j<B.size()){
        if(j>=B.size()||(i<A.size()&&A[i].first<B[j].first)){ f.push_back(A[i]); i++; }
        else if(i>=A.size()||B[j].first<A[i].first){ f.push_back(B[j]); j++; }
        else { put(A[i].first,eadd(A[i].second,B[j].second)); i++;j++; } }
    PP r=monoPoly(mkMono(f)); for(auto&x:red) r=pmul(r,reduceAtom(x.first,x.second));
    memo[k]=r; return r; }
// sums that were used as a factor: candidates for square factors of a radicand (psqrt)
static std::deque<PP> factorSeen; static bool factorTry=false;
static void noteFactor(PP a){ if(a->t.size()<2||a->t.size()>8||factorTry) return; for(auto&x:a->t) for(auto&f:monos[x.first].f) if(f.second.d!=1||f.second.n<0||atoms[f.first].kind!=A_VAR) return;
    for(auto it=factorSeen.begin();it!=factorSeen.end();++it) if(*it==a){ if(it!=factorSeen.begin()){ factorSeen.erase(it); factorSeen.push_front(a); } return; } factorSeen.push_front(a); if(factorSeen.size()>48) factorSeen.pop_back(); }
PP pmul(PP a,PP b){
    if(!fin(a)||!fin(b)) throw Unsupported{"pmul special"};
    if(a->isConst()) return pscale(b,a->cval()); if(b->isConst()) return pscale(a,b->cval());
    noteFactor(a); noteFactor(b);
    std::map<int,mpq_class> acc;
    for(auto&x:a->t) for(auto&y:b->t){ PP m=monoMul(x.first,y.first); mpq_class c=x.second*y.second; for(auto&z:m->t) acc[z.first]+=c*z.second; if(acc.size()>MAXTERMS) throw Unsupported{"polynomial too large"}; }
    Poly r; r.kind=P_POLY;r.id=0; for(auto&x:acc) if(x.second!=0) r.t.push_back({x.first,x.second}); return mk(std::move(r)); }
static PP monoPow(int m,int k){ PP r=pint(1); for(auto&x:std::vector<std::pair<int,Exp>>(monos[m].f)){ Exp e=exps(x.second.n*k,x.second.d); r=pmul(r,reduceAtom(x.first,e)); } return r; }
static PP content(PP p,PP&rest,bool num=false){ // monomial content for exp & variable atoms
    std::map<int,Exp> mn; bool first=true;
    for(auto&x:p->t){ std::map<int,Exp> cur; for(auto&f:monos[x.first].f){ auto k=atoms[f.first].kind; if(k==A_VAR||k==A_EXP||k==A_FUN||k==A_INV||k==A_SQRT) cur[f.first]=f.second; }
        auto lt=[](Exp a,Exp b){return (long)a.n*b.d<(long)b.n*a.d;};
        if(first){ mn=cur; first=false; } else {
            for(auto&y:mn){ auto it=cur.find(y.first); Exp e= it==cur.end()?Exp{0,1}:it->second; if(lt(e,y.second)) y.second=e; }
            for(auto&y:cur) if(!mn.count(y.first)){ Exp z{0,1}; mn[y.first]= lt(y.second,z)?y.second:z; } } }
    PP c=pint(1),ci=pint(1); for(auto&y:mn){ if(y.second.n==0) continue; auto k=atoms[y.first].kind; if((k==A_INV||k==A_SQRT)&&y.second.n<0) continue; if(num&&(k==A_SQRT||k==A_INV||(y.second.n>0&&!atoms[y.first].positive))) continue;
        c=pmul(c,atomPow(y.first,y.second)); ci=pmul(ci,reduceAtom(y.first,exps(-y.second.n,y.second.d))); }
    rest=pmul(p,ci); return c; }
PP pinv(PP p){
    if(!fin(p)) throw Unsupported{"pinv special"};
    if(p->t.empty()) throw Unsupported{"inverse of zero"};
    if(p->isConst()) return pconst(1/p->cval());
    if(p->t.size()==1) return pscale(monoPow(p->t[0].first,-1),1/p->t[0].second);
    PP rest; PP c=content(p,rest); static int depth=0; struct D{ D(){depth++;} ~D(){depth--;} } dd;
    if(!c->isConst()&&depth>2&&(rest->t.size()>p->t.size()||depth>8)){ c=pint(1); rest=p; } // factoring that does not shrink the term
    if(!(c->isConst())) { if(rest->t.size()<p->t.size() || rest!=p) return pmul(pinv(c),pinv(rest)); }
    mpq_class lc=rest->t.back().second; PP m=pscale(rest,1/lc);
    Atom a; a.kind=A_INV; a.args={m}; bool pos=syntPos(m,false); a.positive=pos; a.nonneg=pos; a.negative=!pos&&syntPos(pneg(m),false); a.isconst=false; // 1/m is only formed where m is not zero
    return pscale(atomPow(mkAtom(a,"I:"+std::to_string(m->id)),{1,1}),1/lc); }
static PP expMono(int m,const mpq_class&c){
    if(!c.get_num().fits_sint_p()||!c.get_den().fits_sint_p()||abs(c.get_num())>1000000||c.get_den()>1000000){ // odd coefficient: own atom
        PP arg=monoPoly(m,c); Atom a; a.kind=A_FUN; a.name="exp"; a.args={arg}; a.positive=a.nonneg=true; return atomPow(mkAtom(a,"F:exp:"+std::to_string(arg->id)),{1,1}); }
    Exp e=exps(c.get_num().get_si(),c.get_den().get_si());
    if(m!=0&&monos[m].f.size()==1&&monos[m].f[0].second==Exp{1,1}&&e.d==1){ const Atom&a=atoms[monos[m].f[0].first]; if(a.kind==A_FUN&&a.name=="log") return ppow(a.args[0],e.n); }
    Atom a; a.kind=A_EXP; a.mono=m; a.positive=a.nonneg=true; if(m==0){a.isconst=true;a.constval=M_E;}
    return atomPow(mkAtom(a,"E:"+std::to_string(m)),e); }
PP pexp(PP p){
    if(p->kind==P_NINF) return pint(0); if(p->kind==P_PINF) return p; if(p->kind==P_NAN) return p;
    PP r=pint(1); for(auto&x:p->t) r=pmul(r,expMono(x.first,x.second)); return r; }
PP pnarrow(PP p){ if(p->t.size()==1&&p->t[0].second==1&&monos[p->t[0].first].f.size()==1){ auto&f=monos[p->t[0].first].f[0]; const Atom&a=atoms[f.first]; if(f.second.n==1&&f.second.d==1&&a.kind==A_FUN&&a.name=="rnd32") return p; } return pfun("rnd32",{p}); }
PP pfun(const std::string&n,std::vector<PP> args){ Atom a; a.kind=A_FUN; a.name=n; a.args=args; std::string k="F:"+n; for(auto x:args){ if(!fin(x)) throw Unsupported{"function "+n+" of special"}; k+=":"+std::to_string(x->id);} if(n=="exp"){a.positive=a.nonneg=true;} return atomPow(mkAtom(a,k),{1,1}); }
static PP plog0(PP p);
PP plog(PP p){ PP r=plog0(p); // logarithm of a uniform random number: state/2^64 < 1
    if(r->kind==P_POLY&&p->kind==P_POLY&&p->t.size()==1&&p->t[0].second>0&&p->t[0].second.get_d()<5.4211e-20&&monos[p->t[0].first].f.size()==1){ auto f=monos[p->t[0].first].f[0]; if(atoms[f.first].kind==A_I2R&&atoms[f.first].name=="u"&&f.second==Exp{1,1}) if(r->t.size()==1&&monos[r->t[0].first].f.size()==1) atoms[monos[r->t[0].first].f[0].first].negative=true; }
    return r; }
static PP plog0(PP p){ if(p->kind==P_PINF) return p; if(p->kind==P_NINF||p->kind==P_NAN) return pnan(); if(p->isConst()){ if(p->cval()==1) return pint(0); if(p->cval()==0) return pinf(-1); if(p->cval()<0) return pnan(); }
    if(p->t.size()==1&&p->t[0].second>0){ // log of a monomial of exps: expand exps
        PP s=pint(0); PP rest=pconst(p->t[0].second); bool any=false; for(auto&f:monos[p->t[0].first].f){ const Atom&a=atoms[f.first]; if(a.kind==A_EXP){ s=padd(s,pscale(monoPoly(a.mono),mpq_class(f.second.n,f.second.d))); any=true; } else rest=pmul(rest,atomPow(f.first,f.second)); }
        if(any) return padd(s,plog(rest)); }
    return pfun("log",{p}); }
// exact division of polynomials (terms ordered by monomial id); null if b does not divide a
static PP pdivExact(PP a,PP b){
    if(!fin(a)||!fin(b)||a->t.size()<b->t.size()||b->t.size()<2) return nullptr; PP q=pint(0); int lead=-1;
    // leading monomial: lexicographically largest exponent vector
    auto lexLess=[&](int x,int y){ auto&A=monos[x].f; auto&B=monos[y].f; size_t i=0,j=0; while(i<A.size()||j<B.size()){ int ia=i<A.size()?A[i].first:INT32_MAX, ib=j<B.size()?B[j].first:INT32_MAX; if(ia<ib) return A[i].second.n<0; if(ib<ia) return B[j].second.n>0; long l=(long)A[i].second.n*B[j].second.d,r=(long)B[j].second.n*A[i].second.d; if(l!=r) return l<r; i++;j++; } return false; };
    auto top=[&](PP p){ size_t k=0; for(size_t i=1;i<p->t.size();i++) if(lexLess(p->t[k].first,p->t[i].first)) k=i; return k; };
    size_t lb=top(b); (void)lead; for(int it=0;it<200;it++){ if(a->isZero()) return q; size_t la=top(a); PP f=pmul(monoPoly(a->t[la].first,a->t[la].second),pscale(monoPow(b->t[lb].first,-1),1/b->t[lb].second));
        if(f->t.size()!=1) return nullptr; for(auto&y:monos[f->t[0].first].f) if(y.second.n<0) return nullptr; q=padd(q,f); a=psub(a,pmul(f,b)); if(a->t.size()>2000) return nullptr; }
    return nullptr; }
PP psqrt(PP p){
    if(p->kind==P_PINF) return p; if(p->kind!=P_POLY) return pnan();
    if(p->t.empty()) return p;
    if(p->isConst()){ mpq_class q=p->cval(); if(q<0) return pnan(); mpz_class n=sqrt(q.get_num()),d=sqrt(q.get_den()); if(n*n==q.get_num()&&d*d==q.get_den()) return pconst(mpq_class(n,d));
        // make integer radicand: sqrt(n/d)=sqrt(n*d)/d ; remove small square factors
        mpz_class r=q.get_num()*q.get_den(); mpz_class out=1; for(long f=2;f<1000&&f*f<=r;f++) while(r%(f*f)==0){ r/=f*f; out*=f; }
        PP prod=[&]{ mpq_class oq(out,q.get_den()); oq.canonicalize(); return pscale(pint(1),oq); }(); auto one=[&](mpz_class k){ if(k==1) return; Atom a; a.kind=A_SQRT; a.args={pconst(mpq_class(k))}; a.positive=a.nonneg=true; a.isconst=true; a.constval=std::sqrt(k.get_d()); prod=pmul(prod,atomPow(mkAtom(a,"S:"+std::to_string(a.args[0]->id)),{1,1})); };
        for(long f=2;f<1000&&f*f<=r;f++) if(r%f==0){ r/=f; one(f); } one(r); // one atom per prime factor
        return prod; }
    mpq_class lc=p->t.back().second; if(lc<0) lc=-lc; PP m=pscale(p,1/lc);
    // even monomial content -> abs
    PP factor=pint(1);
    { int best=-1,me=0; for(auto&x:m->t) for(auto&f:monos[x.first].f){ const Atom&a=atoms[f.first]; if(a.kind==A_INV&&f.second.d==1&&f.first>best&&m->t.size()>1&&syntPos(a.args[0],false)){ best=f.first; } }
      if(best>=0){ // sqrt(N/D^k) = sqrt(N)/sqrt(D)^k, common factors D of N cancelled
        PP den=atoms[best].args[0]; for(auto&x:m->t) for(auto&f:monos[x.first].f) if(f.first==best) me=std::max(me,f.second.n);
        PP r=pint(0); for(auto&x:std::vector<std::pair<int,mpq_class>>(m->t)){ int e=0; std::vector<std::pair<int,Exp>> o; for(auto&f:monos[x.first].f) if(f.first==best) e=f.second.n; else o.push_back(f); r=padd(r,pmul(monoPoly(mkMono(o),x.second),ppow(den,me-e))); }
        int k=me; for(PP q; k>-4&&(q=pdivExact(r,den)); k--) r=q;
        return pmul(psqrt(pconst(lc)),pmul(k>=0?ppow(pinv(psqrt(den)),k):ppow(psqrt(den),-k),psqrt(r))); } }
    if(m->t.size()>1){ PP rest; PP c=content(m,rest); if(!c->isConst()){ std::vector<std::pair<int,Exp>> ev; for(auto&f:std::vector<std::pair<int,Exp>>(monos[c->t[0].first].f)){ const Atom&a=atoms[f.first]; if((f.second.d==1&&f.second.n%2==0)||a.positive) ev.push_back(f); else if(f.second.d==1&&f.second.n<0) ev.push_back({f.first,exps(f.second.n-1,1)}); }
            if(!ev.empty()){ PP cc=monoPoly(mkMono(ev)); PP r=pmul(m,pinv(cc)); if(r->t.size()<=m->t.size()) return pmul(psqrt(pconst(lc)),pmul(psqrt(cc),psqrt(r))); } } }
    if(m->t.size()>2&&m->t.size()<=60&&!factorTry){ bool plain=true; std::set<int> av; for(auto&x:m->t) for(auto&f:monos[x.first].f){ if(f.second.d!=1||f.second.n<0) plain=false; av.insert(f.first); }
        if(plain){ PP hit=nullptr,quo=nullptr; factorTry=true; for(PP q:std::deque<PP>(factorSeen)){ if(q->t.size()>m->t.size()) continue; bool sub=true; for(auto&x:q->t) for(auto&f:monos[x.first].f) if(!av.count(f.first)) sub=false; if(!sub) continue; PP d1=pdivExact(m,q),d2= d1?(d1==q?pint(1):pdivExact(d1,q)):nullptr; if(d2){ hit=q; quo=d2; break; } } factorTry=false;
            if(hit) return pmul(psqrt(pconst(lc)),pmul(pabs(hit),psqrt(quo))); } }
    if(m->t.size()==1){ std::vector<std::pair<int,Exp>> keep; for(auto&f:std::vector<std::pair<int,Exp>>(monos[m->t[0].first].f)){ const Atom a=atoms[f.first];
            if(a.kind==A_EXP){ factor=pmul(factor,atomPow(f.first,exps(f.second.n,2*f.second.d))); }
            else if(f.second.d==1&&f.second.n%2==0){ PP b=atomPow(f.first,exps(f.second.n/2,1)); factor=pmul(factor,a.nonneg?b:pabs(b)); }
            else if(a.positive&&f.second.d==1&&a.kind==A_INV) factor=pmul(factor,ppow(psqrt(a.args[0]),-f.second.n)); // sqrt(1/x) = 1/sqrt(x)
            else if(a.positive&&f.second.d==1&&(f.second.n!=1||monos[m->t[0].first].f.size()>1)) factor=pmul(factor,ppow(psqrt(atomPow(f.first,{1,1})),f.second.n)); // sqrt(a*b) = sqrt(a)*sqrt(b), a>0
            else keep.push_back(f); }
        m=monoPoly(mkMono(keep),m->t[0].second); }
    PP cs=psqrt(pconst(lc)); if(m->isConst()&&m->cval()==1) return pmul(cs,factor);
    Atom a; a.kind=A_SQRT; a.args={m}; a.nonneg=true; a.positive=syntPos(m,true); bool ic=true; for(auto&x:m->t) for(auto&f:monos[x.first].f) if(!atoms[f.first].isconst) ic=false; a.isconst=ic; if(ic){ NEnv e; a.constval=std::sqrt(peval(m,e)); }
    return pmul(cs,pmul(factor,atomPow(mkAtom(a,"S:"+std::to_string(m->id)),{1,1}))); }
PP pabs(PP p){
    if(p->kind==P_NINF) return pinf(1); if(p->kind!=P_POLY) return p;
    if(p->isConst()) return pconst(abs(p->cval())); if(syntPos(p,false)) return p; if(syntPos(pneg(p),false)) return pneg(p);
    mpq_class lc=p->t.back().second; PP m=pscale(p,1/lc); PP factor=pint(1);
    if(m->t.size()==1){ std::vector<std::pair<int,Exp>> keep; for(auto&f:std::vector<std::pair<int,Exp>>(monos[m->t[0].first].f)){ const Atom a=atoms[f.first]; if(a.nonneg||(f.second.d==1&&f.second.n%2==0)) factor=pmul(factor,atomPow(f.first,f.second)); else keep.push_back(f);}
        if(keep.size()>1||(keep.size()==1&&!(keep[0].second==Exp{1,1}))){ bool ok=true; for(auto&f:keep) if(f.second.d!=1) ok=false; // |x^a*y^b| = |x|^a*|y|^b
            if(ok){ PP r=pscale(factor,abs(lc)); for(auto&f:keep){ int n=f.second.n; PP e=pabs(atomPow(f.first,{1,1})); r=pmul(r,ppow(e,n)); } return r; } }
        m=monoPoly(mkMono(keep)); if(keep.empty()) return pscale(factor,abs(lc)); }
    Atom a; a.kind=A_ABS; a.args={m}; a.nonneg=true; return pscale(pmul(factor,atomPow(mkAtom(a,"B:"+std::to_string(m->id)),{1,1})),abs(lc)); }
PP ppp(PP p){ // max(p,0)
    if(p->kind==P_PINF) return p; if(p->kind==P_NINF) return pint(0); if(p->kind==P_NAN) return pint(0);
    if(p->isConst()) return p->cval()>0?p:pint(0); if(syntPos(p,false)) return p; if(syntPos(pneg(p),false)) return pint(0);
    mpq_class lc=p->t.back().second; if(lc<0) return padd(p,ppp(pneg(p)));
    PP m=pscale(p,1/lc); Atom a; a.kind=A_PP; a.args={m}; a.nonneg=true; return pscale(atomPow(mkAtom(a,"P:"+std::to_string(m->id)),{1,1}),lc); }
PP pind(BP b){
    if(b->kind==B_TRUE) return pint(1); if(b->kind==B_FALSE) return pint(0);
    if(b->kind==B_NOT) return psub(pint(1),pind(b->a));
    if(b->kind==B_AND) return pmul(pind(b->a),pind(b->b));
    if(b->kind==B_OR){ PP x=pind(b->a),y=pind(b->b); return psub(padd(x,y),pmul(x,y)); }
    if(b->kind==B_GT0&&b->p->t.back().second<0){ // [p>0], lead negative: 1-[-p>0]-[p=0]
        return psub(psub(pint(1),pind(bgt0(pneg(b->p)))),pind(beq0(b->p))); }
    Atom a; a.kind=A_IND; a.cond=b; a.nonneg=true; return atomPow(mkAtom(a,"C:"+std::to_string(b->id)),{1,1}); }
PP pi2r(IP i,bool uns){ Atom a; a.kind=A_I2R; a.it=i; if(uns){ a.name="u"; a.nonneg=true; a.positive= i->op!=I_ZEXT; /* assumption: a 64-bit generator state is not 0 */ } return atomPow(mkAtom(a,(uns?"U:":"R:")+std::to_string((uintptr_t)i)),{1,1}); }
static int monoSign(int m,bool&strict){ // +1: provably >=0, -1: provably <=0, 0: unknown
    int sg=1; for(auto&f:monos[m].f){ const Atom&a=atoms[f.first]; if(a.positive) continue; if(a.negative){ if(f.second.d!=1) return 0; if(f.second.n%2) sg=-sg; continue; } if(f.second.d==1&&f.second.n%2==0){ strict=false; continue; } if(a.nonneg){ strict=false; continue; } return 0; } return sg; }
static bool termsPos(PP p,bool strict);
static std::unordered_set<PP> posSet; // polynomials the path condition states to be positive
static PP posNorm(PP p){ mpq_class c=abs(p->t.back().second); return c==1?p:pscale(p,1/c); }
void assertPos(BP b){ if(b->kind==B_AND){ assertPos(b->a); assertPos(b->b); return; } if(b->kind!=B_GT0||b->p->kind!=P_POLY||b->p->isConst()) return; PP p=posNorm(b->p); if(!posSet.insert(p).second) return;
    for(auto&a:atoms) { if((a.kind==A_INV||a.kind==A_SQRT)&&a.args[0]==p) a.positive=a.nonneg=true; if(a.kind==A_INV&&a.args[0]==pneg(p)) a.negative=true; } }
bool syntPos(PP p,bool strict){ if(p->kind==P_PINF) return true; if(p->kind!=P_POLY) return false; if(termsPos(p,strict)) return true;
    if(p->t.size()>1&&p->t.size()<200) for(PP q:posSet){ if(q->t.size()>p->t.size()+1) continue; // p = c*q + (sum of nonnegative terms)
        for(auto&x:q->t){ if(x.second>0) continue; mpq_class c=0; for(auto&y:p->t) if(y.first==x.first) c=y.second/x.second; if(c>0&&termsPos(psub(p,pscale(q,c)),false)) return true; break; } }
    return false; }
static bool termsPos(PP p,bool strict){ bool any=false; for(auto&x:p->t){ bool s=true; int g=monoSign(x.first,s); if(!g||(x.second<0)!=(g<0)) return false; if(s) any=true; } return strict?any:true; }
// ---- constants
static bool ratApprox(double v,double tol,long maxq,mpq_class&out){ double x=v; long h0=0,h1=1,k0=1,k1=0; for(int i=0;i<20;i++){ double fl=std::floor(x); if(std::fabs(fl)>1e9) break; long a=(long)fl; long h2=a*h1+h0,k2=a*k1+k0; if(k2>maxq||k2<=0) break; h0=h1;h1=h2;k0=k1;k1=k2; if(std::fabs((double)h1/k1-v)<=tol*std::fabs(v)){ out=mpq_class(h1,k1); out.canonicalize(); return true; } double fr=x-fl; if(fr<1e-15) break; x=1/fr; } return false; }
PP psnap(double v,bool f32){
    if(std::isnan(v)) return pnan(); if(std::isinf(v)) return pinf(v>0?1:-1); if(v==0) return pint(0);
    static std::map<std::pair<double,bool>,PP> memo; auto key=std::make_pair(v,f32); auto it=memo.find(key); if(it!=memo.end()) return it->second;
    auto res=[&]()->PP{
    char buf[64]; int maxd=f32?7:15; double av=std::fabs(v); 
    if(av==std::floor(av)&&av<1e15) return pconst(mpq_class(v));
    mpq_class ex(v); if(ex.get_den()<=4096) return pconst(ex);
    for(int d=1;d<=maxd;d++){ snprintf(buf,64,"%.*e",d-1,v); double back= f32?(double)strtof(buf,0):strtod(buf,0); if(back==v){ // decimal to rational
            std::string s(buf); auto e=s.find('e'); int ee=atoi(s.c_str()+e+1); std::string ms=s.substr(0,e); bool neg=ms[0]=='-'; if(neg) ms=ms.substr(1); auto dot=ms.find('.'); int fd=0; if(dot!=std::string::npos){ fd=ms.size()-dot-1; ms.erase(dot,1);} mpz_class n(ms,10); mpz_class ten; int sh=ee-fd; mpz_ui_pow_ui(ten.get_mpz_t(),10,std::abs(sh)); mpq_class q= sh>=0?mpq_class(n*ten):mpq_class(n,ten); q.canonicalize(); if(d<maxd||true) { if(d>=maxd-1) break; return pconst(neg?mpq_class(-q):q);} } }
    double tol=f32?4*6e-8:4*1.2e-16; long mq=f32?100:1000; mpq_class q; int sg=v<0?-1:1;
    if(av>1e-6&&av<1e6){
    if(ratApprox(av,tol,mq,q)) return pconst(sg*q);
    if(ratApprox(av*av,2*tol,mq,q)) return pscale(psqrt(pconst(q)),sg);
    PP pi=pvar("$pi",true);
    if(ratApprox(av*av*M_PI,2*tol,mq,q)) return pscale(psqrt(pmul(pconst(q),pinv(pi))),sg);
    if(ratApprox(av*av/M_PI,2*tol,mq,q)) return pscale(psqrt(pmul(pconst(q),pi)),sg);
    if(ratApprox(av/M_PI,tol,mq,q)) return pscale(pi,sg*q);
    }
    for(int d=maxd-1;d<=maxd;d++){ snprintf(buf,64,"%.*e",d-1,v); double back= f32?(double)strtof(buf,0):strtod(buf,0); if(back==v){ std::string s(buf); auto e=s.find('e'); int ee=atoi(s.c_str()+e+1); std::string ms=s.substr(0,e); bool neg=ms[0]=='-'; if(neg) ms=ms.substr(1); auto dot=ms.find('.'); int fd=0; if(dot!=std::string::npos){ fd=ms.size()-dot-1; ms.erase(dot,1);} mpz_class n(ms,10); mpz_class ten; int sh=ee-fd; mpz_ui_pow_ui(ten.get_mpz_t(),10,std::abs(sh)); mpq_class qq= sh>=0?mpq_class(n*ten):mpq_class(n,ten); qq.canonicalize(); return pconst(neg?mpq_class(-qq):qq);} }
    return pconst(ex); }();
    memo[key]=res; return res; }
// ---- booleans
static BP mkB(BT b,const std::string&k){ auto it=btIdx.find(k); if(it!=btIdx.end()) return it->second; b.id=bts.size(); bts.push_back(b); btIdx[k]=&bts.back(); return &bts.back(); }
BP btrue(){ BT b; b.kind=B_TRUE; static BP r=mkB(b,"T"); return r; } BP bfalse(){ BT b; b.kind=B_FALSE; static BP r=mkB(b,"F"); return r; } BP bconst(bool x){return x?btrue():bfalse();}
BP bgt0(PP p){ if(p->kind==P_PINF) return btrue(); if(p->kind!=P_POLY) return bfalse(); if(p->isConst()) return bconst(p->cval()>0); if(syntPos(p,true)) return btrue(); if(syntPos(pneg(p),false)) return bfalse();
    mpq_class l=abs(p->t.back().second); p=pscale(p,1/l); BT b; b.kind=B_GT0; b.p=p; return mkB(b,"G"+std::to_string(p->id)); }
BP beq0(PP p){ if(p->kind!=P_POLY) return bfalse(); if(p->isConst()) return bconst(p->cval()==0); if(syntPos(p,true)||syntPos(pneg(p),true)) return bfalse();
    p=pscale(p,1/p->t.back().second); BT b; b.kind=B_EQ0; b.p=p; return mkB(b,"Q"+std::to_string(p->id)); }
BP bnot(BP a){ if(a->kind==B_TRUE) return bfalse(); if(a->kind==B_FALSE) return btrue(); if(a->kind==B_NOT) return a->a; BT b; b.kind=B_NOT; b.a=a; return mkB(b,"N"+std::to_string(a->id)); }
BP band(BP x,BP y){ if(x->kind==B_FALSE||y->kind==B_TRUE||x==y) return x; if(y->kind==B_FALSE||x->kind==B_TRUE) return y; BT b; b.kind=B_AND; b.a=x;b.b=y; return mkB(b,"A"+std::to_string(x->id)+","+std::to_string(y->id)); }
BP bor(BP x,BP y){ return bnot(band(bnot(x),bnot(y))); }
BP bvar(const std::string&n){ BT b; b.kind=B_VAR; b.name=n; return mkB(b,"V"+n); }
static bool cmpc(int pred,int w,uint64_t x,uint64_t y){ int64_t a=w>=64?(int64_t)x:(int64_t)(x<<(64-w))>>(64-w),c=w>=64?(int64_t)y:(int64_t)(y<<(64-w))>>(64-w); switch(pred){ case 32: return x==y; case 33: return x!=y; case 34: return x>y; case 35: return x>=y; case 36: return x<y; case 37: return x<=y; case 38: return a>c; case 39: return a>=c; case 40: return a<c; default: return a<=c; } }
static bool constLeaves(IP i,int depth=0){ if(i->op==I_CONST) return true; return i->op==I_ITE&&depth<8&&constLeaves(i->a,depth+1)&&constLeaves(i->b,depth+1); }
BP bicmp(int pred,IP x,IP y){
    if(x->op==I_CONST&&y->op==I_CONST) return bconst(cmpc(pred,x->w,x->c,y->c));
    if(x->op==I_ITE&&y->op==I_CONST&&constLeaves(x)) return bor(band(x->cond,bicmp(pred,x->a,y)),band(bnot(x->cond),bicmp(pred,x->b,y)));
    if(y->op==I_ITE&&x->op==I_CONST&&constLeaves(y)) return bor(band(y->cond,bicmp(pred,x,y->a)),band(bnot(y->cond),bicmp(pred,x,y->b)));
    BT b; b.kind=B_INT; b.pred=pred; b.ia=x;b.ib=y; return mkB(b,"I"+std::to_string(pred)+","+std::to_string((uintptr_t)x)+","+std::to_string((uintptr_t)y)); }
// ---- ints (hash-consed)
static std::deque<IT> its; static std::map<std::string,IP> itIdx;
static IP mkI(IT i,const std::string&k){ auto it=itIdx.find(k); if(it!=itIdx.end()) return it->second; its.push_back(i); itIdx[k]=&its.back(); return &its.back(); }
static uint64_t msk(int w,uint64_t v){ return w>=64?v:v&((1ull<<w)-1); }
IP iconst(int w,uint64_t v){ v=msk(w,v); IT i; i.op=I_CONST;i.w=w;i.c=v; return mkI(i,"c"+std::to_string(w)+":"+std::to_string(v)); }
IP ivar(const std::string&n,int w,int64_t lo,int64_t hi,bool shadow){ IT i; i.op=I_VAR;i.w=w;i.name=new std::string(n);i.lo=lo;i.hi=hi;i.shadow=shadow; return mkI(i,"v"+n); }
// affine normal form modulo 2^w: c1*base+c0
static void affine(IP i,IP&base,uint64_t&c1,uint64_t&c0){
    if(i->op==I_CONST){ base=nullptr; c1=0; c0=i->c; return; } base=i; c1=1; c0=0;
    if(i->op==I_ADD&&i->b->op==I_CONST){ c0=i->b->c; base=i=i->a; }
    if(i->op==I_MUL&&i->b->op==I_CONST){ c1=i->b->c; base=i->a; } }
static IP iraw(IOp op,int w,IP a,IP b); static IP divSimp(IOp op,int w,IP a,IP b);
IP iop(IOp op,int w,IP a,IP b){
    if(b&&(op==I_ADD||op==I_SUB||op==I_MUL||(op==I_SHL&&b->op==I_CONST&&b->c<(uint64_t)w))){ IP x,y; uint64_t a1,a0,b1,b0; affine(a,x,a1,a0); affine(b,y,b1,b0); bool ok=false; IP base=nullptr; uint64_t c1=0,c0=0;
        if((op==I_ADD||op==I_SUB)&&(x==y||!x||!y)){ base=x?x:y; ok=true; c1=op==I_ADD?a1+b1:a1-b1; c0=op==I_ADD?a0+b0:a0-b0; }
        else if(op==I_MUL&&(!x||!y)){ uint64_t k=!y?b0:a0; base=!y?x:y; c1=(!y?a1:b1)*k; c0=(!y?a0:b0)*k; ok=true; }
        else if(op==I_SHL){ base=x; c1=a1<<b->c; c0=a0<<b->c; ok=true; }
        if(ok){ c1=msk(w,c1); c0=msk(w,c0); if(!base||c1==0) return iconst(w,c0); IP t= c1==1?base:iraw(I_MUL,w,base,iconst(w,c1)); return c0==0?t:iraw(I_ADD,w,t,iconst(w,c0)); } }
    if(intMode&&(op==I_SDIV||op==I_UDIV||op==I_SREM||op==I_UREM)) if(IP r=divSimp(op,w,a,b)) return r;
    return iraw(op,w,a,b); }
static IP iraw(IOp op,int w,IP a,IP b){ IT i; i.op=op;i.w=w;i.a=a;i.b=b; i.shadow=a->shadow||(b&&b->shadow); char buf[96]; snprintf(buf,96,"o%d:%d:%p:%p",(int)op,w,(void*)a,(void*)b); return mkI(i,buf); }
IP iite(BP c,IP a,IP b){ IT i; i.op=I_ITE;i.w=a->w;i.a=a;i.b=b;i.cond=c; i.shadow=a->shadow||b->shadow; char buf[96]; snprintf(buf,96,"t%p:%p:%p",(void*)c,(void*)a,(void*)b); return mkI(i,buf); }
static int64_t sx(int w,uint64_t v){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v=msk(w,v); return (int64_t)((v^m)-m); }
bool icmpc(int pred,int w,uint64_t a,uint64_t b){ int64_t sa=sx(w,a),sb=sx(w,b); a=msk(w,a);b=msk(w,b); switch(pred){ case 32: return a==b; case 33: return a!=b; case 34: return a>b; case 35: return a>=b; case 36: return a<b; case 37: return a<=b; case 38: return sa>sb; case 39: return sa>=sb; case 40: return sa<sb; case 41: return sa<=sb; } return false; }
uint64_t ieval(IP i,NEnv&e){ auto A=[&]{return ieval(i->a,e);}; auto B=[&]{return ieval(i->b,e);}; int w=i->w; switch(i->op){
    case I_CONST: return i->c; case I_VAR: { auto it=e.iv.find(*i->name); return msk(w,it==e.iv.end()?(uint64_t)i->lo:(uint64_t)it->second); }
    case I_ADD: return msk(w,A()+B()); case I_SUB: return msk(w,A()-B()); case I_MUL: return msk(w,A()*B());
    case I_UDIV: {auto b=B(); return b?A()/b:0;} case I_UREM: {auto b=B(); return b?A()%b:0;} case I_SDIV: {auto b=sx(w,B()); return b?msk(w,sx(w,A())/b):0;} case I_SREM: {auto b=sx(w,B()); return b?msk(w,sx(w,A())%b):0;}
    case I_SHL: return msk(w,A()<<B()); case I_LSHR: return A()>>B(); case I_ASHR: return msk(w,sx(w,A())>>B()); case I_AND: return A()&B(); case I_OR: return A()|B(); case I_XOR: return A()^B();
    case I_ZEXT: return A(); case I_SEXT: return msk(w,sx(i->a->w,A())); case I_TRUNC: return msk(w,A()); case I_ITE: return beval(i->cond,e)?A():B(); case I_CONCAT: return (A()<<i->b->w)|B(); } return 0; }
// ---- numeric
double peval(PP p,NEnv&e){
    if(p->kind==P_PINF) return INFINITY; if(p->kind==P_NINF) return -INFINITY; if(p->kind==P_NAN) return NAN;
    auto it=e.pc.find(p->id); if(it!=e.pc.end()) return it->second;
    double s=0; for(auto&x:p->t){ double m=x.second.get_d(); for(auto&f:monos[x.first].f){ const Atom&a=atoms[f.first]; double v=0; switch(a.kind){
        case A_VAR: if(a.isconst) v=a.constval; else { auto q=e.v.find(a.name); v=q==e.v.end()?0.7:q->second; } break;
        case A_EXP: v= a.mono==0?M_E:std::exp(peval(monoPoly(a.mono),e)); break; case A_INV: v=1/peval(a.args[0],e); break; case A_SQRT: v=std::sqrt(peval(a.args[0],e)); break; case A_ABS: v=std::fabs(peval(a.args[0],e)); break;
        case A_PP: v=std::max(0.0,peval(a.args[0],e)); break; case A_IND: v=beval(a.cond,e)?1:0; break; case A_I2R: v= a.name=="u"?(double)ieval(a.it,e):(double)(int64_t)ieval(a.it,e); break;
        case A_FUN: { double x0=peval(a.args[0],e); double x1=a.args.size()>1?peval(a.args[1],e):0; if(a.name=="log") v=std::log(x0); else if(a.name=="erf") v=std::erf(x0); else if(a.name=="exp") v=std::exp(x0); else if(a.name=="pow") v=std::pow(x0,x1); else if(a.name=="sin") v=std::sin(x0); else if(a.name=="cos") v=std::cos(x0); else if(a.name=="rnd32") v=x0*(1+0.2*std::sin(1e4*x0)); /* exaggerated, to find witnesses */ else v=std::sin(x0*1.3+x1*2.1+a.name.size()); } break; }
        m*= (f.second.d==1&&f.second.n==1)?v:std::pow(v,(double)f.second.n/f.second.d); } s+=m; }
    e.pc[p->id]=s; return s; }
bool beval(BP b,NEnv&e){ switch(b->kind){ case B_TRUE: return true; case B_FALSE: return false; case B_GT0: return peval(b->p,e)>0; case B_EQ0: return std::fabs(peval(b->p,e))<1e-12; case B_NOT: return !beval(b->a,e); case B_AND: return beval(b->a,e)&&beval(b->b,e); case B_OR: return beval(b->a,e)||beval(b->b,e); case B_INT: return icmpc(b->pred,b->ia->w,ieval(b->ia,e),ieval(b->ib,e)); case B_VAR: { auto i=e.bv.find(b->name); return i==e.bv.end()?false:i->second; } } return false; }
static void ivars(IP i,std::map<std::string,int>&out); 
void bvars(BP b,std::map<std::string,int>&o){ if(b->p) pvars(b->p,o); if(b->a) bvars(b->a,o); if(b->b) bvars(b->b,o); if(b->kind==B_INT){ ivars(b->ia,o); ivars(b->ib,o);} if(b->kind==B_VAR) o[b->name]=2; }
static void ivars(IP i,std::map<std::string,int>&o){ if(i->op==I_VAR) o[*i->name]=1; if(i->a) ivars(i->a,o); if(i->b) ivars(i->b,o); if(i->cond) bvars(i->cond,o); }
void pvars(PP p,std::map<std::string,int>&o){ for(auto&x:p->t) for(auto&f:monos[x.first].f){ const Atom&a=atoms[f.first]; if(a.kind==A_VAR) o[a.name]=0; for(auto q:a.args) pvars(q,o); if(a.cond) bvars(a.cond,o); if(a.kind==A_EXP&&a.mono) pvars(monoPoly(a.mono),o); if(a.it) ivars(a.it,o); } }
PP pnumer(PP p){
    for(int it=0;it<200;it++){ int best=-1,me=0; // pick INV atom with largest id
        for(auto&x:p->t) for(auto&f:monos[x.first].f){ const Atom&a=atoms[f.first]; if(a.kind==A_INV&&f.second.d==1){ if(f.first>best){best=f.first;me=f.second.n;} else if(f.first==best) me=std::max(me,f.second.n); } }
        if(best<0){ // negative powers of variables/functions
            PP rest; content(p,rest,true); return rest; } // only factors that cannot be zero are divided out
        PP den=atoms[best].args[0]; std::map<int,std::vector<std::pair<std::vector<std::pair<int,Exp>>,mpq_class>>> byPow;
        for(auto&x:p->t){ int e=0; std::vector<std::pair<int,Exp>> o; for(auto&f:monos[x.first].f) if(f.first==best) e=f.second.n; else o.push_back(f); byPow[e].push_back({o,x.second}); }
        PP r=pint(0); for(auto&b:byPow){ PP s=pint(0); for(auto&y:b.second) s=padd(s,monoPoly(mkMono(y.first),y.second)); r=padd(r,pmul(s,ppow(den,me-b.first))); }
        p=r; }
    return p; }
// ---- simplification under a path condition
void Facts::add(BP x,bool val){
    if(x->kind==B_NOT){ add(x->a,!val); return; }
    if(x->kind==B_AND&&val){ add(x->a,true); add(x->b,true); return; }
    if(x->kind==B_OR&&!val){ add(x->a,false); add(x->b,false); return; }
    if(x->kind==B_AND||x->kind==B_OR){ bool absorbing= x->kind==B_OR; // A&B false / A|B true: one side known gives the other
        int ka=known(x->a),kb=known(x->b); if(ka==(absorbing?0:1)) add(x->b,val); else if(kb==(absorbing?0:1)) add(x->a,val); }
    b[x]=val;
    auto nonneg=[&](PP p){ if(p->t.size()!=1||p->t[0].second<0) return false; for(auto&f:monos[p->t[0].first].f) if(!atoms[f.first].nonneg&&!(f.second.d==1&&f.second.n%2==0)) return false; return true; };
    auto atomArg=[&](int id){ return atoms[id].kind==A_ABS?atoms[id].args[0]:atomPow(id,{1,1}); };
    if(x->kind==B_GT0&&!val&&nonneg(x->p)){ BP z=beq0(x->p); if(!b.count(z)) add(z,true); }
    if(((x->kind==B_GT0&&val)||(x->kind==B_EQ0&&!val))&&x->p->t.size()==1) for(auto&f:std::vector<std::pair<int,Exp>>(monos[x->p->t[0].first].f)){ BP z=beq0(atomArg(f.first)); if(z->kind!=B_FALSE&&!b.count(z)) add(z,false); }
    if(x->kind==B_EQ0&&val&&x->p->t.size()==1){ int cand=-1; for(auto&f:monos[x->p->t[0].first].f){ if(atoms[f.first].positive||known(beq0(atomArg(f.first)))==0) continue; cand= cand==-1?f.first:-2; } if(cand>=0){ BP z=beq0(atomArg(cand)); if(z!=x&&!b.count(z)) add(z,true); } }
    if(x->kind==B_EQ0&&val){ PP p=x->p; // variable equal to a constant
        if(p->t.size()>2) return; int var=-1; mpq_class c=0,k=0; for(auto&y:p->t){ if(y.first==0){ k=y.second; continue; } auto&f=monos[y.first].f; if(f.size()!=1||!(f[0].second==Exp{1,1})||atoms[f[0].first].kind!=A_VAR||var>=0) return; var=f[0].first; c=y.second; }
        if(var>=0) sub[var]=pconst(-k/c); } }
int Facts::known(BP x){
    if(x->kind==B_TRUE) return 1; if(x->kind==B_FALSE) return 0; auto it=b.find(x); if(it!=b.end()) return it->second;
    if(x->kind==B_NOT){ int k=known(x->a); return k<0?k:1-k; }
    if(x->kind==B_AND){ int p=known(x->a),q=known(x->b); return p==0||q==0?0:p==1&&q==1?1:-1; } if(x->kind==B_OR){ int p=known(x->a),q=known(x->b); return p==1||q==1?1:p==0&&q==0?0:-1; }
    auto is=[&](BP y,bool v){ if(y->kind==B_TRUE) return v; if(y->kind==B_FALSE) return !v; auto i=b.find(y); return i!=b.end()&&i->second==v; };
    if(x->kind==B_GT0){ PP n=pneg(x->p); if(is(bgt0(n),true)||is(beq0(x->p),true)||is(beq0(n),true)) return 0; if(is(bgt0(n),false)&&(is(beq0(x->p),false)||is(beq0(n),false))) return 1; }
    if(x->kind==B_EQ0){ PP n=pneg(x->p); if(is(beq0(n),true)) return 1; if(is(beq0(n),false)||is(bgt0(n),true)||is(bgt0(x->p),true)) return 0; if(is(bgt0(n),false)&&is(bgt0(x->p),false)) return 1; }
    return -1; }
PP psimp(PP p, Facts&F){
    if(p->kind!=P_POLY||p->isConst()) return p; auto it=F.memo.find(p->id); if(it!=F.memo.end()) return it->second;
    PP r=pint(0); bool ch=false;
    for(auto&x:std::vector<std::pair<int,mpq_class>>(p->t)){
        PP m=pconst(x.second); bool mc=false; auto fs=monos[x.first].f;
        for(auto&f:fs){ const Atom a=atoms[f.first]; PP old=atomPow(f.first,{1,1}),nw=old;
            switch(a.kind){
            case A_VAR: { auto s=F.sub.find(f.first); if(s!=F.sub.end()) nw=s->second; break; }
            case A_EXP: { if(a.mono==0) break; PP q=monoPoly(a.mono),q2=psimp(q,F); if(q2!=q){ m=pmul(m,pexp(pscale(q2,mpq_class(f.second.n,f.second.d)))); mc=true; continue; } break; }
            case A_INV: { PP q=psimp(a.args[0],F); if(q!=a.args[0]) nw=pinv(q); break; }
            case A_SQRT: { PP q=psimp(a.args[0],F); if(q!=a.args[0]) nw=psqrt(q); break; }
            case A_ABS: { PP q=psimp(a.args[0],F); if(q!=a.args[0]) nw=pabs(q); else if(F.known(bgt0(q))==1||F.known(bgt0(pneg(q)))==0) nw=q; else if(F.known(bgt0(pneg(q)))==1||F.known(bgt0(q))==0) nw=pneg(q); break; }
            case A_PP: { PP q=psimp(a.args[0],F); if(q!=a.args[0]) nw=ppp(q); else if(F.known(bgt0(q))==1||F.known(bgt0(pneg(q)))==0) nw=q; else if(F.known(bgt0(pneg(q)))==1||F.known(bgt0(q))==0) nw=pint(0); break; }
            case A_IND: { int k=F.known(a.cond); if(k>=0){ nw=pint(k); break; } BP c=a.cond; if(c->kind==B_GT0||c->kind==B_EQ0){ PP q=psimp(c->p,F); if(q!=c->p) nw=pind(c->kind==B_GT0?bgt0(q):beq0(q)); } break; }
            case A_FUN: { std::vector<PP> v; bool c=false; for(auto y:a.args){ PP q=psimp(y,F); c=c||q!=y; v.push_back(q); } if(c) nw= a.name=="exp"&&v.size()==1?pexp(v[0]):a.name=="log"&&v.size()==1?plog(v[0]):pfun(a.name,v); break; }
            default: break; }
            if(nw==old){ m=pmul(m,atomPow(f.first,f.second)); continue; }
            if(f.second.d!=1) throw Unsupported{"psimp power"}; mc=true; m=pmul(m,ppow(nw,f.second.n)); }
        if(mc) ch=true; r=padd(r,mc?m:monoPoly(x.first,x.second)); }
    PP res= ch?(r!=p?psimp(r,F):r):p; F.memo[p->id]=res; return res; }
// ---- printing
std::string pstr(PP p,int mt){ if(p->kind==P_PINF) return "inf"; if(p->kind==P_NINF) return "-inf"; if(p->kind==P_NAN) return "nan"; if(p->t.empty()) return "0"; std::ostringstream s; int n=0; for(auto&x:p->t){ if(n) s<<" + "; if(n++>mt){ s<<"..."; break; } bool h=false; if(x.second!=1||x.first==0){ s<<x.second.get_str(); h=true; } for(auto&f:monos[x.first].f){ if(h) s<<"*"; h=true; const Atom&a=atoms[f.first]; switch(a.kind){ case A_VAR: s<<a.name; break; case A_EXP: s<<"exp("<<(a.mono?pstr(monoPoly(a.mono)):"1")<<")"; break; case A_INV: s<<"inv("<<pstr(a.args[0],mt)<<")"; break; case A_SQRT: s<<"sqrt("<<pstr(a.args[0],mt)<<")"; break; case A_ABS: s<<"abs("<<pstr(a.args[0],mt)<<")"; break; case A_PP: s<<"pos("<<pstr(a.args[0],mt)<<")"; break; case A_IND: s<<"["<<bstr(a.cond)<<"]"; break; case A_I2R: s<<"int"; break; case A_FUN: s<<a.name<<"("; for(size_t i=0;i<a.args.size();i++) s<<(i?",":"")<<pstr(a.args[i],mt); s<<")"; break; } if(!(f.second==Exp{1,1})){ s<<"^"<<f.second.n; if(f.second.d!=1) s<<"/"<<f.second.d; } } } return s.str(); }
std::string bstr(BP b){ switch(b->kind){ case B_TRUE: return "true"; case B_FALSE: return "false"; case B_GT0: return pstr(b->p,8)+">0"; case B_EQ0: return pstr(b->p,8)+"=0"; case B_NOT: return "!("+bstr(b->a)+")"; case B_AND: return "("+bstr(b->a)+"&"+bstr(b->b)+")"; case B_OR: return "("+bstr(b->a)+"|"+bstr(b->b)+")"; case B_INT: return "icmp"; case B_VAR: return b->name; } return "?"; }
// ---- z3
static z3::expr q2z(z3::context&c,const mpq_class&q){ return c.real_val(q.get_str().c_str()); }
z3::expr Z3T::AE(int id,Exp e){
    const Atom&a=atoms[id];
    if(e.d!=1){ z3::expr v=c.real_const(("e"+std::to_string(id)+"^"+std::to_string(e.n)+"/"+std::to_string(e.d)).c_str()); axioms.push_back(v>0); (void)a; return v; }
    z3::expr v=A(id); int n=std::abs(e.n); z3::expr r=v; for(int i=1;i<n;i++) r=r*v; if(e.n<0) r=c.real_val(1)/r; return r; }
z3::expr Z3T::A(int id){
    auto it=am.find(id); if(it!=am.end()) return it->second; const Atom a=atoms[id]; z3::expr v(c); z3::sort R=c.real_sort();
    switch(a.kind){
    case A_VAR: v=c.real_const(a.name.c_str()); if(a.positive) axioms.push_back(v>0); if(a.name=="$pi"){ axioms.push_back(v>c.real_val("31415926/10000000")); axioms.push_back(v<c.real_val("31415927/10000000")); } break;
    case A_EXP: { z3::expr m= a.mono?P(monoPoly(a.mono)):c.real_val(1); v=c.function("exp",R,R)(m); axioms.push_back(v>0); axioms.push_back(z3::implies(m>0,v>1)); axioms.push_back(z3::implies(m<0,v<1)); axioms.push_back(z3::implies(m==0,v==1)); } break;
    case A_INV: { z3::expr d=P(a.args[0]); v=c.real_const(("inv"+std::to_string(id)).c_str()); axioms.push_back(v*d==1); } break;
    case A_SQRT: { z3::expr d=P(a.args[0]); v=c.real_const(("sqrt"+std::to_string(id)).c_str()); axioms.push_back(v>=0); axioms.push_back(v*v==d); } break;
    case A_ABS: { z3::expr d=P(a.args[0]); v=z3::ite(d>=0,d,-d); } break;
    case A_PP: { z3::expr d=P(a.args[0]); v=z3::ite(d>0,d,c.real_val(0)); } break;
    case A_IND: v=z3::ite(B(a.cond),c.real_val(1),c.real_val(0)); break;
    case A_I2R: if(a.name=="u"&&a.it->op!=I_ZEXT){ v=c.real_const(("u"+std::to_string(id)).c_str()); axioms.push_back(v>0); axioms.push_back(v<c.real_val("18446744073709551616")); break; } if(intMode){ v=z3::expr(c,Z3_mk_int2real(c,a.name=="u"?U(a.it):I(a.it))); break; } v=z3::expr(c,Z3_mk_int2real(c,Z3_mk_bv2int(c,I(a.it),a.name!="u"))); break;
    case A_FUN: { z3::expr_vector av(c); z3::sort_vector sv(c); for(auto x:a.args){ av.push_back(P(x)); sv.push_back(R);} v=c.function(("f_"+a.name).c_str(),sv,R)(av); if(a.name=="exp") axioms.push_back(v>0); if(a.name=="erf"){ axioms.push_back(v<1); axioms.push_back(v>-1);} } break; }
    am.emplace(id,v); return v; }
z3::expr Z3T::P(PP p){
    if(p->kind!=P_POLY) throw Unsupported{"special to solver"}; auto it=pm.find(p->id); if(it!=pm.end()) return it->second;
    if(p->t.empty()) return c.real_val(0);
    z3::expr_vector s(c); for(auto&x:p->t){ z3::expr m=q2z(c,x.second); bool one=x.second==1; bool have=false; for(auto&f:std::vector<std::pair<int,Exp>>(monos[x.first].f)){ z3::expr v=AE(f.first,f.second); m= (one&&!have)?v:m*v; have=true; } s.push_back(m); }
    z3::expr r= s.size()==1?s[0]:z3::sum(s); pm.emplace(p->id,r); return r; }
static bool polyEq(Z3T&t,IP a,IP b,const z3::expr&x,const z3::expr&y); // equal as integer polynomials
z3::expr Z3T::B(BP b){
    auto it=bm.find(b->id); if(it!=bm.end()) return it->second; z3::expr r(c);
    switch(b->kind){ case B_TRUE: r=c.bool_val(true); break; case B_FALSE: r=c.bool_val(false); break; case B_GT0: r=P(b->p)>0; break; case B_EQ0: r=P(b->p)==0; break; case B_NOT: r=!B(b->a); break; case B_AND: r=B(b->a)&&B(b->b); break; case B_OR: r=B(b->a)||B(b->b); break; case B_VAR: { auto d=bdef.find(b->name); r= d!=bdef.end()?d->second:c.bool_const(b->name.c_str()); break; }
    case B_INT: { if(intMode&&b->pred>=34&&b->pred<=37){ z3::expr x=U(b->ia),y=U(b->ib); r= b->pred==34?x>y:b->pred==35?x>=y:b->pred==36?x<y:x<=y; break; } if(intMode){ inRange(b->ia); inRange(b->ib); } z3::expr x=I(b->ia),y=I(b->ib); if(intMode&&(b->pred==32||b->pred==33)&&polyEq(*this,b->ia,b->ib,x,y)) r=c.bool_val(b->pred==32); else switch(b->pred){ case 32: r=x==y; break; case 33: r=x!=y; break; case 34: r=z3::ugt(x,y); break; case 35: r=z3::uge(x,y); break; case 36: r=z3::ult(x,y); break; case 37: r=z3::ule(x,y); break; case 38: r=x>y; break; case 39: r=x>=y; break; case 40: r=x<y; break; case 41: r=x<=y; break; } } break; }
    bm.emplace(b->id,r); return r; }
bool intMode=false;
static __int128 sat128(__int128 x){ const __int128 L=((__int128)1)<<100; return x>L?L:x<-L?-L:x; }
static __int128 mul128(__int128 a,__int128 b){ const __int128 L=((__int128)1)<<100; if(a==0||b==0) return 0; __int128 x=a<0?-a:a,y=b<0?-b:b; if(x>L/y) return ((a<0)!=(b<0))?-L:L; return a*b; }
static void tyRange(int w,__int128&lo,__int128&hi){ lo=-(((__int128)1)<<(w-1)); hi=(((__int128)1)<<(w-1))-1; if(w==1){ lo=0; hi=1; } }
void interval(IP i,__int128&lo,__int128&hi){ static std::unordered_map<const IT*,std::pair<__int128,__int128>> memo; auto it=memo.find(i); if(it!=memo.end()){ lo=it->second.first; hi=it->second.second; return; }
    __int128 a=0,b=0,c=0,d=0; tyRange(i->w,lo,hi); auto A=[&]{ interval(i->a,a,b); }; auto Bq=[&]{ interval(i->b,c,d); };
    switch(i->op){ case I_CONST: lo=hi=sx(i->w,i->c); break; case I_VAR: lo=i->lo; hi=i->hi; break;
    case I_ADD: A(); Bq(); lo=sat128(a+c); hi=sat128(b+d); break; case I_SUB: A(); Bq(); lo=sat128(a-d); hi=sat128(b-c); break;
    case I_MUL: { A(); Bq(); __int128 p[4]={mul128(a,c),mul128(a,d),mul128(b,c),mul128(b,d)}; lo=hi=p[0]; for(auto x:p){ if(x<lo) lo=x; if(x>hi) hi=x; } } break;
    case I_SDIV: case I_UDIV: A(); Bq(); if(a>=0&&c>0){ lo=a/d; hi=b/c; } break;
    case I_SREM: case I_UREM: A(); Bq(); if(a>=0&&c>0){ lo=0; hi=b<d-1?b:d-1; } else if(i->op==I_SREM){ __int128 m=d>-c?d:-c; if(m>0&&m-1<hi){ hi=m-1; lo=-(m-1); } if(a>=0) lo=0; } break;
    case I_SEXT: A(); lo=a; hi=b; break; case I_ZEXT: A(); if(a>=0){ lo=a; hi=b; } else { lo=0; hi=(((__int128)1)<<i->a->w)-1; } break;
    case I_TRUNC: A(); if(a>=lo&&b<=hi){ lo=a; hi=b; } break;
    case I_ITE: A(); Bq(); lo=a<c?a:c; hi=b>d?b:d; break; case I_AND: Bq(); A(); if(c>=0){ lo=0; hi=d; } else if(a>=0){ lo=0; hi=b; } break; case I_LSHR: A(); if(a>=0){ lo=0; hi=b; } break; default: break; }
    memo[i]={lo,hi}; }
void Z3T::inRange(IP i){ __int128 a,b,lo,hi; interval(i,a,b); tyRange(i->w,lo,hi); if(a<lo||b>hi) range.push_back(i); }
static bool nonneg(IP i){ __int128 a,b; interval(i,a,b); return a>=0; }
static z3::expr pow2(z3::context&c,int k){ return c.int_val(mpz_class(mpz_class(1)<<k).get_str().c_str()); }
z3::expr Z3T::U(IP i){ z3::expr x=I(i); inRange(i); return nonneg(i)?x:z3::ite(x<0,x+pow2(c,i->w),x); }
// integer polynomials over atoms, used only to state a valid lemma about a quotient:
// x = M*q0 + r as polynomials and 0 <= r < M  ==>  x/M = q0
typedef std::map<std::vector<IP>,mpz_class> IPoly;
static bool ipoly(IP i,IPoly&r){
    if(i->op==I_SHL&&i->b->op==I_CONST&&i->b->c<62){ IPoly a; if(!ipoly(i->a,a)) return false; mpz_class k=mpz_class(1)<<(unsigned)i->b->c; for(auto&x:a) r[x.first]=x.second*k; return true; }
    if(i->op==I_CONST){ int64_t v=sx(i->w,i->c); if(v) r[{}]=mpz_class((long)v); return true; }
    if(i->op==I_ADD||i->op==I_SUB||i->op==I_MUL){ IPoly a,b; if(!ipoly(i->a,a)||!ipoly(i->b,b)) return false;
        if(i->op==I_MUL){ if(a.size()*b.size()>64) return false; for(auto&x:a) for(auto&y:b){ std::vector<IP> m=x.first; m.insert(m.end(),y.first.begin(),y.first.end()); std::sort(m.begin(),m.end()); mpz_class&z=r[m]; z+=x.second*y.second; if(z==0) r.erase(m); } return true; }
        r=a; for(auto&y:b){ mpz_class&z=r[y.first]; if(i->op==I_ADD) z+=y.second; else z-=y.second; if(z==0) r.erase(y.first); } return true; }
    r[{i}]=1; return true; }
static bool polyEq(Z3T&,IP a,IP b,const z3::expr&,const z3::expr&){ IPoly p,q; return ipoly(a,p)&&ipoly(b,q)&&p==q; }
// quotients and remainders that the shape of the operands determines (the divisor is known to be non-zero); only when the
// intervals show that neither operand can leave its type, so that no range obligation is lost
static IP buildPoly(int w,const IPoly&p){ IP r=nullptr; for(auto&m:p){ if(!m.second.fits_slong_p()) return nullptr; IP t=nullptr; for(auto x:m.first){ IP y=x->w==w?x:x->w<w?iop(I_SEXT,w,x,nullptr):nullptr; if(!y) return nullptr; t=t?iop(I_MUL,w,t,y):y; } IP k=iconst(w,(uint64_t)m.second.get_si()); t= !t?k:m.second==1?t:iop(I_MUL,w,t,k); r=r?iop(I_ADD,w,r,t):t; } return r?r:iconst(w,0); }
static bool fitsAll(IP i,int depth=0){ if(depth>40) return false; __int128 a,b,lo,hi; interval(i,a,b); tyRange(i->w,lo,hi); if(a<lo||b>hi) return false; switch(i->op){ case I_ADD: case I_SUB: case I_MUL: return fitsAll(i->a,depth+1)&&fitsAll(i->b,depth+1); case I_SHL: return fitsAll(i->a,depth+1); default: return true; } }
static IP divSimp(IOp op,int w,IP a,IP b){ bool q=op==I_SDIV||op==I_UDIV; if(a->op==I_CONST&&a->c==0) return a; if(a->op==I_CONST&&b->op==I_CONST) return nullptr;
    __int128 al,ah,bl,bh; interval(a,al,ah); interval(b,bl,bh); if(al<0||bl<=0) return nullptr; if(!fitsAll(a)||!fitsAll(b)) return nullptr; if(ah<bl) return q?iconst(w,0):a;
    IPoly pa,pb; if(!ipoly(a,pa)||!ipoly(b,pb)) return nullptr; IPoly d=pb; for(auto&y:pa){ mpz_class&z=d[y.first]; z-=y.second; if(z==0) d.erase(y.first); } if(d.size()==1&&d.begin()->first.empty()&&d.begin()->second>0) return q?iconst(w,0):a;
    if(pb.size()!=1||pa.size()>4) return nullptr; auto&M=*pb.begin(); IPoly pq; for(auto&m:pa){ if(m.second%M.second!=0||!std::includes(m.first.begin(),m.first.end(),M.first.begin(),M.first.end())) return nullptr; std::vector<IP> rest; std::set_difference(m.first.begin(),m.first.end(),M.first.begin(),M.first.end(),std::back_inserter(rest)); pq[rest]+=m.second/M.second; }
    return q?buildPoly(w,pq):iconst(w,0); }
static z3::expr polyZ(Z3T&t,const IPoly&p){ z3::context&c=t.c; z3::expr r=c.int_val(0); for(auto&m:p){ z3::expr e=c.int_val(m.second.get_str().c_str()); for(auto x:m.first) e=e*t.I(x); r=r+e; } return r; }
static void quotLemma(Z3T&t,IP x,IP y,z3::expr q){ IPoly px,py,pq,pr; if(!ipoly(x,px)||!ipoly(y,py)||py.size()!=1||px.size()<1) return; auto&M=*py.begin(); if(M.first.empty()) return;
    for(auto&m:px){ std::vector<IP> rest; if(m.second%M.second==0&&std::includes(m.first.begin(),m.first.end(),M.first.begin(),M.first.end())){ std::set_difference(m.first.begin(),m.first.end(),M.first.begin(),M.first.end(),std::back_inserter(rest)); pq[rest]+=m.second/M.second; } else pr[m.first]+=m.second; }
    if(pq.empty()) return; z3::expr r=polyZ(t,pr),m=polyZ(t,py); t.axioms.push_back(z3::implies(r>=0&&r<m,q==polyZ(t,pq))); }
// x = X' - M*K where X' expands the remainders modulo M inside x: x and X' leave the same remainder
static bool rpoly(IP i,IP M,IPoly&r,bool&chg,int depth=0){
    if(depth>12) return false;
    if(i->op==I_SEXT||i->op==I_ZEXT){ __int128 a,b; interval(i->a,a,b); IP m=M; while(m->op==I_SEXT) m=m->a; if((i->a->op==I_SREM||i->a->op==I_UREM)&&(i->op==I_SEXT||a>=0)){ IP d=i->a->b; while(d->op==I_SEXT) d=d->a; if(d==m){ chg=true; return rpoly(i->a->a,M,r,chg,depth+1); } } r[{i}]=1; return true; }
    if(i->op==I_SREM){ IP m=M,d=i->b; while(m->op==I_SEXT) m=m->a; while(d->op==I_SEXT) d=d->a; if(d==m){ chg=true; return rpoly(i->a,M,r,chg,depth+1); } r[{i}]=1; return true; }
    if(i->op==I_CONST){ int64_t v=sx(i->w,i->c); if(v) r[{}]=mpz_class((long)v); return true; }
    if(i->op==I_ADD||i->op==I_SUB||i->op==I_MUL){ IPoly a,b; if(!rpoly(i->a,M,a,chg,depth+1)||!rpoly(i->b,M,b,chg,depth+1)) return false;
        if(i->op==I_MUL){ if(a.size()*b.size()>256) return false; for(auto&x:a) for(auto&y:b){ std::vector<IP> m=x.first; m.insert(m.end(),y.first.begin(),y.first.end()); std::sort(m.begin(),m.end()); mpz_class&z=r[m]; z+=x.second*y.second; if(z==0) r.erase(m); } return true; }
        r=a; for(auto&y:b){ mpz_class&z=r[y.first]; if(i->op==I_ADD) z+=y.second; else z-=y.second; if(z==0) r.erase(y.first); } return true; }
    r[{i}]=1; return true; }
static void remLemma(Z3T&t,IP x,IP M,z3::expr zx,z3::expr zm,z3::expr rem){ if(M->op==I_CONST) return; IPoly p; bool chg=false; if(!rpoly(x,M,p,chg)) return; t.axioms.push_back(z3::implies(zx>=0&&zm>0,rem==z3::mod(polyZ(t,p),zm))); }
static z3::expr intI(Z3T&t,IP i){ z3::context&c=t.c; int w=i->w; auto idiv=[&](z3::expr x,z3::expr y){ return z3::expr(c,Z3_mk_div(c,x,y)); };
    auto S=[&](IP x){ t.inRange(x); return t.I(x); };
    switch(i->op){ case I_CONST: return c.int_val((int64_t)sx(w,i->c)); case I_VAR: { z3::expr r=c.int_const(i->name->c_str()); t.axioms.push_back(r>=c.int_val((int64_t)i->lo)); t.axioms.push_back(r<=c.int_val((int64_t)i->hi)); return r; }
    case I_ADD: return t.I(i->a)+t.I(i->b); case I_SUB: return t.I(i->a)-t.I(i->b); case I_MUL: return t.I(i->a)*t.I(i->b);
    case I_SDIV: case I_SREM: { z3::expr x=S(i->a),y=S(i->b),q(c); if(nonneg(i->a)&&nonneg(i->b)){ q=idiv(x,y); quotLemma(t,i->a,i->b,q); } else { z3::expr ax=z3::ite(x<0,-x,x),ay=z3::ite(y<0,-y,y),m=idiv(ax,ay); quotLemma(t,i->a,i->b,idiv(x,y)); q=nonneg(i->b)?z3::ite(x<0,-idiv(-x,y),idiv(x,y)):z3::ite((x<0)!=(y<0),-m,m); } if(i->b->op!=I_CONST) t.axioms.push_back(z3::implies(x>=0&&x<y,q==0)); if(i->op==I_SDIV) return q; remLemma(t,i->a,i->b,x,y,x-q*y); return x-q*y; }
    case I_UDIV: case I_UREM: { z3::expr x=t.U(i->a),y=t.U(i->b),q=idiv(x,y); if(nonneg(i->a)&&nonneg(i->b)) quotLemma(t,i->a,i->b,q); z3::expr r= i->op==I_UDIV?q:x-q*y; return r; }
    case I_SHL: if(i->b->op==I_CONST) return t.I(i->a)*pow2(c,(int)i->b->c); break;
    case I_LSHR: if(i->b->op==I_CONST) return idiv(t.U(i->a),pow2(c,(int)i->b->c)); break;
    case I_ASHR: if(i->b->op==I_CONST) return idiv(S(i->a),pow2(c,(int)i->b->c)); break;
    case I_AND: if(i->b->op==I_CONST){ uint64_t m=i->b->c; if((m&(m+1))==0){ int k=0; while(k<64&&(m>>k)&1) k++; return z3::mod(t.I(i->a),pow2(c,k)); } } break;
    case I_ZEXT: return t.U(i->a); case I_SEXT: return S(i->a);
    case I_TRUNC: { __int128 a,b,lo,hi; interval(i->a,a,b); tyRange(w,lo,hi); z3::expr x=t.I(i->a); if(a>=lo&&b<=hi) return x; if(w==1) return z3::mod(x,c.int_val(2)); return z3::mod(x+pow2(c,w-1),pow2(c,w))-pow2(c,w-1); }
    case I_ITE: return z3::ite(t.B(i->cond),t.I(i->a),t.I(i->b)); default: break; }
    throw Unsupported{"operation "+std::to_string((int)i->op)+" in integer mode"}; }
z3::expr Z3T::I(IP i){
    auto it=im.find(i); if(it!=im.end()) return it->second; z3::expr r(c); int w=i->w;
    if(intMode){ r=intI(*this,i); im.emplace(i,r); return r; }
    switch(i->op){ case I_CONST: r=c.bv_val((uint64_t)i->c,w); break; case I_VAR: r=c.bv_const(i->name->c_str(),w); if(!(i->lo==INT64_MIN&&i->hi==INT64_MAX)){ axioms.push_back(r>=c.bv_val((int64_t)i->lo,w)); axioms.push_back(r<=c.bv_val((int64_t)i->hi,w)); } break;
    case I_ADD: r=I(i->a)+I(i->b); break; case I_SUB: r=I(i->a)-I(i->b); break; case I_MUL: r=I(i->a)*I(i->b); break; case I_UDIV: r=z3::udiv(I(i->a),I(i->b)); break; case I_SDIV: r=I(i->a)/I(i->b); break; case I_UREM: r=z3::urem(I(i->a),I(i->b)); break; case I_SREM: r=z3::srem(I(i->a),I(i->b)); break;
    case I_SHL: r=z3::shl(I(i->a),I(i->b)); break; case I_LSHR: r=z3::lshr(I(i->a),I(i->b)); break; case I_ASHR: r=z3::ashr(I(i->a),I(i->b)); break; case I_AND: r=I(i->a)&I(i->b); break; case I_OR: r=I(i->a)|I(i->b); break; case I_XOR: r=I(i->a)^I(i->b); break;
    case I_ZEXT: r=z3::zext(I(i->a),w-i->a->w); break; case I_SEXT: r=z3::sext(I(i->a),w-i->a->w); break; case I_TRUNC: r=I(i->a).extract(w-1,0); break; case I_ITE: r=z3::ite(B(i->cond),I(i->a),I(i->b)); break; case I_CONCAT: r=z3::concat(I(i->a),I(i->b)); break; }
    im.emplace(i,r); return r; }
// the part of a polynomial made of the monomials that satisfy a condition (a subsequence of a canonical list is canonical)
PP pfilter(PP p,const std::function<bool(int)>&keep){ if(p->kind!=P_POLY) return p; Poly q; q.kind=P_POLY; for(auto&x:p->t) if(keep(x.first)) q.t.push_back(x); return q.t.size()==p->t.size()?p:mk(std::move(q)); }

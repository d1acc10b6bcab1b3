// Symbolic terms for the nsym executor.
//  * reals: hash-consed canonical Laurent polynomials with rational coefficients over "atoms"
//    (variables, exp/log/erf/sqrt/... applications, reciprocals, indicators), plus +inf,-inf,NaN
//  * booleans: hash-consed comparisons of canonical polynomials and boolean combinations
//  * integers: bit-vector expression nodes, translated to z3 on demand
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <vector>
#include <map>
#include <unordered_map>
#include <string>
#include <cstdint>
#include <functional>
#include <unordered_set>

struct Unsupported { std::string msg; };

struct Exp { int n, d; // rational exponent
    bool operator==(const Exp&o) const {return n==o.n&&d==o.d;} };
struct Poly; struct BT; struct IT;
enum AtomKind { A_VAR, A_EXP, A_INV, A_SQRT, A_ABS, A_PP, A_IND, A_FUN, A_I2R };
struct Atom { int id; AtomKind kind; std::string name; // VAR/FUN name
    std::vector<const Poly*> args; const BT* cond=nullptr; int mono=-1; const IT* it=nullptr;
    bool positive=false, nonneg=false, negative=false, isconst=false; double constval=0; double lo=0,hi=0; bool bounded=false; };
struct Mono { int id; std::vector<std::pair<int,Exp>> f; };
enum PKind { P_POLY, P_PINF, P_NINF, P_NAN };
struct Poly { int id; PKind kind; std::vector<std::pair<int,mpq_class>> t; // (mono id, coeff) sorted by mono id
    bool isConst() const { return kind==P_POLY && (t.empty() || (t.size()==1 && t[0].first==0)); }
    bool isZero() const { return kind==P_POLY && t.empty(); }
    mpq_class cval() const { return t.empty()?mpq_class(0):t[0].second; } };
enum BKind { B_TRUE, B_FALSE, B_GT0, B_EQ0, B_NOT, B_AND, B_OR, B_INT, B_VAR };
struct BT { int id; BKind kind; const Poly* p=nullptr; const BT*a=nullptr,*b=nullptr; const IT* ia=nullptr,*ib=nullptr; int pred=0; std::string name; };
enum IOp { I_CONST, I_VAR, I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR,
           I_ZEXT, I_SEXT, I_TRUNC, I_ITE, I_CONCAT };
struct IT { IOp op; int w; uint64_t c=0; const IT*a=nullptr,*b=nullptr; const BT* cond=nullptr; std::string* name=nullptr; bool shadow=false; bool garbage=false; int64_t lo=0,hi=0; };

using PP = const Poly*; using BP = const BT*; using IP = const IT*;

PP pconst(const mpq_class&q); PP pint(long v); PP pinf(int s); PP pnan();
PP pvar(const std::string&name, bool positive=false);
PP padd(PP,PP); PP psub(PP,PP); PP pneg(PP); PP pmul(PP,PP); PP pscale(PP,const mpq_class&); PP pinv(PP); PP ppow(PP,long);
PP pexp(PP); PP plog(PP); PP psqrt(PP); PP pabs(PP); PP ppp(PP); PP pind(BP); PP pfun(const std::string&,std::vector<PP>); PP pnarrow(PP); PP pi2r(IP,bool uns=false);
PP psnap(double v, bool f32);
BP btrue(); BP bfalse(); BP bconst(bool); BP bgt0(PP); BP beq0(PP); BP bnot(BP); BP band(BP,BP); BP bor(BP,BP); BP bicmp(int pred,IP,IP); BP bvar(const std::string&);
bool syntPos(PP p, bool strict); void assertPos(BP b);
const Atom& atom(int id); const Mono& mono(int id);
std::string pstr(PP p, int maxterms=40); std::string bstr(BP b);
// numeric evaluation
struct NEnv { std::map<std::string,double> v; std::map<std::string,int64_t> iv; std::map<std::string,bool> bv; std::unordered_map<int,double> pc; };
double peval(PP p, NEnv&e); bool beval(BP b, NEnv&e); uint64_t ieval(IP i, NEnv&e);
void pvars(PP p, std::map<std::string,int>&out); void bvars(BP b, std::map<std::string,int>&out);
// clear denominators; returns canonical numerator
PP pnumer(PP p);
PP pfilter(PP p,const std::function<bool(int)>&keep);
extern bool intMode; // integers as mathematical integers (every result proved to fit its type) instead of bit vectors
void interval(IP i,__int128&lo,__int128&hi);
struct Z3T {
    z3::context &c; std::unordered_map<int,z3::expr> pm, am, bm; std::unordered_map<const IT*,z3::expr> im;
    std::vector<z3::expr> axioms; // accumulated since last drain
    Z3T(z3::context&c_):c(c_){}
    z3::expr P(PP p); z3::expr A(int a); z3::expr AE(int a, Exp e); z3::expr B(BP b); z3::expr I(IP i);
    std::unordered_map<std::string,z3::expr> bdef; // meaning of boolean variables introduced as abbreviations (floating point mode)
    void resetI(){ im.clear(); }
    std::vector<IP> range; // integer mode: terms whose 64-bit range has to be proved
    void inRange(IP i); z3::expr U(IP i);
};
IP iconst(int w,uint64_t v); IP ivar(const std::string&name,int w,int64_t lo,int64_t hi,bool shadow);
IP iop(IOp op,int w,IP a,IP b); IP iite(BP c,IP a,IP b);

// facts taken from a path condition, used to simplify terms before they are compared
struct Facts { std::unordered_map<int,PP> sub; std::unordered_map<const BT*,bool> b; std::unordered_map<int,PP> memo; void add(BP x,bool val=true); int known(BP x); };
PP psimp(PP p, Facts&f);

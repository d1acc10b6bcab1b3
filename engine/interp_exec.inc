// ---------------------------------------------------------------- decode
typedef Val (*ExtFn)(vector<Val>&a,const DI&d);
static std::unordered_map<string,ExtFn> extTab; static vector<ExtFn> extFns; static void initExt();
static ExtFn findExt(const string&n);
static int extId(const Function*f){ static std::unordered_map<const Function*,int> memo; auto it=memo.find(f); if(it!=memo.end()) return it->second; ExtFn e=findExt(f->getName().str()); int r=-1; if(e){ extFns.push_back(e); r=extFns.size()-1; } memo[f]=r; return r; }
static DFunc* dfOf(const Function*f){ funcAddr(f); return dfs[f]; }
static void decode(DFunc*df){
    const Function*f=df->f; std::unordered_map<const BasicBlock*,int> bi; int nb=0; for(auto&b:*f) bi[&b]=nb++; df->bl.resize(nb);
    int ns=0; for(auto&a:f->args()) df->slot[&a]=ns++; for(auto&b:*f) for(auto&i:b) if(!i.getType()->isVoidTy()) df->slot[&i]=ns++; df->nslots=ns;
    auto op=[&](const Value*v)->Opnd{ Opnd o; if(auto*c=dyn_cast<Constant>(v)){ o.c=constVal(c); return o; } if(isa<BasicBlock>(v)||isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return o; auto it=df->slot.find(v); if(it==df->slot.end()) throw Unsupported{"operand"}; o.slot=it->second; return o; };
    for(auto&b:*f){ DBlock&db=df->bl[bi[&b]];
        for(auto&phi:b.phis()) for(unsigned i=0;i<phi.getNumIncomingValues();i++) db.phi[bi[phi.getIncomingBlock(i)]].push_back({df->slot[&phi],op(phi.getIncomingValue(i))});
        for(auto&ins:b){ if(isa<PHINode>(ins)) continue; DI d; d.I=&ins; d.op=ins.getOpcode(); d.ty=ins.getType(); if(!d.ty->isVoidTy()){ d.dst=df->slot[&ins]; }
            Type*vt=d.ty; d.isF=isFP(vt); d.f32=vt->isFloatTy(); if(vt->isIntegerTy()) d.bits=vt->getIntegerBitWidth(); else if(vt->isPointerTy()) d.bits=64;
            if(auto*g=dyn_cast<GetElementPtrInst>(&ins)){ d.o.push_back(op(g->getPointerOperand())); for(gep_type_iterator it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ const Value*iv=it.getOperand(); if(StructType*st=it.getStructTypeOrNull()){ d.off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue()); } else { int64_t sc=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(iv)) d.off+=ci->getSExtValue()*sc; else { Opnd o=op(iv); d.idx.push_back({o,sc}); d.cases.push_back({iv->getType()->getIntegerBitWidth(),0}); } } } }
            else if(auto*cb=dyn_cast<CallBase>(&ins)){ if(isa<DbgInfoIntrinsic>(&ins)) continue; auto*cf=cb->getCalledFunction(); if(!cf) if(auto*c=dyn_cast<Constant>(cb->getCalledOperand()->stripPointerCasts())) cf=dyn_cast<Function>(const_cast<Constant*>(c)); if(!cf) if(auto*ga=dyn_cast<GlobalAlias>(cb->getCalledOperand())) cf=dyn_cast<Function>(ga->getAliaseeObject());
                if(cf&&cf->isIntrinsic()){ auto id=cf->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::assume||id==Intrinsic::donothing||id==Intrinsic::invariant_start||id==Intrinsic::prefetch||id==Intrinsic::var_annotation) continue; }
                for(auto&a:cb->args()) d.o.push_back(op(a)); d.o.push_back(op(cb->getCalledOperand())); d.cf=cf; if(auto*iv=dyn_cast<InvokeInst>(cb)){ d.t0=bi[iv->getNormalDest()]; d.t1=bi[iv->getUnwindDest()]; }
                if(cf){ DFunc*c=dfOf(cf); d.callee=c; d.ext=extId(cf); } }
            else if(auto*br=dyn_cast<BranchInst>(&ins)){ d.t0=bi[br->getSuccessor(0)]; if(br->isConditional()){ d.o.push_back(op(br->getCondition())); d.t1=bi[br->getSuccessor(1)]; } }
            else if(auto*sw=dyn_cast<SwitchInst>(&ins)){ d.o.push_back(op(sw->getCondition())); d.t0=bi[sw->getDefaultDest()]; d.bits=sw->getCondition()->getType()->getIntegerBitWidth(); for(auto&c:sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(),bi[c.getCaseSuccessor()]}); }
            else if(auto*ai=dyn_cast<AllocaInst>(&ins)){ d.size=DL->getTypeAllocSize(ai->getAllocatedType()); d.o.push_back(op(ai->getArraySize())); }
            else if(auto*st=dyn_cast<StoreInst>(&ins)){ d.o.push_back(op(st->getValueOperand())); d.o.push_back(op(st->getPointerOperand())); d.ty=st->getValueOperand()->getType(); }
            else if(auto*cm=dyn_cast<CmpInst>(&ins)){ d.o.push_back(op(cm->getOperand(0))); d.o.push_back(op(cm->getOperand(1))); d.pred=cm->getPredicate(); d.ty=cm->getOperand(0)->getType(); d.bits= d.ty->isIntegerTy()?d.ty->getIntegerBitWidth():64; d.isF=isFP(d.ty); }
            else if(auto*ev=dyn_cast<ExtractValueInst>(&ins)){ d.o.push_back(op(ev->getAggregateOperand())); }
            else if(auto*iv=dyn_cast<InsertValueInst>(&ins)){ d.o.push_back(op(iv->getAggregateOperand())); d.o.push_back(op(iv->getInsertedValueOperand())); }
            else if(isa<LandingPadInst>(ins)){ }
            else { for(auto&o:ins.operands()) d.o.push_back(op(o)); if(isa<CastInst>(ins)) d.size=ins.getOperand(0)->getType()->isIntegerTy()?ins.getOperand(0)->getType()->getIntegerBitWidth():64; }
            db.ins.push_back(std::move(d)); } }
    df->decoded=true; }
// ---------------------------------------------------------------- exceptions
static bool unwinding=false; static uint64_t excObj=0; static string excType; static vector<std::pair<uint64_t,string>> caught;
static int typeId(const string&n){ static std::map<string,int> m; auto it=m.find(n); if(it!=m.end()) return it->second; int k=m.size()+1; return m[n]=k; }
static string tiName(const Constant*c){ if(!c||isa<ConstantPointerNull>(c)) return ""; return c->stripPointerCasts()->getName().str(); }
static bool tiMatch(string thrown,const string&c){ if(c.empty()) return true; static const std::map<string,string> par={{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt12bad_weak_ptr","_ZTISt9exception"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt17bad_function_call","_ZTISt9exception"}};
    for(int i=0;i<6;i++){ if(thrown==c) return true; auto it=par.find(thrown); if(it==par.end()){ auto*g=M->getGlobalVariable(thrown,true); if(g&&g->hasInitializer()) if(auto*s=dyn_cast<ConstantStruct>(g->getInitializer())) if(s->getNumOperands()>2){ thrown=tiName(s->getOperand(2)); continue; } return false; } thrown=it->second; } return false; }
static void throwStd(const char*ti){ uint64_t a=alloc(64,"exception",true,true); memset(RAW(a),0,64); excObj=a; excType=ti; unwinding=true; }
// ---------------------------------------------------------------- arithmetic
static bool modeOverflow=false, modeRound=false, modeWide=false; /* double-precision scenario: a value squeezed through single precision is another value */ static long roundN=0; static std::set<int> deltaAtoms;
static uint64_t mask(int w,uint64_t v){ return w>=64?v:v&((1ull<<w)-1); } static int64_t sxt(int w,uint64_t v){ if(w>=64) return v; uint64_t m=1ull<<(w-1); v=mask(w,v); return (int64_t)((v^m)-m); }
static IP asI(const Val&v,int w){ if(v.k==CONC) return iconst(w,v.b); if(v.k==SINT){ IP i=(IP)v.s; return i; } if(v.k==BOOL) return iite((BP)v.s,iconst(w,1),iconst(w,0)); throw Unsupported{"asI kind "+std::to_string(v.k)+" at "+curLoc()}; }
static BP asB(const Val&v){ if(v.k==CONC) return bconst(v.b&1); if(v.k==BOOL) return (BP)v.s; if(v.k==SINT){ IP i=(IP)v.s; return bicmp(33,iop(I_AND,i->w,i,iconst(i->w,1)),iconst(i->w,0)); } throw Unsupported{"asB"}; }
static PP asF(const Val&v){ if(v.k==FLT||v.k==FBITS) return (PP)v.s; if(v.k==UNDEFV) return pnan(); throw Unsupported{"asF kind "+std::to_string(v.k)+" at "+curLoc()}; }
static int decideUndef(const Val&v){ if(v.k==UNDEFV||v.k==BLOB){ fail("branch depends on an uninitialised value ["+curLoc()+"]"); finish(0); } return decide(asB(v)); }
static int sgn(PP p){ // decide sign by forking
    if(p->kind==P_PINF) return 1; if(p->kind==P_NINF) return -1; if(decide(bgt0(p))) return 1; if(decide(bgt0(pneg(p)))) return -1; return 0; }
static uint64_t concretize(const Val&v){
    if(v.k==CONC) return v.b; if(v.k==UNDEFV||v.k==BLOB){ fail("address or size depends on an uninitialised value ["+curLoc()+"]"); finish(0); }
    if(v.k==BOOL) return decide((BP)v.s); if(v.k==FBITS) throw Unsupported{"float bits used as integer at "+curLoc()}; if(v.k!=SINT) throw Unsupported{"concretize"}; IP i=(IP)v.s;
    while(i->op==I_ITE) i=decide(i->cond)?i->a:i->b;
    if(i->op==I_CONST) return i->c;
    if(i->op==I_ZEXT&&i->a->op==I_ITE) return concretize(SI(i->a));
    for(int n=0;n<4096;n++){ NEnv e; if(models.empty()){ if(satPC(btrue(),&e)!=z3::sat) throw Unsupported{"concretize: unknown"}; } else e=models[0]; uint64_t c=ieval(i,e); if(decide(bicmp(32,i,iconst(i->w,c)))) return c; }
    throw Unsupported{"concretize: too many values"}; }
static int deltas(int m){ int n=0; for(auto&f:mono(m).f) if(deltaAtoms.count(f.first)) n+=f.second.n; return n; }
static PP dropHigh(PP p){ return modeRound?pfilter(p,[](int m){return deltas(m)<2;}):p; } // first order in rounding errors
static PP order0(PP p){ return modeRound?pfilter(p,[](int m){return deltas(m)==0;}):p; } static PP order1(PP p){ return pfilter(p,[](int m){return deltas(m)==1;}); }
static PP withRound(PP p){ if(!modeRound||p->kind!=P_POLY||p->isConst()) return p; bool onlyVar=p->t.size()==1&&(p->t[0].second==1||p->t[0].second==-1)&&mono(p->t[0].first).f.size()==1&&!deltaAtoms.count(mono(p->t[0].first).f[0].first); if(onlyVar) return p; p=dropHigh(p); PP d=pvar("delta#"+std::to_string(roundN++)); deltaAtoms.insert(mono(d->t[0].first).f[0].first); return dropHigh(padd(p,pmul(p,d))); }
static std::set<std::pair<int,bool>> obligDone;
static void obligation(PP r,bool f32,const char*what){
    if(r->kind!=P_POLY){ SH->obligations++; fail(string("floating point ")+what+" produces "+pstr(r)+" from finite inputs ["+curLoc()+"]"); finish(0); }
    if(r->isConst()) return; if(!obligDone.insert({r->id,f32}).second) return; SH->obligations++; PP L=pconst(f32?mpq_class("340000000000000000000000000000000000000"):mpq_class(1e308)); BP bad=bor(bgt0(psub(r,L)),bgt0(psub(pneg(r),L)));
    NEnv e; auto q=satPC(bad,&e); if(q==z3::unsat) return; if(q==z3::unknown){ SH->checksUnknown++; return; } fail(string("floating point ")+what+" overflows for finite inputs ["+curLoc()+"]",true,bad); BP g=bnot(bad); if(satPC(g)==z3::unsat) finish(0); addPC(g); }
// ---- floating point mode (modeFP): a symbolic value is a fresh variable of the polynomial layer that stands for an IEEE term
static z3::sort fpSort(bool f32){ return f32?Z->fpa_sort<32>():Z->fpa_sort<64>(); }
static z3::expr fpConst(double d,bool f32){ return f32?Z->fpa_val((float)d):Z->fpa_val(d); }
static bool fpSym(PP p){ return fpx->count(p); }
static z3::expr fpOf(PP p,bool f32){ auto it=fpx->find(p); if(it!=fpx->end()){ bool is32=Z3_fpa_get_sbits(*Z,it->second.get_sort())==24; if(is32==f32) return it->second; if(!is32) throw Unsupported{"floating point mode: double used as float"}; return z3::expr(*Z,Z3_mk_fpa_to_fp_float(*Z,Z->fpa_rounding_mode(),it->second,fpSort(false))); }
    if(p->kind==P_NAN) return fpConst(NAN,f32); if(p->kind==P_PINF) return fpConst(INFINITY,f32); if(p->kind==P_NINF) return fpConst(-INFINITY,f32); if(p->isConst()) return fpConst(p->cval().get_d(),f32); throw Unsupported{"real value in floating point mode"}; }
static PP fpMk(const z3::expr&e){ PP p=pvar("fp#"+std::to_string(fpN++)); fpx->emplace(p,e); return p; }
static BP fpB(const z3::expr&e){ string n="fpb#"+std::to_string(fpN++); ZT->bdef.emplace(n,e); return bvar(n); }
static PP fpDbl(double d,bool f32){ return psnap(f32?(double)(float)d:d,f32); }
static bool fpIs32(PP a,PP b,bool dflt){ for(PP p:{a,b}) if(p){ auto it=fpx->find(p); if(it!=fpx->end()) return Z3_fpa_get_sbits(*Z,it->second.get_sort())==24; } return dflt; }
static PP fpNeg(PP a){ auto it=fpx->find(a); if(it==fpx->end()) throw Unsupported{"negation in floating point mode"}; return fpMk(-it->second); }
static double fpNum(PP p){ return p->kind==P_NAN?NAN:p->kind==P_PINF?INFINITY:p->kind==P_NINF?-INFINITY:p->cval().get_d(); }
static PP fpBin(unsigned op,PP a,PP b,bool f32){
    if(!fpSym(a)&&!fpSym(b)){ double x=fpNum(a),y=fpNum(b),r; if(f32){ float u=x,v=y; r= op==Instruction::FAdd?u+v:op==Instruction::FSub?u-v:op==Instruction::FMul?u*v:u/v; } else r= op==Instruction::FAdd?x+y:op==Instruction::FSub?x-y:op==Instruction::FMul?x*y:x/y; return std::isnan(r)?pnan():std::isinf(r)?pinf(r>0?1:-1):fpDbl(r,f32); }
    z3::expr x=fpOf(a,f32),y=fpOf(b,f32); switch(op){ case Instruction::FAdd: return fpMk(x+y); case Instruction::FSub: return fpMk(x-y); case Instruction::FMul: return fpMk(x*y); case Instruction::FDiv: return fpMk(x/y); } throw Unsupported{"float op"}; }
static z3::expr fpBool(Z3_ast a){ return z3::expr(*Z,a); }
static PP fpFresh(bool f32,const char*n){ string s=string(n)+"!"+std::to_string(fpN++); return fpMk(Z->constant(s.c_str(),fpSort(f32))); }
struct FpApp { z3::expr x,y; }; static std::map<string,vector<FpApp>>*fpApps;
// library functions: exact where the theory has them, otherwise by the facts an implementation guarantees
static PP fpMath(const string&n,PP a,PP b,bool f32){
    if(!fpSym(a)&&(!b||!fpSym(b))){ double x=fpNum(a),y=b?fpNum(b):0,r; if(n=="exp") r=std::exp(x); else if(n=="log") r=std::log(x); else if(n=="sqrt") r=std::sqrt(x); else if(n=="fabs") r=std::fabs(x); else if(n=="hypot") r=std::hypot(x,y); else if(n=="fmax") r=std::fmax(x,y); else if(n=="fmin") r=std::fmin(x,y); else throw Unsupported{"math function "+n+" in floating point mode"}; if(f32) r=(float)r; return std::isnan(r)?pnan():std::isinf(r)?pinf(r>0?1:-1):fpDbl(r,f32); }
    z3::expr x=fpOf(a,f32); auto nan=[&](const z3::expr&e){return fpBool(Z3_mk_fpa_is_nan(*Z,e));}; auto inf=[&](const z3::expr&e){return fpBool(Z3_mk_fpa_is_infinite(*Z,e));}; auto le=[&](const z3::expr&u,const z3::expr&v){return fpBool(Z3_mk_fpa_leq(*Z,u,v));}; auto lt=[&](const z3::expr&u,const z3::expr&v){return fpBool(Z3_mk_fpa_lt(*Z,u,v));}; auto ab=[&](const z3::expr&e){return fpBool(Z3_mk_fpa_abs(*Z,e));}; z3::expr zero=fpConst(0,f32),one=fpConst(1,f32);
    if(n=="fabs") return fpMk(ab(x)); if(n=="sqrt") return fpMk(z3::sqrt(x,Z->fpa_rounding_mode()));
    if(n=="fmax"||n=="fmin"){ z3::expr y=fpOf(b,f32); return fpMk(z3::ite(nan(x),y,z3::ite(nan(y),x,z3::ite(n=="fmax"?lt(x,y):lt(y,x),y,x)))); }
    PP r=fpFresh(f32,n.c_str()); z3::expr v=fpOf(r,f32);
    if(n=="exp"){ double big=f32?88.7:709.7; fpAx.push_back(z3::implies(nan(x),nan(v))); fpAx.push_back(z3::implies(!nan(x),le(zero,v))); fpAx.push_back(z3::implies(le(x,zero),le(v,one))); fpAx.push_back(z3::implies(le(zero,x),le(one,v))); fpAx.push_back(z3::implies(le(x,fpConst(big,f32)),!inf(v)));
        fpAx.push_back(z3::implies(le(fpConst(big+0.1,f32),x),inf(v))); fpAx.push_back(z3::implies(le(x,fpConst(f32?-104:-746,f32)),fpBool(Z3_mk_fpa_is_zero(*Z,v)))); fpAx.push_back(z3::implies(le(fpConst(f32?-87:-708,f32),x),lt(zero,v)));
        for(auto&o:(*fpApps)[f32?"exp32":"exp64"]){ fpAx.push_back(z3::implies(le(x,o.x),le(v,o.y))); fpAx.push_back(z3::implies(le(o.x,x),le(o.y,v))); } (*fpApps)[f32?"exp32":"exp64"].push_back({x,v}); return r; }
    if(n=="log"){ fpAx.push_back(z3::implies(nan(x)||lt(x,zero),nan(v))); fpAx.push_back(z3::implies(le(zero,x),!nan(v))); fpAx.push_back(z3::implies(fpBool(Z3_mk_fpa_is_zero(*Z,x)),inf(v)&&le(v,zero))); fpAx.push_back(z3::implies(lt(zero,x)&&!inf(x),le(ab(v),fpConst(f32?104:746,f32)))); fpAx.push_back(z3::implies(le(one,x),le(zero,v))); fpAx.push_back(z3::implies(inf(x)&&lt(zero,x),inf(v)&&lt(zero,v)));
        for(double c:{2.,4.,16.,1024.,1e6,1e12}) fpAx.push_back(z3::implies(le(x,fpConst(c,f32)),le(v,fpConst(std::log(c)*1.001,f32))||nan(v))); return r; }
    if(n=="hypot"){ z3::expr y=fpOf(b,f32); z3::expr mx=z3::ite(lt(ab(x),ab(y)),ab(y),ab(x)); fpAx.push_back(z3::implies(!nan(x)&&!nan(y),le(ab(x),v)&&le(ab(y),v)&&le(v,mx*fpConst(2,f32)))); fpAx.push_back(z3::implies((nan(x)||nan(y))&&!inf(x)&&!inf(y),nan(v))); return r; }
    throw Unsupported{"math function "+n+" in floating point mode"}; }
static PP fabsV(PP a,bool f32){ return modeFP?fpMath("fabs",a,nullptr,f32):pabs(a); }
static PP fbin(unsigned op,PP a,PP b,bool f32){
    if(modeFP){ return fpBin(op,a,b,f32); }
    if(a->kind==P_NAN||b->kind==P_NAN) return pnan(); PP r=nullptr;
    switch(op){
    case Instruction::FSub: if(b->kind==P_PINF) b=pinf(-1); else if(b->kind==P_NINF) b=pinf(1); else b=pneg(b); [[fallthrough]];
    case Instruction::FAdd: if(a->kind!=P_POLY||b->kind!=P_POLY){ if(a->kind==P_POLY) r=b; else if(b->kind==P_POLY) r=a; else r= a->kind==b->kind?a:pnan(); } else if(a->isZero()) return b; else if(b->isZero()) return a; else r=withRound(padd(a,b)); if(modeOverflow) obligation(r,f32,"sum"); return r;
    case Instruction::FMul: if(a->kind!=P_POLY||b->kind!=P_POLY){ int s=sgn(a)*sgn(b); r= s?pinf(s):pnan(); } else { if((a->isZero()&&hasGarbage(b))||(b->isZero()&&hasGarbage(a))) return pnan(); if(modeRound&&((a->isConst()&&abs(a->cval())==1)||(b->isConst()&&abs(b->cval())==1))) return pmul(a,b); r=withRound(pmul(a,b)); } if(modeOverflow) obligation(r,f32,"product"); return r;
    case Instruction::FDiv: if(b->kind!=P_POLY){ if(a->kind!=P_POLY) r=pnan(); else r=pint(0); } else if(a->kind!=P_POLY){ int s=sgn(b); if(s==0) s=1; r=pinf((a->kind==P_PINF?1:-1)*s); }
        else { if(decide(beq0(order0(b)))){ int s=sgn(a); r= s?pinf(s):pnan(); } else { if(a->isZero()&&hasGarbage(b)) return pnan(); if(modeRound&&!b->isConst()){ PP b0=order0(b),b1=order1(b); if(b0->isZero()) throw Unsupported{"division by a value of first order in rounding mode"}; PP i0=pinv(b0); r=pmul(a,i0); if(!b1->isZero()) r=psub(r,pmul(pmul(order0(a),b1),pmul(i0,i0))); r=withRound(r); } else r=withRound(pmul(a,pinv(b))); } } if(modeOverflow) obligation(r,f32,"quotient"); return r;
    case Instruction::FRem: break; default: break; }
    throw Unsupported{"float op"}; }
static BP fcmpB(int pred,PP a,PP b){
    if(modeFP&&(fpSym(a)||fpSym(b))){ bool f=fpIs32(a,b,true); z3::expr x=fpOf(a,f),y=fpOf(b,f); z3::expr nan=fpBool(Z3_mk_fpa_is_nan(*Z,x))||fpBool(Z3_mk_fpa_is_nan(*Z,y)); z3::expr r=Z->bool_val(false); switch(pred&7){ case 0: break; case 1: r=fpBool(Z3_mk_fpa_eq(*Z,x,y)); break; case 2: r=fpBool(Z3_mk_fpa_gt(*Z,x,y)); break; case 3: r=fpBool(Z3_mk_fpa_geq(*Z,x,y)); break; case 4: r=fpBool(Z3_mk_fpa_lt(*Z,x,y)); break; case 5: r=fpBool(Z3_mk_fpa_leq(*Z,x,y)); break; case 6: r=!nan&&!fpBool(Z3_mk_fpa_eq(*Z,x,y)); break; case 7: r=!nan; break; } if(pred&8) r=r||nan; return fpB(r); } // FCMP_FALSE and TRUE included
    bool un=a->kind==P_NAN||b->kind==P_NAN; if(pred==CmpInst::FCMP_FALSE) return bfalse(); if(pred==CmpInst::FCMP_TRUE) return btrue(); if(pred==CmpInst::FCMP_ORD) return bconst(!un); if(pred==CmpInst::FCMP_UNO) return bconst(un);
    if(un) return bconst(pred>=CmpInst::FCMP_UNO);
    a=order0(a); b=order0(b); // rounding mode: branches are those of the exact values
    BP gt,lt,eq; if(a->kind!=P_POLY||b->kind!=P_POLY){ auto rk=[](PP p){return p->kind==P_PINF?1:p->kind==P_NINF?-1:0;}; int c=rk(a)-rk(b); gt=bconst(c>0); lt=bconst(c<0); eq=bconst(c==0); }
    else { PP d=psub(a,b); gt=bgt0(d); lt=bgt0(pneg(d)); eq=beq0(d); }
    switch(pred&7){ case 1: return eq; case 2: return gt; case 3: return bnot(lt); case 4: return lt; case 5: return bnot(gt); case 6: return bnot(eq); } throw Unsupported{"fcmp"}; }
static PP fsel(BP c,PP t,PP f){ if(t==f) return t; if(t->kind!=P_POLY||f->kind!=P_POLY||modeOverflow||modeRound||modeFP) return decide(c)?t:f;
    BP k=c; if(c->kind==B_NOT){ k=c->a; std::swap(t,f); }
    PP d=psub(t,f); if(k->kind==B_GT0&&d->t.size()==k->p->t.size()){ mpq_class q=d->t[0].second/k->p->t[0].second; if(pscale(k->p,q)==d) return padd(f,pscale(ppp(k->p),q)); }
    return padd(f,pmul(pind(k),d)); }
static Val selectV(const Val&c,const Val&t,const Val&f,Type*ty){
    if(c.k==CONC) return (c.b&1)?t:f; if(c.k==UNDEFV){ decideUndef(c); }
    BP b=asB(c); if(b->kind==B_TRUE) return t; if(b->kind==B_FALSE) return f;
    if(isFP(ty)&&(t.k==FLT||t.k==FBITS)&&(f.k==FLT||f.k==FBITS)){ bool known=false; for(auto p:pc) if(p==b||p==bnot(b)) known=true; if(known) return decide(b)?t:f; return F(fsel(b,asF(t),asF(f))); }
    if(ty->isIntegerTy(1)){ if((t.k==CONC||t.k==BOOL)&&(f.k==CONC||f.k==BOOL)) return BO(bor(band(b,asB(t)),band(bnot(b),asB(f)))); }
    if(ty->isIntegerTy()&&(t.k==SINT||f.k==SINT)&&(t.k==SINT||t.k==CONC)&&(f.k==SINT||f.k==CONC)){ int w=ty->getIntegerBitWidth(); return SI(iite(b,asI(t,w),asI(f,w))); }
    if(ty->isIntegerTy()&&t.k==CONC&&f.k==CONC){ int w=ty->getIntegerBitWidth(); if(w<=64&&t.b==f.b) return t; return SI(iite(b,iconst(w,t.b),iconst(w,f.b))); }
    return decide(b)?t:f; }
static Val ibin(unsigned op,int w,const Val&a,const Val&b){
    if(a.k==UNDEFV||b.k==UNDEFV){ const Val&c= a.k==UNDEFV?b:a; if(c.k==CONC){ if(op==Instruction::Or&&mask(w,~c.b)==0) return c; if((op==Instruction::And||op==Instruction::Mul)&&c.b==0) return c; } }
    if(a.k==CONC&&b.k==CONC){ uint64_t x=a.b,y=b.b; int64_t sx=sxt(w,x),sy=sxt(w,y); switch(op){
        case Instruction::Add: return C(mask(w,x+y)); case Instruction::Sub: return C(mask(w,x-y)); case Instruction::Mul: return C(mask(w,x*y));
        case Instruction::UDiv: if(!y) break; return C(mask(w,x/y)); case Instruction::URem: if(!y) break; return C(mask(w,x%y));
        case Instruction::SDiv: if(!sy) break; if(sy==-1) return C(mask(w,0-x)); return C(mask(w,sx/sy)); case Instruction::SRem: if(!sy) break; if(sy==-1) return C(0); return C(mask(w,sx%sy));
        case Instruction::Shl: return C(y>=(uint64_t)w?0:mask(w,x<<y)); case Instruction::LShr: return C(y>=(uint64_t)w?0:x>>y); case Instruction::AShr: return C(mask(w,y>=(uint64_t)w?(sx<0?-1:0):sx>>y));
        case Instruction::And: return C(x&y); case Instruction::Or: return C(x|y); case Instruction::Xor: return C(x^y); }
        fail("integer division by zero ["+curLoc()+"]"); finish(0); }
    if(w==1&&(a.k==BOOL||b.k==BOOL||a.k==SINT||b.k==SINT)&&a.k!=UNDEFV&&b.k!=UNDEFV){ BP x=asB(a),y=asB(b); switch(op){ case Instruction::And: return BO(band(x,y)); case Instruction::Or: return BO(bor(x,y)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return BO(bor(band(x,bnot(y)),band(bnot(x),y))); } }
    if(a.k==UNDEFV||b.k==UNDEFV||a.k==BLOB||b.k==BLOB){ if(op==Instruction::And){ if(a.k==CONC&&a.b==0) return a; if(b.k==CONC&&b.b==0) return b; } return UD(); }
    if(a.k==FBITS||b.k==FBITS){ // sign manipulations on float bits
        const Val&f=a.k==FBITS?a:b; const Val&m=a.k==FBITS?b:a; if(m.k==CONC){ if(op==Instruction::And&&m.b==mask(w-1,~0ull)){ Val r=f; r.s=fabsV((PP)f.s,w==32); return r; } if(op==Instruction::Xor&&m.b==1ull<<(w-1)){ Val r=f; r.s=fbin(Instruction::FSub,pint(0),(PP)f.s,w==32); return r; } } throw Unsupported{"integer arithmetic on symbolic float bits at "+curLoc()}; }
    if(a.k==AGG||b.k==AGG) throw Unsupported{"vector int op"};
    IP x=asI(a,w),y=asI(b,w); IOp o; switch(op){ case Instruction::Add: if(b.k==CONC&&b.b==0) return a; if(a.k==CONC&&a.b==0) return b; o=I_ADD; break; case Instruction::Sub: if(x==y) return C(0); if(b.k==CONC&&b.b==0) return a; o=I_SUB; break; case Instruction::Mul: if((a.k==CONC&&a.b==0)||(b.k==CONC&&b.b==0)) return C(0); if(a.k==CONC&&a.b==1) return b; if(b.k==CONC&&b.b==1) return a; o=I_MUL; break;
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: if(b.k==CONC&&b.b==1) return (op==Instruction::UDiv||op==Instruction::SDiv)?a:C(0); if(decide(bicmp(32,y,iconst(w,0)))){ fail("integer division by zero ["+curLoc()+"]"); finish(0);} o= op==Instruction::UDiv?I_UDIV:op==Instruction::SDiv?I_SDIV:op==Instruction::URem?I_UREM:I_SREM; break;
        case Instruction::Shl: o=I_SHL; break; case Instruction::LShr: o=I_LSHR; break; case Instruction::AShr: o=I_ASHR; break; case Instruction::And: o=I_AND; break; case Instruction::Or: o=I_OR; break; case Instruction::Xor: o=I_XOR; break; default: throw Unsupported{"int op"}; }
    // a range test written as an addition that may wrap (x+2^31 <u 2^32): exact wrapping instead of a range obligation
    if(intMode&&o==I_ADD&&w==64&&b.k==CONC&&curI){ auto*ob=dyn_cast<OverflowingBinaryOperator>(curI->I); int64_t k=(int64_t)b.b; if(ob&&!ob->hasNoSignedWrap()&&!ob->hasNoUnsignedWrap()&&(k>=(1ll<<30)||k<=-(1ll<<30))) return SI(iop(I_TRUNC,64,iop(I_ADD,66,iop(I_SEXT,66,x,nullptr),iop(I_SEXT,66,y,nullptr)),nullptr)); }
    return SI(iop(o,w,x,y)); }
static Val icmpV(int pred,int w,const Val&a,const Val&b){
    if(a.k==CONC&&b.k==CONC){ extern bool icmpc(int,int,uint64_t,uint64_t); return C(icmpc(pred,w,a.b,b.b)); }
    if(a.k==UNDEFV||b.k==UNDEFV||a.k==BLOB||b.k==BLOB) return UD();
    if(a.k==FBITS||b.k==FBITS) throw Unsupported{"integer comparison of symbolic float bits at "+curLoc()};
    if(w==1){ BP x=asB(a),y=asB(b); BP eq=bor(band(x,y),band(bnot(x),bnot(y))); if(pred==32) return BO(eq); if(pred==33) return BO(bnot(eq)); }
    IP x=asI(a,w),y=asI(b,w); if(x==y){ return C(pred==32||pred==35||pred==37||pred==39||pred==41); }
    if(y->op==I_CONST&&x->op==I_ITE&&x->a->op==I_CONST&&x->b->op==I_CONST){ bool t=false,f=false; extern bool icmpc(int,int,uint64_t,uint64_t); t=icmpc(pred,w,x->a->c,y->c); f=icmpc(pred,w,x->b->c,y->c); if(t&&f) return C(1); if(!t&&!f) return C(0); return BO(t?x->cond:bnot(x->cond)); }
    return BO(bicmp(pred,x,y)); }
static std::unordered_set<PP> sumsOfSquares; // radicands built by hypot
static PP mathFn(const string&n,PP a,PP b,bool f32){
    if(modeFP){ if(n=="expm1") return fpBin(Instruction::FSub,fpMath("exp",a,nullptr,f32),pint(1),f32); return fpMath(n,a,b,f32); }
    if(modeRound&&a->kind==P_POLY&&!order1(a)->isZero()){ // first order in the rounding errors of the argument
        PP a0=order0(a),a1=order1(a); if(n=="exp") return mathFn(n,a0,b,f32); /* the conditioning of exp itself is not counted */ if(n=="fabs"){ return decide(bgt0(pneg(a0)))?pneg(a):a; }
        if(n=="sqrt"){ PP r=mathFn(n,a0,b,f32); if(r->kind!=P_POLY||r->isZero()) throw Unsupported{"square root in rounding mode"}; return padd(r,pscale(pmul(a1,pinv(r)),mpq_class(1,2))); } throw Unsupported{"math function "+n+" of a rounded value"}; }
    if(n=="fabs"){ return fabsV(a,f32); }
    if(n=="sqrt"){ if(a->kind==P_POLY&&!syntPos(a,false)&&!a->isConst()&&!sumsOfSquares.count(a)){
            PP r=nullptr,arg=nullptr; int cnt=0; try { r=psqrt(a); } catch(Unsupported&){} // sign of the factor that is not a square
            if(r&&r->kind==P_POLY&&r->t.size()==1&&r->t[0].second>0) for(auto&f:mono(r->t[0].first).f){ const Atom&x=atom(f.first); if(x.kind==A_SQRT&&!syntPos(x.args[0],false)){ cnt++; arg=x.args[0]; } else if(!x.nonneg) cnt=9; }
            BP neg=bgt0(pneg(a)); if(r&&cnt==1&&arg!=a) neg=band(bgt0(pneg(arg)),bnot(beq0(a))); else if(r&&cnt==0&&r->kind==P_POLY&&r->t.size()==1) neg=bfalse();
            if(decide(neg)) return pnan(); } return psqrt(a); }
    if(n=="exp"){ if(modeOverflow&&a->kind==P_POLY&&!a->isConst()){ BP bad=bgt0(psub(a,pint(f32?88:709))); SH->obligations++; NEnv e; auto q=satPC(bad,&e); if(q==z3::sat) fail("floating point exp overflows for finite inputs ["+curLoc()+"]",true,bad); else if(q==z3::unknown) SH->checksUnknown++; } return pexp(a); }
    if(n=="exp2"){ if(a->isConst()&&a->cval().get_den()==1&&abs(a->cval())<1000) return ppow(pint(2),a->cval().get_num().get_si()); }
    if(n=="log"){ if(a->kind==P_POLY&&!a->isConst()&&!syntPos(a,true)) { int s=sgn(a); if(s<0) return pnan(); if(s==0) return pinf(-1); } return plog(a); }
    if(n=="tanh"){ if(a->kind==P_PINF) return pint(1); if(a->kind==P_NINF) return pint(-1); if(a->kind==P_NAN) return a; return psub(pint(1),pscale(pinv(padd(pexp(pscale(a,2)),pint(1))),2)); }
    if(n=="expm1"){ return fbin(Instruction::FSub,pexp(a),pint(1),f32); } if(n=="log1p") return mathFn("log",fbin(Instruction::FAdd,a,pint(1),f32),nullptr,f32);
    if(n=="erf"||n=="erfc"){ PP r; if(a->kind==P_PINF) r=pint(1); else if(a->kind==P_NINF) r=pint(-1); else if(a->kind==P_NAN) return a; else if(a->isZero()) r=pint(0); else { mpq_class lc=a->t.back().second; r= lc<0?pneg(pfun("erf",{pneg(a)})):pfun("erf",{a}); } return n=="erf"?r:psub(pint(1),r); }
    if(n=="sin"||n=="cos"){ if(a->kind!=P_POLY) return pnan(); if(a->isZero()) return pint(n=="cos"); mpq_class lc=a->t.back().second; PP r=pfun(n,{lc<0?pneg(a):a}); return (n=="sin"&&lc<0)?pneg(r):r; }
    if(n=="fmax"||n=="fmin"){ if(a->kind==P_NAN) return b; if(b->kind==P_NAN) return a; return n=="fmax"?fsel(fcmpB(CmpInst::FCMP_OGT,a,b),a,b):fsel(fcmpB(CmpInst::FCMP_OLT,a,b),a,b); }
    if(n=="hypot"){ if(a->kind==P_PINF||a->kind==P_NINF||b->kind==P_PINF||b->kind==P_NINF) return pinf(1); if(a->kind==P_NAN||b->kind==P_NAN) return pnan(); PP s=padd(pmul(a,a),pmul(b,b)); if(s->kind==P_POLY) sumsOfSquares.insert(s); return psqrt(s); }
    if(n=="pow"){ if(b->isConst()){ mpq_class q=b->cval(); if(q==0) return pint(1); if(a->kind!=P_POLY){ if(a->kind==P_PINF) return q>0?a:pint(0); return pnan(); } if(q.get_den()==1&&abs(q.get_num())<=100000){ if(q<0&&decide(beq0(a))) return pinf(1); return ppow(a,q.get_num().get_si()); } if(q==mpq_class(1,2)) return mathFn("sqrt",a,b,f32); if(q==mpq_class(-1,2)) return fbin(Instruction::FDiv,pint(1),mathFn("sqrt",a,b,f32),f32); if(a->isConst()) return psnap(std::pow(a->cval().get_d(),q.get_d()),f32); } return pfun("pow",{a,b}); }
    throw Unsupported{"math function "+n}; }
// ---------------------------------------------------------------- execution
static Val exec(DFunc*df,vector<Val>&args); static int depth=0;
static Val callFn(DFunc*c,vector<Val>&a,const DI*d,int ext){
    if(ext>=0){ DI dummy; return extFns[ext](a,d?*d:dummy); }
    if(c->f->isDeclaration()){ throw Unsupported{"call of undefined function "+c->f->getName().str()+" from "+curLoc()}; }
    return exec(c,a); }
static Val intrinsic(const DI&d,vector<Val>&a){
    auto id=d.cf->getIntrinsicID(); int w=d.bits; bool f32=d.f32;
    switch(id){
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n=concretize(a[2]); if(n) memCopy(concretize(a[0]),concretize(a[1]),n); return Val(); }
    case Intrinsic::memset: { uint64_t n=concretize(a[2]),p=concretize(a[0]); if(!n) return Val(); checkAcc(p,n,"write"); killStraddle(p,n); if(a[1].k==UNDEFV){ memset(SHD(p),S_UNINIT,n); return Val(); } memset(RAW(p),concretize(a[1])&255,n); memset(SHD(p),S_INIT,n); return Val(); }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { int p= id==Intrinsic::umax?34:id==Intrinsic::umin?36:id==Intrinsic::smax?38:40; return selectV(icmpV(p,w,a[0],a[1]),a[0],a[1],d.ty); }
    case Intrinsic::abs: { Val neg=ibin(Instruction::Sub,w,C(0),a[0]); return selectV(icmpV(40,w,a[0],C(0)),neg,a[0],d.ty); }
    case Intrinsic::fabs: return F(mathFn("fabs",asF(a[0]),nullptr,f32)); case Intrinsic::sqrt: return F(mathFn("sqrt",asF(a[0]),nullptr,f32)); case Intrinsic::exp: return F(mathFn("exp",asF(a[0]),nullptr,f32)); case Intrinsic::exp2: return F(mathFn("exp2",asF(a[0]),nullptr,f32)); case Intrinsic::log: return F(mathFn("log",asF(a[0]),nullptr,f32)); case Intrinsic::sin: return F(mathFn("sin",asF(a[0]),nullptr,f32)); case Intrinsic::cos: return F(mathFn("cos",asF(a[0]),nullptr,f32));
    case Intrinsic::pow: return F(mathFn("pow",asF(a[0]),asF(a[1]),f32)); case Intrinsic::powi: return F(mathFn("pow",asF(a[0]),pint(sxt(32,concretize(a[1]))),f32));
    case Intrinsic::maxnum: case Intrinsic::maximum: return F(mathFn("fmax",asF(a[0]),asF(a[1]),f32)); case Intrinsic::minnum: case Intrinsic::minimum: return F(mathFn("fmin",asF(a[0]),asF(a[1]),f32));
    case Intrinsic::fma: case Intrinsic::fmuladd: return F(fbin(Instruction::FAdd,fbin(Instruction::FMul,asF(a[0]),asF(a[1]),f32),asF(a[2]),f32));
    case Intrinsic::copysign: { PP m=fabsV(asF(a[0]),f32); PP s=asF(a[1]); if(s->isZero()) return F(m); return F(sgn(s)>=0?m:fbin(Instruction::FSub,pint(0),m,f32)); }
    case Intrinsic::is_fpclass: { PP p=asF(a[0]); unsigned m=a[1].b; if(modeFP&&fpSym(p)){ z3::expr x=fpx->at(p); z3::expr neg=fpBool(Z3_mk_fpa_is_negative(*Z,x)); z3::expr r=Z->bool_val(false); auto add=[&](unsigned bit,z3::expr c,int sg){ if(m&bit) r=r|| (sg==0?c:sg>0?c&&!neg:c&&neg); }; z3::expr nan=fpBool(Z3_mk_fpa_is_nan(*Z,x)),inf=fpBool(Z3_mk_fpa_is_infinite(*Z,x)),nor=fpBool(Z3_mk_fpa_is_normal(*Z,x)),sub=fpBool(Z3_mk_fpa_is_subnormal(*Z,x)),ze=fpBool(Z3_mk_fpa_is_zero(*Z,x)); add(3,nan,0); add(4,inf,-1); add(8,nor,-1); add(0x10,sub,-1); add(0x20,ze,-1); add(0x40,ze,1); add(0x80,sub,1); add(0x100,nor,1); add(0x200,inf,1); return BO(fpB(r)); } if(p->kind==P_NAN) return C((m&3)!=0); if(p->kind==P_PINF) return C((m&0x200)!=0); if(p->kind==P_NINF) return C((m&4)!=0); bool fin=(m&0x1f8)==0x1f8; if(fin) return C(1); if((m&0x1f8)==0) return C(0); BP r=bfalse(); if(m&0x60) r=bor(r,beq0(p)); if(m&0x180) r=bor(r,bgt0(p)); if(m&0x18) r=bor(r,bgt0(pneg(p))); return BO(r); }
    case Intrinsic::expect: return a[0]; case Intrinsic::is_constant: return C(0); case Intrinsic::objectsize: return C(-1ull);
    case Intrinsic::eh_typeid_for: return C(typeId(tiName(cast<Constant>(cast<CallBase>(d.I)->getArgOperand(0)))));
    case Intrinsic::trap: fail("trap ["+curLoc()+"]"); finish(0); return Val();
    case Intrinsic::stacksave: return C(0); case Intrinsic::stackrestore: return Val();
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { uint64_t x=concretize(a[0]),y=concretize(a[1]); int ww=cast<CallBase>(d.I)->getArgOperand(0)->getType()->getIntegerBitWidth(); __int128 r; bool s= id==Intrinsic::smul_with_overflow||id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow; __int128 X= s?(__int128)sxt(ww,x):(__int128)x,Y= s?(__int128)sxt(ww,y):(__int128)y; r= (id==Intrinsic::umul_with_overflow||id==Intrinsic::smul_with_overflow)?X*Y:(id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)?X+Y:X-Y; uint64_t lo=mask(ww,(uint64_t)r); bool ov= s? r!=(__int128)sxt(ww,lo): r!=(__int128)lo; return AG({C(lo),C(ov)}); }
    case Intrinsic::usub_sat: { uint64_t x=concretize(a[0]),y=concretize(a[1]); return C(x>y?x-y:0); }
    case Intrinsic::uadd_sat: { uint64_t x=concretize(a[0]),y=concretize(a[1]); uint64_t r=mask(w,x+y); return C(r<x?mask(w,~0ull):r); }
    case Intrinsic::ctpop: return C(__builtin_popcountll(concretize(a[0]))); case Intrinsic::ctlz: { uint64_t v=concretize(a[0]); return C(v?__builtin_clzll(v)-(64-w):w); } case Intrinsic::cttz: { uint64_t v=concretize(a[0]); return C(v?__builtin_ctzll(v):w); } case Intrinsic::bswap: { uint64_t v=concretize(a[0]); return C(__builtin_bswap64(v)>>(64-w)); }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t x=concretize(a[0]),y=concretize(a[1]),s=concretize(a[2])%w; if(id==Intrinsic::fshl) return C(s?mask(w,(x<<s)|(y>>(w-s))):x); return C(s?mask(w,(y>>s)|(x<<(w-s))):y); }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::nearbyint: { PP p=asF(a[0]); if(!p->isConst()) throw Unsupported{"rounding of symbolic"}; double v=p->cval().get_d(); v= id==Intrinsic::floor?std::floor(v):id==Intrinsic::ceil?std::ceil(v):id==Intrinsic::trunc?std::trunc(v):id==Intrinsic::round?std::round(v):std::rint(v); return F(psnap(v,false)); }
    case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
    case Intrinsic::vector_reduce_fadd: { PP s=asF(a[0]); for(auto&x:agg(a[1])) s=fbin(Instruction::FAdd,s,asF(x),f32); return F(s); }
    case Intrinsic::vector_reduce_add: { Val s=C(0); for(auto&x:agg(a[0])) s=ibin(Instruction::Add,w,s,x); return s; }
    case Intrinsic::vector_reduce_mul: { Val s=C(1); for(auto&x:agg(a[0])) s=ibin(Instruction::Mul,w,s,x); return s; }
    default: throw Unsupported{"intrinsic "+d.cf->getName().str()}; } }
static Val castV(const DI&d,const Val&v){
    int w=d.bits, sw=(int)d.size; switch(d.op){
    case Instruction::Trunc: if(v.k==CONC) return C(mask(w,v.b)); if(v.k==UNDEFV||v.k==BLOB) return UD(); if(v.k==FBITS) throw Unsupported{"trunc of float bits"}; { if(v.k==BOOL) return v; IP i=(IP)v.s; if(w==1){ if(i->op==I_ITE&&i->a->op==I_CONST&&i->b->op==I_CONST){ bool t=i->a->c&1,f=i->b->c&1; return t==f?C(t):BO(t?i->cond:bnot(i->cond)); } return BO(bicmp(33,iop(I_AND,i->w,i,iconst(i->w,1)),iconst(i->w,0))); } if(i->op==I_ITE&&i->a->op==I_CONST&&i->b->op==I_CONST) return SI(iite(i->cond,iconst(w,i->a->c),iconst(w,i->b->c))); if((i->op==I_ZEXT||i->op==I_SEXT)&&i->a->w==w) return SI(i->a); return SI(iop(I_TRUNC,w,i,nullptr)); }
    case Instruction::ZExt: case Instruction::SExt: { bool s=d.op==Instruction::SExt; if(v.k==CONC) return C(mask(w,s?(uint64_t)sxt(sw,v.b):v.b)); if(v.k==UNDEFV||v.k==BLOB) return UD(); if(v.k==BOOL) return SI(iite((BP)v.s,iconst(w,s?~0ull:1),iconst(w,0))); IP i=(IP)v.s; if(v.k!=SINT) throw Unsupported{"ext"}; if(i->op==I_ITE&&i->a->op==I_CONST&&i->b->op==I_CONST) return SI(iite(i->cond,iconst(w,s?sxt(i->w,i->a->c):i->a->c),iconst(w,s?sxt(i->w,i->b->c):i->b->c))); return SI(iop(s?I_SEXT:I_ZEXT,w,i,nullptr)); }
    case Instruction::FPTrunc: case Instruction::FPExt: { PP p=asF(v); if(modeFP){ if(!fpSym(p)) return F(p->kind==P_POLY&&d.op==Instruction::FPTrunc?fpBin(Instruction::FAdd,p,pint(0),true):p); static std::unordered_map<PP,PP>*ext=new std::unordered_map<PP,PP>; if(d.op==Instruction::FPExt){ PP r=fpMk(z3::expr(*Z,Z3_mk_fpa_to_fp_float(*Z,Z->fpa_rounding_mode(),fpx->at(p),fpSort(false)))); (*ext)[r]=p; return F(r); } auto it=ext->find(p); if(it!=ext->end()) return F(it->second); return F(fpMk(z3::expr(*Z,Z3_mk_fpa_to_fp_float(*Z,Z->fpa_rounding_mode(),fpx->at(p),fpSort(true))))); } if(modeOverflow&&d.op==Instruction::FPTrunc) obligation(p,true,"conversion"); if(modeWide&&d.op==Instruction::FPTrunc&&d.ty->isFloatTy()&&p->kind==P_POLY&&!p->isConst()) return F(pnarrow(p)); return F(d.op==Instruction::FPTrunc?withRound(p):p); }
    case Instruction::UIToFP: case Instruction::SIToFP: { if(v.k==UNDEFV) return F(pnan()); if(v.k==CONC){ if(d.op==Instruction::SIToFP){ long s=sxt(sw,v.b); return F(pint(s)); } mpz_class z; mpz_import(z.get_mpz_t(),1,1,8,0,0,&v.b); return F(pconst(mpq_class(z))); } if(v.k==BOOL) return F(pind((BP)v.s)); IP i=asI(v,sw); if(i->w<64) i=iop(d.op==Instruction::SIToFP?I_SEXT:I_ZEXT,64,i,nullptr); return F(pi2r(i,d.op==Instruction::UIToFP)); }
    case Instruction::FPToSI: case Instruction::FPToUI: { PP p=asF(v); if(!p->isConst()){ if(p->kind!=P_POLY) return UD(); // enumerate the feasible small integers, drop the rest
        for(int k=-3;k<=5;k++){ PP lo=k>0?pint(k):pint(k-1),hi=k>=0?pint(k+1):pint(k); BP in= k>0?band(bnot(bgt0(psub(lo,p))),bgt0(psub(hi,p))):k==0?band(bgt0(psub(p,pint(-1))),bgt0(psub(pint(1),p))):band(bgt0(psub(p,lo)),bnot(bgt0(psub(p,hi)))); if(decide(in)) return C(mask(w,(uint64_t)(int64_t)k)); } SH->truncated++; finish(1); } mpz_class z; mpz_tdiv_q(z.get_mpz_t(),p->cval().get_num_mpz_t(),p->cval().get_den_mpz_t()); if(z<0){ return C(mask(w,(uint64_t)(int64_t)z.get_si())); } return C(mask(w,z.get_ui())); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: return v.k==CONC?C(mask(w?w:64,v.b)):v;
    case Instruction::BitCast: { Type*st=d.I->getOperand(0)->getType(); if(isFP(d.ty)&&!isFP(st)){ if(v.k==CONC) return bitsToF(v.b,d.ty); if(v.k==FBITS){ Val r=v; r.k=FLT; return r; } if(v.k==UNDEFV) return F(pnan()); throw Unsupported{"bitcast to float"}; }
        if(isFP(st)&&d.ty->isIntegerTy()){ uint64_t b; if(ppToBits((PP)v.s,tsize(d.ty),b)) return C(b); Val r=v; r.k=FBITS; r.b=d.bits; return r; }
        if(d.ty->isVectorTy()||st->isVectorTy()){ uint64_t n=std::max(tsize(st),tsize(d.ty)); static uint64_t tmp=0; if(!tmp) tmp=alloc(256,"bitcast",false,false); (void)n; memset(SHD(tmp),S_UNINIT,256); storeT(tmp,st,v); return loadT(tmp,d.ty); }
        return v; }
    default: throw Unsupported{"cast"}; } }
static Val vecMap(const DI&d,const Val&a,const Val&b,std::function<Val(const Val&,const Val&)> f){ auto&x=agg(a); vector<Val> r; for(size_t i=0;i<x.size();i++) r.push_back(f(x[i],b.k==AGG?agg(b)[i]:b)); return AG(std::move(r)); }
static Val exec(DFunc*df,vector<Val>&args){
    if(!df->decoded) decode(df); if(df->id<(1<<16)) SH->fn[df->id]=1;
    if(++depth>3000) { fail("unbounded recursion"); finish(0); }
    vector<Val> R(df->nslots); for(size_t i=0;i<args.size()&&i<df->f->arg_size();i++) R[i]=args[i];
    DFunc*savedF=curF; const DI*savedI=curI; curF=df; vector<uint64_t> allocas; int bb=0, prev=-1; Val ret; uint64_t brkSaved=abrk; (void)brkSaved;
    auto get=[&](const Opnd&o)->const Val&{ return o.slot>=0?R[o.slot]:o.c; };
    auto leave=[&]{ for(auto a:allocas){ auto&o=objs[a]; memset(SHD(a),S_FREED,o.size); o.freed=true; } depth--; curF=savedF; curI=savedI; };
    size_t ip=0; 
    auto go=[&](int to){ DBlock&nb=df->bl[to]; prev=bb; if(!nb.phi.empty()){ auto it=nb.phi.find(bb); if(it!=nb.phi.end()){ if(it->second.size()==1){ R[it->second[0].dst]=get(it->second[0].src); } else { vector<Val> t; for(auto&m:it->second) t.push_back(get(m.src)); for(size_t i=0;i<t.size();i++) R[it->second[i].dst]=t[i]; } } } bb=to; ip=0; };
    for(;;){
        const DI&d=df->bl[bb].ins[ip++]; curI=&d; instrCount++;
        if((instrCount&0x3ffff)==0){ if(now()>SH->deadline) SH->stop=1; if(SH->stop||instrCount>(long)stepLimit){ if(!SH->stop) logLine("{\"k\":\"steplimit\",\"loc\":"+jstr(curLoc())+"}"); finish(2); } }
        switch(d.op){
        case Instruction::Ret: { if(!d.o.empty()) ret=get(d.o[0]); leave(); return ret; }
        case Instruction::Br: if(d.o.empty()) go(d.t0); else { const Val&c=get(d.o[0]); bool t= c.k==CONC?(c.b&1):decideUndef(c); go(t?d.t0:d.t1); } break;
        case Instruction::Switch: { Val c=get(d.o[0]); int to=d.t0; if(c.k==CONC){ for(auto&x:d.cases) if(x.first==c.b){ to=x.second; break; } } else { uint64_t v=concretize(c); for(auto&x:d.cases) if(x.first==v){ to=x.second; break; } } go(to); break; }
        case Instruction::Unreachable: fail("unreachable executed ["+curLoc()+"]"); finish(0); break;
        case Instruction::Alloca: { uint64_t n=concretize(get(d.o[0]))*d.size; uint64_t a=alloc(n,"stack",false,false,64); allocas.push_back(a); R[d.dst]=C(a); break; }
        case Instruction::Load: { uint64_t a=concretize(get(d.o[0])); R[d.dst]=loadT(a,d.ty); break; }
        case Instruction::Store: { uint64_t a=concretize(get(d.o[1])); storeT(a,d.ty,get(d.o[0])); break; }
        case Instruction::GetElementPtr: { const Val&b=get(d.o[0]); if(b.k==AGG) throw Unsupported{"vector gep"}; uint64_t off=d.off; Val sym; bool hs=false; for(size_t i=0;i<d.idx.size();i++){ const Val&v=get(d.idx[i].first); int w=d.cases[i].first; if(v.k==CONC) off+=sxt(w,v.b)*d.idx[i].second; else if(v.k==SINT&&w==64){ Val t=ibin(Instruction::Mul,64,v,C(d.idx[i].second)); sym= hs?ibin(Instruction::Add,64,sym,t):t; hs=true; } else off+=sxt(w,concretize(v))*d.idx[i].second; }
            if(hs||b.k!=CONC){ Val r=b; if(hs) r=ibin(Instruction::Add,64,r,sym); R[d.dst]=ibin(Instruction::Add,64,r,C(off)); } else R[d.dst]=C(b.b+off); break; }
        case Instruction::ICmp: { const Val&a=get(d.o[0]),&b=get(d.o[1]); if(a.k==AGG) R[d.dst]=vecMap(d,a,b,[&](const Val&x,const Val&y){return icmpV(d.pred,cast<FixedVectorType>(d.ty)->getElementType()->isIntegerTy()?cast<FixedVectorType>(d.ty)->getElementType()->getIntegerBitWidth():64,x,y);}); else R[d.dst]=icmpV(d.pred,d.bits,a,b); break; }
        case Instruction::FCmp: { const Val&a=get(d.o[0]),&b=get(d.o[1]); if(a.k==AGG) R[d.dst]=vecMap(d,a,b,[&](const Val&x,const Val&y){return BO(fcmpB(d.pred,asF(x),asF(y)));}); else R[d.dst]=BO(fcmpB(d.pred,asF(a),asF(b))); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { const Val&a=get(d.o[0]),&b=get(d.o[1]); if(a.k==AGG) R[d.dst]=vecMap(d,a,b,[&](const Val&x,const Val&y){return F(fbin(d.op,asF(x),asF(y),cast<FixedVectorType>(d.ty)->getElementType()->isFloatTy()));}); else R[d.dst]=F(fbin(d.op,asF(a),asF(b),d.f32)); break; }
        case Instruction::FNeg: { const Val&a=get(d.o[0]); if(a.k==AGG) R[d.dst]=vecMap(d,a,a,[&](const Val&x,const Val&){return F(fbin(Instruction::FSub,pint(0),asF(x),false));}); else { PP p=asF(a); R[d.dst]=F(modeFP&&fpSym(p)?fpNeg(p):p->kind==P_POLY?pneg(p):fbin(Instruction::FSub,pint(0),p,d.f32)); } break; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: { const Val&a=get(d.o[0]),&b=get(d.o[1]); if(a.k==AGG) R[d.dst]=vecMap(d,a,b,[&](const Val&x,const Val&y){return ibin(d.op,cast<FixedVectorType>(d.ty)->getElementType()->getIntegerBitWidth(),x,y);}); else { if(d.bits>64) throw Unsupported{"wide int op"}; R[d.dst]=ibin(d.op,d.bits,a,b); } break; }
        case Instruction::Select: { Val c=get(d.o[0]),t=get(d.o[1]),f=get(d.o[2]); if(c.k==AGG){ auto&cc=agg(c); vector<Val> r; Type*et=cast<FixedVectorType>(d.ty)->getElementType(); for(size_t i=0;i<cc.size();i++) r.push_back(selectV(cc[i],agg(t)[i],agg(f)[i],et)); R[d.dst]=AG(std::move(r)); } else R[d.dst]=selectV(c,t,f,d.ty); break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { const Val&a=get(d.o[0]); if(a.k==AGG&&d.op!=Instruction::BitCast){ Type*et=cast<FixedVectorType>(d.ty)->getElementType(); Type*se=cast<FixedVectorType>(d.I->getOperand(0)->getType())->getElementType(); DI e=d; e.ty=et; e.f32=et->isFloatTy(); e.bits=et->isIntegerTy()?et->getIntegerBitWidth():64; e.size=se->isIntegerTy()?se->getIntegerBitWidth():64; R[d.dst]=vecMap(d,a,a,[&](const Val&x,const Val&){return castV(e,x);}); } else R[d.dst]=castV(d,a); break; }
        case Instruction::Freeze: { Val v=get(d.o[0]); if(v.k==UNDEFV) v=C(0); R[d.dst]=v; break; }
        case Instruction::ExtractValue: { Val v=get(d.o[0]); for(unsigned i:cast<ExtractValueInst>(d.I)->getIndices()){ if(v.k!=AGG) throw Unsupported{"extractvalue"}; Val t=agg(v)[i]; v=t; } R[d.dst]=v; break; }
        case Instruction::InsertValue: { auto ix=cast<InsertValueInst>(d.I)->getIndices(); std::function<Val(const Val&,unsigned)> rec=[&](const Val&v,unsigned k)->Val{ if(k==ix.size()) return get(d.o[1]); vector<Val> c=agg(v); c[ix[k]]=rec(c[ix[k]],k+1); return AG(std::move(c)); }; R[d.dst]=rec(get(d.o[0]),0); break; }
        case Instruction::ExtractElement: { R[d.dst]=agg(get(d.o[0]))[concretize(get(d.o[1]))]; break; }
        case Instruction::InsertElement: { vector<Val> c=agg(get(d.o[0])); c[concretize(get(d.o[2]))]=get(d.o[1]); R[d.dst]=AG(std::move(c)); break; }
        case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(d.I); auto&x=agg(get(d.o[0])); auto&y=agg(get(d.o[1])); vector<Val> r; for(int m:sv->getShuffleMask()) r.push_back(m<0?UD():m<(int)x.size()?x[m]:y[m-x.size()]); R[d.dst]=AG(std::move(r)); break; }
        case Instruction::LandingPad: { R[d.dst]=AG({C(excObj),C(0)}); auto*lp=cast<LandingPadInst>(d.I); int sel=0; for(unsigned i=0;i<lp->getNumClauses();i++){ if(!lp->isCatch(i)) continue; string n=tiName(cast<Constant>(lp->getClause(i))); if(tiMatch(excType,n)){ sel=typeId(n); break; } } R[d.dst]=AG({C(excObj),C(sel)}); break; }
        case Instruction::Resume: unwinding=true; leave(); return ret;
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: { auto*rm=cast<AtomicRMWInst>(d.I); uint64_t a=concretize(get(d.o[0])); Val o=loadT(a,d.ty); Val v=get(d.o[1]); Val n; switch(rm->getOperation()){ case AtomicRMWInst::Add: n=ibin(Instruction::Add,d.bits,o,v); break; case AtomicRMWInst::Sub: n=ibin(Instruction::Sub,d.bits,o,v); break; case AtomicRMWInst::Xchg: n=v; break; case AtomicRMWInst::Or: n=ibin(Instruction::Or,d.bits,o,v); break; case AtomicRMWInst::And: n=ibin(Instruction::And,d.bits,o,v); break; default: throw Unsupported{"atomicrmw"}; } storeT(a,d.ty,n); R[d.dst]=o; break; }
        case Instruction::AtomicCmpXchg: { uint64_t a=concretize(get(d.o[0])); Type*t=d.I->getOperand(1)->getType(); Val o=loadT(a,t); bool eq=concretize(o)==concretize(get(d.o[1])); if(eq) storeT(a,t,get(d.o[2])); R[d.dst]=AG({o,C(eq)}); break; }
        case Instruction::Call: case Instruction::Invoke: {
            vector<Val> a; size_t n=d.o.size()-1; a.reserve(n); for(size_t i=0;i<n;i++) a.push_back(get(d.o[i])); Val r;
            if(d.cf&&d.cf->isIntrinsic()) r=intrinsic(d,a);
            else { DFunc*c=d.callee; int ext=d.ext; if(!c){ uint64_t fa=concretize(get(d.o[n])); auto it=faddr.find(fa); if(it==faddr.end()){ if(isa<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand())){ if(d.dst>=0) R[d.dst]=C(0); if(d.op==Instruction::Invoke) go(d.t0); break; } fail("call through invalid function pointer ["+curLoc()+"]"); finish(0); } c=it->second; ext=extId(c->f); }
                if(ext<0&&!c->f->isDeclaration()) for(size_t i=0;i<n&&i<c->f->arg_size();i++) if(cast<CallBase>(d.I)->isByValArgument(i)){ Type*bt=cast<CallBase>(d.I)->getParamByValType(i); uint64_t sz=DL->getTypeAllocSize(bt); uint64_t p=alloc(sz,"byval",false,false,64); memCopy(p,concretize(a[i]),sz); a[i]=C(p); }
                r=callFn(c,a,&d,ext); curI=&d; }
            if(unwinding){ if(d.op==Instruction::Invoke){ auto*lp=cast<InvokeInst>(d.I)->getLandingPadInst(); bool m=lp->isCleanup(); for(unsigned i=0;i<lp->getNumClauses()&&!m;i++) if(lp->isCatch(i)&&tiMatch(excType,tiName(cast<Constant>(lp->getClause(i))))) m=true; else if(lp->isFilter(i)) m=true; if(m){ unwinding=false; go(d.t1); break; } } leave(); return ret; }
            if(d.dst>=0) R[d.dst]=r; if(d.op==Instruction::Invoke) go(d.t0); break; }
        default: throw Unsupported{string("instruction ")+d.I->getOpcodeName()};
        } } }
// ---------------------------------------------------------------- externals
static string cstr(uint64_t a){ string s; for(;;a++){ checkAcc(a,1,"read"); if(*SHD(a)!=S_INIT) throw Unsupported{"symbolic string"}; char c=*RAW(a); if(!c) break; s+=c; } return s; }
static string uname(const string&n){ int k=nameCount[n]++; return k?n+"#"+std::to_string(k):n; }
static uint64_t heap(uint64_t n,bool init){ uint64_t a=alloc(n,"heap",false,true); if(init){ memset(RAW(a),0,n); memset(SHD(a),S_INIT,n); } return a; }
static void hfree(uint64_t a){ if(!a) return; auto it=objs.find(a); if(it==objs.end()||!it->second.heap){ fail("free of a pointer that was not allocated ["+curLoc()+"]"); finish(0); } if(it->second.freed){ fail("double free ["+curLoc()+"]"); finish(0); } it->second.freed=true; it->second.what="freed heap"; memset(SHD(a),S_FREED,it->second.size); }
#define X(name) static Val name(vector<Val>&a,const DI&d)
X(x_new){ return C(heap(concretize(a[0]),false)); } X(x_del){ hfree(concretize(a[0])); return Val(); } X(x_calloc){ return C(heap(concretize(a[0])*concretize(a[1]),true)); }
X(x_realloc){ uint64_t p=concretize(a[0]),n=concretize(a[1]); uint64_t q=heap(n,false); if(p){ uint64_t o=objs[p].size; memCopy(q,p,std::min(o,n)); hfree(p);} return C(q); }
X(x_memcpy){ uint64_t n=concretize(a[2]); if(n) memCopy(concretize(a[0]),concretize(a[1]),n); return a[0]; }
X(x_memset){ uint64_t n=concretize(a[2]),p=concretize(a[0]); if(n){ checkAcc(p,n,"write"); killStraddle(p,n); memset(RAW(p),concretize(a[1])&255,n); memset(SHD(p),S_INIT,n);} return a[0]; }
X(x_strlen){ return C(cstr(concretize(a[0])).size()); } X(x_strcmp){ return C(mask(32,(uint64_t)(int64_t)strcmp(cstr(concretize(a[0])).c_str(),cstr(concretize(a[1])).c_str()))); }
X(x_memcmp){ uint64_t n=concretize(a[2]),p=concretize(a[0]),q=concretize(a[1]); if(!n) return C(0); checkAcc(p,n,"read"); checkAcc(q,n,"read"); bool sym=false; for(uint64_t i=0;i<n;i++) if(SHD(p)[i]!=S_INIT||SHD(q)[i]!=S_INIT) sym=true;
    if(!sym){ for(uint64_t i=0;i<n;i++) if(RAW(p)[i]!=RAW(q)[i]) return C(mask(32,(uint64_t)(int64_t)(RAW(p)[i]<RAW(q)[i]?-1:1))); return C(0); }
    if(n%8||!intMode) throw Unsupported{"memcmp on symbolic"}; BP e=btrue(); for(uint64_t i=0;i<n;i+=8){ bool any=false; for(int k=0;k<8;k++){ uint8_t s=SHD(p+i)[k],t=SHD(q+i)[k]; if(s==S_UNINIT||t==S_UNINIT) throw Unsupported{"memcmp on uninitialised"}; any|=s!=S_INIT||t!=S_INIT; } Type*t=Type::getInt64Ty(M->getContext()); Val x=loadT(p+i,t),y=loadT(q+i,t); e=band(e,any||x.k!=CONC||y.k!=CONC?bicmp(32,asI(x,64),asI(y,64)):bconst(x.b==y.b)); }
    return C(decide(e)?0:1); } // only equality: the sign of the result is not modelled
X(x_nop0){ return C(0); } X(x_arg0){ return a.empty()?C(0):a[0]; } X(x_one){ return C(1); }
X(x_abort){ fail("abort/terminate called ["+curLoc()+"]"); finish(0); return Val(); }
X(x_exit){ finish(0); return Val(); }
X(x_allocexc){ return C(alloc(concretize(a[0])+64,"exception",true,true)); }
X(x_throw){ excObj=concretize(a[0]); auto*cb=cast<CallBase>(d.I); excType=tiName(dyn_cast<Constant>(cb->getArgOperand(1))); unwinding=true; return Val(); }
X(x_begincatch){ caught.push_back({excObj,excType}); return a[0]; } X(x_endcatch){ if(!caught.empty()) caught.pop_back(); return Val(); } X(x_rethrow){ if(caught.empty()) x_abort(a,d); excObj=caught.back().first; excType=caught.back().second; unwinding=true; return Val(); }
X(x_lenerr){ throwStd("_ZTISt12length_error"); return Val(); } X(x_oor){ throwStd("_ZTISt12out_of_range"); return Val(); } X(x_badalloc){ throwStd("_ZTISt9bad_alloc"); return Val(); } X(x_logic){ throwStd("_ZTISt11logic_error"); return Val(); } X(x_badfn){ throwStd("_ZTISt17bad_function_call"); return Val(); }
X(x_excctor){ uint64_t p=concretize(a[0]); checkAcc(p,16,"write"); memset(RAW(p),0,16); memset(SHD(p),S_INIT,16); return Val(); }
X(x_what){ static uint64_t s=0; if(!s){ s=alloc(32,"what",true,false); strcpy((char*)RAW(s),"exception"); } return C(s); }
X(x_guard){ uint64_t g=concretize(a[0]); return C(*RAW(g)==0); } X(x_guardrel){ *RAW(concretize(a[0]))=1; return Val(); }
template<int K> static Val x_math(vector<Val>&a,const DI&d){ static const char*N[]={"exp","log","sqrt","erf","erfc","tanh","pow","fabs","fmax","fmin","hypot","sin","cos","expm1","log1p","exp2"}; bool f32=d.ty&&d.ty->isFloatTy(); PP r=mathFn(N[K],asF(a[0]),a.size()>1?asF(a[1]):nullptr,f32); if(modeRound&&K!=7&&K!=8&&K!=9) r=withRound(r); if(modeOverflow&&K!=0) obligation(r,f32,N[K]); return F(r); }
X(x_fma){ return F(fbin(Instruction::FAdd,fbin(Instruction::FMul,asF(a[0]),asF(a[1]),d.f32),asF(a[2]),d.f32)); }
X(x_rbinsert){ extern void _dummy(); bool left=concretize(a[0])&1; std::_Rb_tree_insert_and_rebalance(left,(std::_Rb_tree_node_base*)concretize(a[1]),(std::_Rb_tree_node_base*)concretize(a[2]),*(std::_Rb_tree_node_base*)concretize(a[3])); memset(SHD(a[1].b),S_INIT,32); return Val(); }
X(x_rbinc){ return C((uint64_t)std::_Rb_tree_increment((std::_Rb_tree_node_base*)concretize(a[0]))); } X(x_rbdec){ return C((uint64_t)std::_Rb_tree_decrement((std::_Rb_tree_node_base*)concretize(a[0]))); }
X(x_rberase){ return C((uint64_t)std::_Rb_tree_rebalance_for_erase((std::_Rb_tree_node_base*)concretize(a[0]),*(std::_Rb_tree_node_base*)concretize(a[1]))); }
static Val marshal(vector<Val>&a,const char*which){ // marshal varargs
    size_t n=a.size()-1; uint64_t arr=heap(8*(n?n:1),false); for(size_t i=0;i<n;i++){ uint64_t v=0; if(a[i+1].k==FLT){ if(!ppToBits((PP)a[i+1].s,8,v)) v=0; } else v= a[i+1].k==CONC?a[i+1].b:concretize(a[i+1]); setConc(arr+8*i,&v,8); }
    auto*f=M->getFunction(which); if(!f) throw Unsupported{string(which)+" missing"};
    vector<Val> b={a[0],C(arr),C(n)}; return callFn(dfOf(f),b,nullptr,-1); }
X(x_task_insert){ return marshal(a,"rt_task_insert"); }
X(x_task_build){ return marshal(a,"rt_task_build"); }
static int fpMant=0; // bits of the mantissa of an input that may be set (0: all)
static PP fpInput(const string&n,PP lo,PP hi,bool pos){ newVar({n,0,0,0,0,0}); z3::expr x=fpMant?z3::expr(*Z,Z3_mk_fpa_to_fp_bv(*Z,z3::concat(Z->bv_const(n.c_str(),9+fpMant),Z->bv_val(0,23-fpMant)),fpSort(true))):Z->constant(n.c_str(),fpSort(true)); fpVar->emplace(n,x); addPC(fpB(!fpBool(Z3_mk_fpa_is_nan(*Z,x))&&!fpBool(Z3_mk_fpa_is_infinite(*Z,x)))); if(lo) addPC(fpB(fpBool(Z3_mk_fpa_leq(*Z,fpConst(fpNum(lo),true),x))&&fpBool(Z3_mk_fpa_leq(*Z,x,fpConst(fpNum(hi),true))))); if(pos) addPC(fpB(fpBool(Z3_mk_fpa_gt(*Z,x,fpConst(0,true))))); return fpMk(x); }
X(n_real){ string n=uname(cstr(concretize(a[0]))); if(modeFP) return F(fpInput(n,nullptr,nullptr,false)); newVar({n,0,0,0,0,0}); return F(pvar(n)); }
X(n_pos){ string n=uname(cstr(concretize(a[0]))); if(modeFP) return F(fpInput(n,nullptr,nullptr,true)); newVar({n,1,0,0,0,0}); PP p=pvar(n,true); return F(p); }
X(n_realin){ string n=uname(cstr(concretize(a[0]))); PP lo=asF(a[1]),hi=asF(a[2]); if(modeFP) return F(fpInput(n,lo,hi,false)); VarInfo v{n,2,lo->cval().get_d(),hi->cval().get_d(),0,0}; newVar(v); PP p=pvar(n); addPC(bnot(bgt0(psub(lo,p)))); addPC(bnot(bgt0(psub(p,hi)))); return F(p); }
X(n_int){ string n=uname(cstr(concretize(a[0]))); int64_t lo=concretize(a[1]),hi=concretize(a[2]); if(hi<lo) finish(1); newVar({n,3,0,0,lo,hi}); if(lo==hi){ return C(lo); } IP i=ivar(n,64,lo,hi,false); return SI(i); }
X(n_pick){ string n=uname(cstr(concretize(a[0]))); int64_t k=concretize(a[1]); if(k<=0) finish(1); int r= k==1?0:forkN(k); picks.push_back({n,r}); return C(r); }
X(n_concrete){ return C(concretize(a[0])); }
X(n_assume){ BP c=asB(a[0]); if(c->kind==B_TRUE) return Val(); if(c->kind==B_FALSE) finish(1); if(satPC(c)==z3::unsat) finish(1); addPC(c); return Val(); }
X(n_check){ string m=cstr(concretize(a[1])); if(a[0].k==UNDEFV){ SH->checks++; fail(m+" (uninitialised condition)"); return Val(); } checkBool(asB(a[0]),m); return Val(); }
X(n_eq){ pending.push_back({asF(a[0]),asF(a[1]),cstr(concretize(a[2]))}); return Val(); }
X(n_reach){ string t=cstr(concretize(a[0])); static std::set<string> seen; if(seen.insert(t).second) logLine("{\"k\":\"reach\",\"tag\":"+jstr(t)+"}"); return Val(); }
X(n_fail){ SH->checks++; fail(cstr(concretize(a[0]))); finish(0); return Val(); }
X(n_note){ logLine("{\"k\":\"note\",\"s\":"+jstr(cstr(concretize(a[0])))+"}"); return Val(); }
X(n_garbage){ uint64_t p=concretize(a[0]),n=concretize(a[1]); if(n){ checkAcc(p,n,"write"); memset(SHD(p),S_UNINIT,n);} return Val(); }
X(n_memsame){ uint64_t p=concretize(a[0]),q=concretize(a[1]),n=concretize(a[2]); checkAcc(p,n,"read"); checkAcc(q,n,"read"); SH->checks++; SH->checksSynt++; for(uint64_t i=0;i<n;i++){ uint8_t s=SHD(p)[i],t=SHD(q)[i]; if(s!=t) return C(0); if(s!=S_UNINIT&&RAW(p)[i]!=RAW(q)[i]) return C(0);} return C(1); }
X(n_mode){ string m=cstr(concretize(a[0])); bool on=concretize(a[1])&0xffffffff; if(m=="overflow") modeOverflow=on; else if(m=="round") modeRound=on; else if(m=="wide") modeWide=on; else if(m=="int") intMode=on; else if(m=="mantissa") fpMant=concretize(a[1]); else if(m=="float"){ modeFP=on; if(on&&!fpx){ fpx=new std::unordered_map<const Poly*,z3::expr>; fpVar=new std::map<string,z3::expr>; fpApps=new std::map<string,vector<FpApp>>; } } else throw Unsupported{"mode"}; return Val(); }
X(n_isfinite){ PP p=asF(a[0]); if(modeFP&&fpSym(p)){ z3::expr x=fpx->at(p); return F(decide(fpB(!fpBool(Z3_mk_fpa_is_nan(*Z,x))&&!fpBool(Z3_mk_fpa_is_infinite(*Z,x))))?pint(1):pint(0)); } return F(pint(p->kind==P_POLY)); }
// fibers: n activations of body, each on its own stack, that hand over to each other only in nsym_fiber_yield (CUDA barriers)
struct Fiber { ucontext_t c; char*stk=nullptr; bool done=false; int depth=0; DFunc*f=nullptr; const DI*i=nullptr; };
static vector<Fiber>*fibers=nullptr; static int curFiber=-1; static ucontext_t fiberMain; static DFunc*fiberBody; static std::exception_ptr fiberExc; static vector<char*> stackPool; static const size_t FSTK=4u<<20;
static void fiberEntry(){ int me=curFiber; try { vector<Val> b{C(me)}; callFn(fiberBody,b,nullptr,-1); } catch(...) { fiberExc=std::current_exception(); } (*fibers)[me].done=true; swapcontext(&(*fibers)[me].c,&fiberMain); }
static DFunc*fnOf(const Val&v){ auto it=faddr.find(concretize(v)); if(it==faddr.end()) throw Unsupported{"fiber function"}; return it->second; }
X(n_fibers){ long n=concretize(a[0]); int back=(int)(concretize(a[3])&0xffffffff); DFunc*body=fnOf(a[1]),*pre=fnOf(a[2]); if(fibers) throw Unsupported{"nested fibers"};
    vector<Fiber> fs(n); fibers=&fs; fiberBody=body; int d0=depth; DFunc*f0=curF; const DI*i0=curI; bool live=true;
    auto reset=[&]{ depth=d0; curF=f0; curI=i0; };
    for(int round=0;live;round++){ live=false; for(long q=0;q<n;q++){ long j=back?n-1-q:q; Fiber&x=fs[j]; if(x.done) continue;
        { vector<Val> b{C(j)}; callFn(pre,b,nullptr,-1); } curFiber=j;
        if(!round){ if(stackPool.empty()) stackPool.push_back((char*)mmap(nullptr,FSTK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0)); x.stk=stackPool.back(); stackPool.pop_back(); getcontext(&x.c); x.c.uc_stack.ss_sp=x.stk; x.c.uc_stack.ss_size=FSTK; x.c.uc_link=nullptr; makecontext(&x.c,fiberEntry,0); x.depth=depth; x.f=curF; x.i=curI; }
        depth=x.depth; curF=x.f; curI=x.i; swapcontext(&fiberMain,&x.c); x.depth=depth; x.f=curF; x.i=curI; curFiber=-1; reset(); if(x.done) stackPool.push_back(x.stk); else live=true;
        if(fiberExc){ fibers=nullptr; auto e=fiberExc; fiberExc=nullptr; std::rethrow_exception(e); } } }
    fibers=nullptr; return Val(); }
X(n_fiber_yield){ if(!fibers||curFiber<0) throw Unsupported{"yield outside of a fiber"}; int me=curFiber; swapcontext(&(*fibers)[me].c,&fiberMain); curFiber=me; return Val(); }
X(n_symbolic){ return C(1); }
X(n_errsmall){ // max over |delta|<=1 of first-order error coefficient of each input monomial <= bound
    PP c=asF(a[0]),e=asF(a[1]),bd=asF(a[2]); string msg=cstr(concretize(a[3])); SH->checks++; if(c->kind!=P_POLY){ fail(msg); return C(0); } if(e->kind!=P_POLY) e=pfilter(c,[](int m){return deltas(m)==0;}); PP err=pfilter(psub(c,e),[](int m){return deltas(m)<2;}); std::map<string,vector<std::pair<int,mpq_class>>> by; bool exactOk=true;
    for(auto&x:err->t){ string k; int dl=-1; for(auto&f:mono(x.first).f){ if(deltaAtoms.count(f.first)) dl=f.first; else k+=std::to_string(f.first)+"^"+std::to_string(f.second.n)+" "; } if(dl<0) exactOk=false; else by[k].push_back({dl,x.second}); }
    if(!exactOk){ fail(msg+" (zeroth order mismatch)"); return C(0); }
    SH->checksSolver++; z3::solver s(*Z); z3::expr_vector ors(*Z); std::set<int> ds; for(auto&b:by){ z3::expr sum=Z->real_val(0); for(auto&t:b.second){ z3::expr dv=Z->real_const(("d"+std::to_string(t.first)).c_str()); if(ds.insert(t.first).second){ s.add(dv<=1); s.add(dv>=-1);} sum=sum+Z->real_val(t.second.get_str().c_str())*dv; } ors.push_back(sum>Z->real_val(bd->cval().get_str().c_str())); }
    if(ors.empty()) return C(1); s.add(z3::mk_or(ors)); auto r=query(s); if(r==z3::unsat) return C(1); fail(msg); return C(0); }
static void initExt(){
    auto&T=extTab; for(auto n:{"_Znwm","_Znam","malloc","_ZnwmSt11align_val_t"}) T[n]=x_new; for(auto n:{"_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","free","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) T[n]=x_del; T["calloc"]=x_calloc; T["realloc"]=x_realloc;
    T["memcpy"]=T["memmove"]=x_memcpy; T["memset"]=x_memset; T["strlen"]=x_strlen; T["strcmp"]=x_strcmp; T["memcmp"]=T["bcmp"]=x_memcmp;
    for(auto n:{"__cxa_atexit","atexit","getenv","pthread_mutex_lock","pthread_mutex_unlock","printf","fprintf","puts","fflush","putchar","fputs","fwrite","__cxa_free_exception","snprintf","usleep","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","_ZNSt13runtime_errorD1Ev","_ZNSt13runtime_errorD2Ev","_ZNSt11logic_errorD1Ev","_ZNSt12out_of_rangeD1Ev","_ZNSt16invalid_argumentD1Ev","_ZNSt9exceptionD2Ev","_ZNSt9exceptionD1Ev","sched_yield","fputc"}) T[n]=x_nop0;
    T["__cxa_guard_acquire"]=x_guard; T["__cxa_guard_release"]=x_guardrel; for(auto n:{"abort","_ZSt9terminatev","__cxa_pure_virtual","__assert_fail","__cxa_call_unexpected","_ZSt21__glibcxx_assert_failPKciS0_S0_"}) T[n]=x_abort; T["exit"]=T["_exit"]=x_exit;
    T["__cxa_allocate_exception"]=x_allocexc; T["__cxa_throw"]=x_throw; T["__cxa_begin_catch"]=x_begincatch; T["__cxa_end_catch"]=x_endcatch; T["__cxa_rethrow"]=x_rethrow; T["__cxa_get_exception_ptr"]=x_arg0;
    T["_ZSt20__throw_length_errorPKc"]=x_lenerr; T["_ZSt19__throw_logic_errorPKc"]=x_logic; T["_ZSt24__throw_out_of_range_fmtPKcz"]=T["_ZSt20__throw_out_of_rangePKc"]=x_oor; T["_ZSt17__throw_bad_allocv"]=T["_ZSt28__throw_bad_array_new_lengthv"]=x_badalloc; T["_ZSt25__throw_bad_function_callv"]=x_badfn; T["_ZSt20__throw_bad_weak_ptrv"]=x_logic;
    for(auto n:{"_ZNSt13runtime_errorC1EPKc","_ZNSt13runtime_errorC2EPKc","_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt11logic_errorC1EPKc","_ZNSt12out_of_rangeC1EPKc","_ZNSt16invalid_argumentC1EPKc","_ZNSt13runtime_errorC1ERKS_","_ZNSt12length_errorC1EPKc","_ZNSt12domain_errorC1EPKc"}) T[n]=x_excctor; T["_ZNKSt13runtime_error4whatEv"]=T["_ZNKSt9exception4whatEv"]=T["_ZNKSt11logic_error4whatEv"]=x_what;
#define MF(k,n) T[n]=x_math<k>; T[string(n)+"f"]=x_math<k>;
    MF(0,"exp") MF(1,"log") MF(2,"sqrt") MF(3,"erf") MF(4,"erfc") MF(5,"tanh") MF(6,"pow") MF(7,"fabs") MF(8,"fmax") MF(9,"fmin") MF(10,"hypot") MF(11,"sin") MF(12,"cos") MF(13,"expm1") MF(14,"log1p") MF(15,"exp2") T["fma"]=T["fmaf"]=x_fma;
    T["_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"]=x_rbinsert; T["_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"]=T["_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"]=x_rbinc; T["_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base"]=T["_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"]=x_rbdec; T["_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"]=x_rberase;
    T["starpu_task_insert"]=x_task_insert; T["starpu_task_build"]=x_task_build;
    T["nsym_real"]=n_real; T["nsym_pos"]=n_pos; T["nsym_real_in"]=n_realin; T["nsym_int"]=n_int; T["nsym_pick"]=n_pick; T["nsym_concrete"]=n_concrete; T["nsym_assume"]=n_assume; T["nsym_check"]=n_check; T["nsym_eq"]=n_eq; T["nsym_eq32"]=n_eq; T["nsym_reach"]=n_reach; T["nsym_fail"]=n_fail; T["nsym_note"]=n_note; T["nsym_garbage"]=n_garbage; T["nsym_memsame"]=n_memsame; T["nsym_mode"]=n_mode; T["nsym_isfinite"]=n_isfinite; T["nsym_symbolic"]=n_symbolic; T["nsym_fibers"]=n_fibers; T["nsym_fiber_yield"]=n_fiber_yield; T["nsym_err_small"]=n_errsmall; }
static ExtFn findExt(const string&n){ auto it=extTab.find(n); if(it!=extTab.end()) return it->second; auto*f=M->getFunction(n); bool decl=!f||f->isDeclaration(); auto pre=[&](const char*p){return n.compare(0,strlen(p),p)==0;};
    if(pre("_ZNSo")||pre("_ZStls")||pre("_ZSt4endl")||pre("_ZNKSt9basic_ios")||pre("_ZNSt9basic_ios")||pre("_ZSt16__ostream_insert")||pre("_ZSt5flush")||pre("_ZNSt8ios_base")||pre("_ZNSt6locale")||pre("_ZNKSt5ctype")||pre("_ZNKSt6locale")||pre("_ZSt9use_facet")) return x_arg0; (void)decl; return nullptr; }
// ---------------------------------------------------------------- main
static void runPath(DFunc*entry){
    try { vector<Val> a; exec(entry,a); if(unwinding){ fail("uncaught exception of type "+demangle(excType.size()>4?"_Z"+excType.substr(4):excType)+" (escaped the harness)"); flushPending(); finish(0);} flushPending(); finish(0); }
    catch(Unsupported&u){ logLine("{\"k\":\"unsupported\",\"msg\":"+jstr(u.msg)+",\"loc\":"+jstr(curLoc())+",\"picks\":"+picksJson()+"}"); try { pending.clear(); vector<NEnv> envs; for(auto&m:models){ envs.push_back(m); if(envs.size()>2) break; } if(!envs.empty()) emitCand("unsupported path: "+u.msg,envs,""); } catch(...){} finish(3); }
    catch(z3::exception&e){ logLine("{\"k\":\"unsupported\",\"msg\":"+jstr(string("z3: ")+e.msg())+"}"); finish(3); } }
static int mainReal(int argc,char**argv){
    string bc,entry="harness_main",log; int jobs=8; double tmo=300;
    for(int i=1;i<argc;i++){ string s=argv[i]; auto nx=[&]{return string(argv[++i]);}; if(s=="--entry") entry=nx(); else if(s=="--log") log=nx(); else if(s=="--jobs") jobs=atoi(nx().c_str()); else if(s=="--time") tmo=atof(nx().c_str()); else if(s=="--paths") pathLimit=atol(nx().c_str()); else if(s=="--steps") stepLimit=atol(nx().c_str()); else if(s=="--rlimit") RL=atol(nx().c_str()); else if(s=="--seed") seed=atoi(nx().c_str()); else bc=s; }
    rng.seed(1000+seed); harnessEntry=entry;
    SMDiagnostic err; M=parseIRFile(bc,err,LC); if(!M){ err.print("nsym",errs()); return 2; } DL=&M->getDataLayout();
    if(mmap((void*)ABASE,ASIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED||mmap((void*)SBASE,ASIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED){ perror("mmap"); return 2; }
    SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)SH,0,sizeof(Shared)); SH->tokens=jobs-1; SH->deadline=now()+tmo; SH->paths=1;
    logfd=open(log.empty()?"/dev/stdout":log.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); signal(SIGALRM,onAlarm);
    initExt(); Z=new z3::context; ZT=new Z3T(*Z); pcs=new z3::solver(*Z); z3::params p(*Z); p.set("rlimit",RL); pcs->set(p);
    for(int i=0;i<10;i++) models.push_back(NEnv());
    try { for(auto&g:M->globals()) if(!g.getName().starts_with("llvm.")) globAddr(&g);
        if(auto*gc=M->getGlobalVariable("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&o:ca->operands()){ auto*f=dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)); if(f&&!f->isDeclaration()){ vector<Val> a; exec(dfOf(f),a); } } }
    catch(Unsupported&u){ logLine("{\"k\":\"unsupported\",\"msg\":"+jstr("init: "+u.msg)+"}"); return 2; }
    memset((void*)SH->fn,0,sizeof SH->fn); auto*ef=M->getFunction(entry); if(!ef||ef->isDeclaration()){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 2; }
    for(auto&f:*M) dfOf(&f);
    pid_t c=fork(); if(c==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); ownToken=true; runPath(dfOf(ef)); _exit(0); }
    int st; waitpid(c,&st,0); if(WIFSIGNALED(st)) SH->errs++;
    string fl; int nf=0; for(auto*d:fnById) if(d->id<(1<<16)&&SH->fn[d->id]){ string n=d->f->getName().str(); if(n.find("nntile")!=string::npos){ string dm=demangle(n); auto q=dm.find('('); if(q!=string::npos&&dm.compare(0,5,"void ")!=0) dm=dm.substr(0,q); else if(q!=string::npos) dm=dm.substr(5,q-5); if(nf++) fl+=","; fl+=jstr(dm); } }
    char b[2048]; snprintf(b,2048,"{\"k\":\"summary\",\"paths\":%ld,\"completed\":%ld,\"killed\":%ld,\"truncated\":%ld,\"unsupported\":%ld,\"instr\":%ld,\"queries\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,\"checks\":%ld,\"checks_syntactic\":%ld,\"checks_solver\":%ld,\"checks_unknown\":%ld,\"checks_z3\":%ld,\"candidates\":%ld,\"forks\":%ld,\"errs\":%ld,\"obligations\":%ld,\"functions\":[",SH->paths.load(),SH->completed.load(),SH->killed.load(),SH->truncated.load(),SH->unsupported.load(),SH->instr.load(),SH->queries.load(),SH->unknown.load(),SH->solverUs.load()/1e6,SH->checks.load(),SH->checksSynt.load(),SH->checksSolver.load(),SH->checksUnknown.load(),SH->checksConf.load(),SH->candidates.load(),SH->forks.load(),SH->errs.load(),SH->obligations.load());
    logLine(string(b)+fl+"]}"); return 0; }
int main(int argc,char**argv){ // large stack for the recursive interpreter
    if(!getenv("NSYM_STACK")){ struct rlimit r; getrlimit(RLIMIT_STACK,&r); r.rlim_cur= r.rlim_max==RLIM_INFINITY?(1ul<<30):r.rlim_max; setrlimit(RLIMIT_STACK,&r); setenv("NSYM_STACK","1",1); execv("/proc/self/exe",argv); }
    return mainReal(argc,argv); }

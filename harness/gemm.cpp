// C09: matrix multiplication of virtually reshaped tensors
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
// group of dimensions, {size,base} pairs; index into D
static Cfg grp(const char*nm,int n,const int (*D)[4]){ int k=(int)nsym_pick(nm,n); Cfg c; for(int i=0;i<4&&D[k][i];i+=2) c=c+dim(D[k][i],D[k][i+1]); return c; }
SCENARIO(gemm){
    static const int M[][4]={{3,2},{0},{2,1,2,2},{4,2},{1,1}},N[][4]={{3,2},{0},{2,2},{2,1,2,1},{5,3}},K[][4]={{3,2},{2,1,2,2},{2,2},{1,1},{5,2},{0}},Bt[][4]={{0},{2,1},{3,2},{1,1,2,1}};
    int q= MODE==SEQ?1:0; Cfg m,n,k,b; static int ct=0; (void)ct;
    m=grp("m",DEEP?5:q?3:2,M); n=grp("n",DEEP?5:q?3:1,N); k=grp("k",DEEP?(L==0?6:5):q?2:MODE==SCHED||MODE==REDUX?1:2,K); b=grp("b",DEEP?4:q?3:2,Bt); if(!DEEP&&prod(m.shape)*prod(n.shape)*prod(k.shape)*prod(b.shape)>60) nsym_assume(false); if(DEEP&&prod(m.shape)*prod(n.shape)*prod(k.shape)*prod(b.shape)>160) nsym_assume(false);
    int ta=(int)nsym_pick("ta",2),tb=(int)nsym_pick("tb",2); TransOp TA(ta?TransOp::Trans:TransOp::NoTrans),TB(tb?TransOp::Trans:TransOp::NoTrans);
    Cfg ac=(ta?k+m:m+k)+b,bc=(tb?n+k:k+n)+b,cc=m+n+b; TH<T,L> A(ac),B(bc),Cc(cc); Index nd=k.shape.size(),bd=b.shape.size(); Index nda=arg(nd,nd,nd),bda=arg(bd,bd,bd);
    auto&x=A.sym("a"),&y=B.sym("b"); int co=(int)nsym_pick("coef",4); T al=S<T>("alpha"),be= co==0?S<T>("beta"):T(co==1?0:1); if(co==3) al=T(0); bool init= co!=1||nsym_pick("cinit",2)==0; VD z(Cc.n(),0.); if(init) z=Cc.sym("c"); Cc.redux_add();
    if constexpr(L==0) INVOKE( if(nsym_async()) tensor::gemm_async<T,T>(al,TA,A(),TB,B(),be,Cc(),nda,bda,redux()); else tensor::gemm<T,T>(al,TA,A(),TB,B(),be,Cc(),nda,bda,redux()) );
    else INVOKE( if(nsym_async()) tile::gemm_async<T,T>(al,TA,A(),TB,B(),be,Cc(),nda,bda); else tile::gemm<T,T>(al,TA,A(),TB,B(),be,Cc(),nda,bda) );
    Index nm=prod(m.shape),nn=prod(n.shape),nk=prod(k.shape),nb=prod(b.shape); VD e(nm*nn*nb);
    for(Index ib=0;ib<nb;ib++) for(Index j=0;j<nn;j++) for(Index i=0;i<nm;i++){ double s=0; for(Index l=0;l<nk;l++) s+=x[(ta?l+nk*i:i+nm*l)+nm*nk*ib]*y[(tb?j+nn*l:l+nk*j)+nn*nk*ib]; Index o=i+nm*(j+nn*ib); e[o]=al*s+be*z[o]; }
    Cc.expect(e,"gemm: C = alpha*op(A)*op(B)+beta*C"); A.same("gemm: A unchanged"); B.same("gemm: B unchanged"); }

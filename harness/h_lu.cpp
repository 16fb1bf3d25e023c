// eliminations and rank profiles: C07, C08
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#ifdef VCAPI
#include "capi.hpp"
#endif
using namespace vh; using namespace FFLAS; using namespace FFPACK;
typedef Ctx<VField> C; typedef C::E E;
#define UL(b) ((b)?FflasUpper:FflasLower)
#define TR(b) ((b)?FflasTrans:FflasNoTrans)
#define DG(b) ((b)?FflasUnit:FflasNonUnit)
template<class T> S jseq(const T* a,size_t n){ S o="["; for(size_t i=0;i<n;i++){ if(i)o+=","; put(o,a[i]>2000000000ull?2147483647L:(long)a[i]); } return o+"]"; }
S jel(C& x,VField::ConstElement_ptr a,size_t n){ S o="["; for(size_t i=0;i<n;i++){ if(i)o+=","; putE<E>(o,a[i],x.wide); } return o+"]"; }
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"); size_t mis=c.i("mis",0);
    bool row=c.b("row"), unit=c.b("unit"), tile=c.b("tile"), up=c.b("up"), only=c.b("only");
    size_t m=c.i("m"), n=c.i("nn"), lda=n+c.i("la"); if(!lda)lda=1;
    Buf<C> A(x,m*lda,mis); IM M0=genMat(x,m,n,c.s("kind"),c.s("d")); put(A,M0,lda);
    FFPACK_LU_TAG tag=tile?FfpackTileRecursive:FfpackSlabRecursive;
    Ev<C> e(x,op); e.a("m",m).a("n",n).a("row",row).a("ta",row).a("unit",unit).o("A","A",A.off,lda).buf("A",A);
    size_t bc=c.i("bc",0);
    if (op=="pluq") { IBuf P(m),Q(n); e.a("reveal",true).o("P","P",P.off,1).o("Q","Q",Q.off,1).buf("P",P).buf("Q",Q); e.begin(); size_t r;
        if (bc==0) r=PLUQ(F,DG(unit),m,n,A.p(),lda,P.p(),Q.p());
        else { ParSeqHelper::Sequential s; r=PLUQ(F,DG(unit),m,n,A.p(),lda,P.p(),Q.p(),s,bc); }
        e.endN(r); }
    else if (op=="ludivine") { size_t lp=row?m:n, lq=row?n:m; IBuf P(lp),Q(lq); e.o("P","P",P.off,1).o("Q","Q",Q.off,1).buf("P",P).buf("Q",Q); e.begin(); size_t r;
        if (bc==0) r=LUdivine(F,DG(unit),TR(row),m,n,A.p(),lda,P.p(),Q.p()); else r=LUdivine(F,DG(unit),TR(row),m,n,A.p(),lda,P.p(),Q.p(),FfpackSlabRecursive,bc);
        e.endN(r); }
    else if (op=="gettri") { size_t r=std::min(m,n); r=r?x.g.below(r+1):0; bool inpl=c.b("inpl"); size_t ldt=n+c.i("lb"); if(!ldt)ldt=1; Buf<C> T(x,m*ldt,0); T.fill(m,n,ldt,"rand");
        e.a("r",r).a("up",up).a("only",only).a("inpl",inpl).o("T",inpl?"A":"T",inpl?A.off:T.off,inpl?lda:ldt).buf("T",T); e.begin();
        if (inpl) getTriangular(F,UL(up),DG(unit),m,n,r,A.p(),lda); else getTriangular(F,UL(up),DG(unit),m,n,r,A.p(),lda,T.p(),ldt,only); e.end(); }
    else if (op=="lqupinv") { std::vector<size_t> P(n+1),Q(m+1); S orig="["; bool f=true; for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ if(!f)orig+=","; f=false; putE<E>(orig,A.p()[i*lda+j],x.wide);} orig+="]";
        size_t r=LUdivine(F,FflasNonUnit,FflasNoTrans,m,n,A.p(),lda,P.data(),Q.data()); size_t ldx=r+c.i("lb"); if(!ldx)ldx=1; Buf<C> X(x,r*ldx,0);
        e.a("r",r).raw("orig",orig).raw("P",jseq(P.data(),r)).o("X","X",X.off,ldx).buf("X",X); e.begin(); LQUPtoInverseOfFullRankMinor(F,r,A.p(),lda,Q.data(),X.p(),ldx); e.end(); }
    else if (op=="rankprofile") { e.begin(); size_t* rp=0; size_t r= row? RowRankProfile(F,m,n,A.p(),lda,rp,tag): ColumnRankProfile(F,m,n,A.p(),lda,rp,tag);
        e.end("{\"rank\":"+std::to_string(r)+",\"rp\":"+jseq(rp,r)+"}"); fflas_delete(rp); }
    else if (op=="leadingprofiles") { std::vector<size_t> P(m+1),Q(n+1); e.begin(); size_t r=PLUQ(F,DG(unit),m,n,A.p(),lda,P.data(),Q.data());
        S ls="["; for(int t=0;t<6;t++) { size_t a=x.g.below(m+1), b=x.g.below(n+1); if(t==0){a=m;b=n;} std::vector<size_t> rr(r+1),cc(r+1); size_t l=LeadingSubmatrixRankProfiles(m,n,r,a,b,P.data(),Q.data(),rr.data(),cc.data());
            if(t)ls+=","; ls+="{\"m\":"+std::to_string(a)+",\"n\":"+std::to_string(b)+",\"rank\":"+std::to_string(l)+",\"rrp\":"+jseq(rr.data(),l)+",\"crp\":"+jseq(cc.data(),l)+"}"; }
        e.end("{\"rank\":"+std::to_string(r)+",\"ls\":"+ls+"]}"); }
    else if (op=="rpsubidx") { e.begin(); size_t *ri=0,*ci=0; size_t R=0; size_t r= row?RowRankProfileSubmatrixIndices(F,m,n,A.p(),lda,ri,ci,R):ColRankProfileSubmatrixIndices(F,m,n,A.p(),lda,ri,ci,R);
        if (r!=R) r=999999; e.end("{\"rank\":"+std::to_string(r)+",\"rows\":"+jseq(ri,R)+",\"cols\":"+jseq(ci,R)+"}"); fflas_delete(ri); fflas_delete(ci); }
    else if (op=="rpsub") { e.begin(); VField::Element_ptr X=0; size_t R=0; size_t r= row?RowRankProfileSubmatrix(F,m,n,A.p(),lda,X,R):ColRankProfileSubmatrix(F,m,n,A.p(),lda,X,R);
        if (r!=R) r=999999; e.end("{\"rank\":"+std::to_string(r)+",\"X\":"+jel(x,X,R*R)+"}"); fflas_delete(X); }
}

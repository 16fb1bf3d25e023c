// generators of random matrices with prescribed structure: C22
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#include "fflas-ffpack/utils/fflas_randommatrix.h"
using namespace vh; using namespace FFLAS; using namespace FFPACK;
typedef Ctx<VField> C; typedef C::E E;
#define UL(b) ((b)?FflasUpper:FflasLower)
#define DG(b) ((b)?FflasUnit:FflasNonUnit)
static S jseq(const size_t* a,size_t n){ S o="["; for(size_t i=0;i<n;i++){ if(i)o+=","; put(o,a[i]>2000000000ull?2147483647L:(long)a[i]); } return o+"]"; }
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"), kind=c.s("kind"); bool up=c.b("up"), unit=c.b("unit"), ns=c.b("ns");
    size_t m=c.i("m"), n=c.i("nn"), lda=n+c.i("la"); if(!lda)lda=1; size_t mn=std::min(m,n);
    VField::RandIter G(F,(uint64_t)(c.i("n")*31+c.i("seed")*7+1)); srand((unsigned)(c.i("n")*17+c.i("seed")));
    size_t r= c.i("rc")==0?0: c.i("rc")==1?mn: x.g.below(mn+1);
    Ev<C> e(x,op); e.a("kind",kind).a("m",m).a("n",n).a("up",up).a("unit",unit).a("ns",ns);
    if (op=="randidx") {
        IBuf P(std::max(m,n)),Q(std::max(m,n)); e.o("P","P",P.off,1).o("Q","Q",Q.off,1).buf("P",P).buf("Q",Q); size_t t=0;
        if (kind=="subset") { e.a("r",r).a("t",t); e.begin(); RandomIndexSubset(n,r,P.p()); }
        else if (kind=="perm") { e.a("r",n).a("t",t); e.begin(); RandomPermutation(n,P.p()); }
        else if (kind=="rpm") { e.a("r",r).a("t",t); e.begin(); RandomRankProfileMatrix(m,n,r,P.p(),Q.p()); }
        else if (kind=="symrpm") { r= c.i("rc")==1?n:x.g.below(n+1); e.a("r",r).a("t",t); e.begin(); RandomSymmetricRankProfileMatrix(n,r,P.p(),Q.p()); }
        else { if (n<2) n=2; r=1+x.g.below(n-1); size_t tm=std::min(r,n-r); t=1+x.g.below(tm); e.a("r",r).a("t",t).a("nq",n); e.begin(); RandomLTQSRankProfileMatrix(n,r,t,P.p(),Q.p()); }
        e.end(); return; }
    bool sq = kind=="sym"||kind=="symrpm"||kind=="symrpmr"||kind=="det"||kind=="ltqs"; if (sq) m=n;
    Buf<C> A(x,m*lda,c.i("mis",0)); for(size_t i=0;i<m*lda;i++) A.set(i,x.gen("rand")); std::vector<size_t> rr(n+m+1),cc(n+m+1); E d=x.scal(c.s("sc")); size_t t=0;
    if (kind=="rpm") RandomRankProfileMatrix(m,n,r,rr.data(),cc.data());
    if (kind=="rpm") { std::vector<size_t> a=rperm(x.g,m), b=rperm(x.g,n); for(size_t i=0;i<r;i++){ rr[i]=a[i]; cc[i]=b[i]; } }
    if (kind=="symrpm") { std::vector<size_t> a=rperm(x.g,n); r= c.i("rc")==1?n:x.g.below(n+1); size_t i=0; while(i<r){ if (i+1<r&&x.g.below(2)) { rr[i]=a[i]; cc[i]=a[i+1]; rr[i+1]=a[i+1]; cc[i+1]=a[i]; i+=2; } else { rr[i]=cc[i]=a[i]; i++; } } }
    if (kind=="symrpmr") r= c.i("rc")==1?n:x.g.below(n+1);
    if (kind=="ltqs") { r=1+x.g.below(n-1); t=1+x.g.below(std::min(r,n-r)); }
    e.a("sm",m).a("r",r).a("t",t).raw("rr",jseq(rr.data(),r)).raw("cc",jseq(cc.data(),r)).e("d",d).o("A","A",A.off,lda).buf("A",A); e.begin();
    bool dflt=c.b("dflt");
    if (kind=="rand") { if (dflt) RandomMatrix(F,m,n,A.p(),lda); else RandomMatrix(F,m,n,A.p(),lda,G); }
    else if (kind=="nonzero") NonZeroRandomMatrix(F,m,n,A.p(),lda,G);
    else if (kind=="tri") RandomTriangularMatrix(F,m,n,UL(up),DG(unit),ns,A.p(),lda,G);
    else if (kind=="sym") RandomSymmetricMatrix(F,n,ns,A.p(),lda,G);
    else if (kind=="rank") RandomMatrixWithRank(F,m,n,r,A.p(),lda,G);
    else if (kind=="rpm") RandomMatrixWithRankandRPM(F,m,n,r,A.p(),lda,rr.data(),cc.data(),G);
    else if (kind=="rpmr") RandomMatrixWithRankandRandomRPM(F,m,n,r,A.p(),lda,G);
    else if (kind=="symrpm") RandomSymmetricMatrixWithRankandRPM(F,n,r,A.p(),lda,rr.data(),cc.data(),G);
    else if (kind=="symrpmr") RandomSymmetricMatrixWithRankandRandomRPM(F,n,r,A.p(),lda,G);
    else if (kind=="det") RandomMatrixWithDet(F,n,d,A.p(),lda,G);
    else if (kind=="ltqs") RandomLTQSMatrixWithRankandQSorder(F,n,r,t,A.p(),lda,G);
    e.end();
}

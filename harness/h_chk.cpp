// result certificates: C21
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#include "fflas-ffpack/checkers/checkers_fflas.h"
#include "fflas-ffpack/checkers/checkers_ffpack.h"
#include "fflas-ffpack/checkers/checkers_fflas.inl"
#include "fflas-ffpack/checkers/checkers_ffpack.inl"
using namespace vh; using namespace FFLAS; using namespace FFPACK;
typedef Ctx<VField> C; typedef C::E E; typedef VField::RandIter RI;
#define UL(b) ((b)?FflasUpper:FflasLower)
#define TR(b) ((b)?FflasTrans:FflasNoTrans)
#define DG(b) ((b)?FflasUnit:FflasNonUnit)
#define SD(b) ((b)?FflasLeft:FflasRight)
// a claimed result: the correct one, corrupted in some way
static void corrupt(C& x,E* X,size_t m,size_t n,size_t ld,const S& k){ if (!m||!n||k=="none") return; VField& F=x.F; auto at=[&](size_t i,size_t j)->E&{ return X[i*ld+j]; };
    size_t i=x.g.below(m), j=x.g.below(n); E d=x.scal("r");
    if (k=="last") { i=m-1; j=n-1; } if (k=="first") { i=j=0; }
    if (k=="row") { for(size_t q=0;q<n;q++) { E t=x.scal("r"); F.addin(at(i,q),t); } return; }
    if (k=="col") { for(size_t q=0;q<m;q++) { E t=x.scal("r"); F.addin(at(q,j),t); } return; }
    if (k=="swap") { size_t i2=x.g.below(m); for(size_t q=0;q<n;q++) std::swap(at(i,q),at(i2,q)); return; }
    if (k=="two") { size_t j2=x.g.below(n); F.addin(at(i,j),d); F.subin(at(i,j2),d); return; }
    if (k=="two2") { size_t i2=x.g.below(m); F.addin(at(i,j),d); F.subin(at(i2,j),d); return; }
    if (k=="neg") { for(size_t a=0;a<m;a++)for(size_t b=0;b<n;b++) F.negin(at(a,b)); return; }
    if (k=="zero") { for(size_t a=0;a<m;a++)for(size_t b=0;b<n;b++) F.assign(at(a,b),F.zero); return; }
    F.addin(at(i,j),d); }
template<class Fn> S trials(C& x,long seed,Fn fn){ S o="["; long T= x.p<1000?60:8; for(long t=0;t<T;t++){ RI G(x.F,(uint64_t)(seed*1000+t+1)); bool ok; 
        try { ok=fn(G); } catch (FailureFgemmCheck&) { ok=false; } catch (FailureTrsmCheck&) { ok=false; } catch (FailureInvertCheck&) { ok=false; } catch (FailurePLUQCheck&) { ok=false; } catch (FailureDetCheck&) { ok=false; } catch (FailureCharpolyCheck&) { ok=false; }
        if(t)o+=","; o+=ok?"true":"false"; } return o+"]"; }
void runCase(const Case& c){ C x(c,VTNAME); VField& F=x.F; S k=c.s("kind0"), cor=c.s("cor"); size_t mis=c.i("mis"); bool ta=c.b("ta"), tb=c.b("tb"), left=c.b("left"), up=c.b("up"), unit=c.b("unit");
    size_t m=c.i("m"), n=c.i("nn"), kk=c.i("k"); long seed=c.i("n")+7*c.i("seed"); E al=x.scal(c.s("al")), be=x.scal(c.s("be"));
    Ev<C> e(x,"chk"); e.a("kind",k).a("ta",ta).a("tb",tb).a("left",left).a("up",up).a("unit",unit).e("al",al).e("be",be);
    if (k=="gemm") { size_t ar=ta?kk:m, ac=ta?m:kk, br=tb?n:kk, bc=tb?kk:n, lda=ac+c.i("la"), ldb=bc+c.i("lb"), ldc=n+c.i("lc"); if(!lda)lda=1; if(!ldb)ldb=1; if(!ldc)ldc=1;
        Buf<C> A(x,ar*lda,mis),B(x,br*ldb),D(x,m*ldc),X(x,m*ldc); A.fill(ar,ac,lda,c.s("d")); B.fill(br,bc,ldb,c.s("d")); D.fill(m,n,ldc,c.s("d")); for(size_t i=0;i<m*ldc;i++) X.p()[i]=D.p()[i];
        fgemm(F,TR(ta),TR(tb),m,n,kk,al,A.p(),lda,B.p(),ldb,be,X.p(),ldc); corrupt(x,X.p(),m,n,ldc,cor);
        e.a("m",m).a("n",n).a("k",kk).o("A","A",A.off,lda).o("B","B",B.off,ldb).o("C","C",D.off,ldc).o("X","X",X.off,ldc).buf("A",A).buf("B",B).buf("C",D).buf("X",X); e.begin();
        e.end(trials(x,seed,[&](RI& G){ ForceCheck_fgemm<VField> ck(G,m,n,kk,be,D.p(),ldc); return ck.check(TR(ta),TR(tb),al,A.p(),lda,B.p(),ldb,X.p()); })); }
    else if (k=="trsm") { size_t na=left?m:n, lda=na+c.i("la"), ldb=n+c.i("lb"), ldx=n+c.i("lc"); if(!lda)lda=1; if(!ldb)ldb=1; if(!ldx)ldx=1; Buf<C> A(x,na*lda,mis),B(x,m*ldb),X(x,m*ldx); A.fill(na,na,lda,c.s("d")); for(size_t i=0;i<na;i++) A.p()[i*lda+i]=x.scal("r"); B.fill(m,n,ldb,c.s("d")); if (F.isZero(al)) F.assign(al,F.one);
        for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) X.p()[i*ldx+j]=B.p()[i*ldb+j]; ftrsm(F,SD(left),UL(up),TR(ta),DG(unit),m,n,al,A.p(),lda,X.p(),ldx); corrupt(x,X.p(),m,n,ldx,cor);
        Ev<C> f(x,"chk"); f.a("kind",k).a("ta",ta).a("left",left).a("up",up).a("unit",unit).e("al",al).a("m",m).a("n",n).o("A","A",A.off,lda).o("B","B",B.off,ldb).o("X","X",X.off,ldx).buf("A",A).buf("B",B).buf("X",X); f.begin();
        f.end(trials(x,seed,[&](RI& G){ ForceCheck_ftrsm<VField> ck(G,m,n,al,B.p(),ldb); return ck.check(SD(left),UL(up),TR(ta),DG(unit),m,n,A.p(),lda,X.p(),ldx); })); }
    else if (k=="inv") { size_t lda=m+c.i("la"); if(!lda)lda=1; Buf<C> A(x,m*lda,mis),X(x,m*lda); put(A,genMat(x,m,m,c.s("kind"),c.s("d")),lda); for(size_t i=0;i<m*lda;i++) X.p()[i]=A.p()[i]; int nul=0; Invert(F,m,X.p(),lda,nul); if (nul==0) corrupt(x,X.p(),m,m,lda,cor);
        e.a("m",m).a("nul",nul).o("A","A",A.off,lda).o("X","X",X.off,lda).buf("A",A).buf("X",X); e.begin();
        e.end(trials(x,seed,[&](RI& G){ ForceCheck_invert<VField> ck(G,m,A.p(),lda); return ck.check(X.p(),nul); })); }
    else if (k=="pluq"||k=="det") { if (k=="det") { n=m; unit=false; } size_t lda=n+c.i("la"), ldx=n+c.i("lb"); if(!lda)lda=1; if(!ldx)ldx=1; Buf<C> A(x,m*lda,mis),X(x,m*ldx); IBuf P(m),Q(n); put(A,genMat(x,m,n,c.s("kind"),c.s("d")),lda); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) X.p()[i*ldx+j]=A.p()[i*lda+j];
        E det; F.init(det); F.assign(det,F.one); size_t r=0; for(size_t i=0;i<m;i++)P.p()[i]=i; for(size_t i=0;i<n;i++)Q.p()[i]=i; if (k=="det") { if (m) Det(F,det,m,X.p(),ldx,P.p(),Q.p()); } else r=PLUQ(F,DG(unit),m,n,X.p(),ldx,P.p(),Q.p());
        if (cor=="perm") { size_t i=x.g.below(m?m:1); if (m) P.p()[i]=i+x.g.below(m-i); } else if (cor=="perm2") { size_t i=x.g.below(n?n:1); if (n) Q.p()[i]=i+x.g.below(n-i); } else if (cor=="rank") { r= k=="det"?r: x.g.below(std::min(m,n)+1); } else if (cor=="det") { E d=x.scal("r"); F.addin(det,d); } else corrupt(x,X.p(),m,n,ldx,cor);
        e.a("m",m).a("n",n).a("r",r).e("det",det).o("A","A",A.off,lda).o("X","X",X.off,ldx).o("P","P",P.off,1).o("Q","Q",Q.off,1).buf("A",A).buf("X",X).buf("P",P).buf("Q",Q); e.begin();
        if (k=="det") e.end(trials(x,seed,[&](RI& G){ ForceCheck_Det<VField> ck(G,m,A.p(),lda); return ck.check(det,X.p(),ldx,P.p(),Q.p()); }));
        else e.end(trials(x,seed,[&](RI& G){ ForceCheck_PLUQ<VField> ck(G,m,n,A.p(),lda); return ck.check(X.p(),ldx,DG(unit),r,P.p(),Q.p()); })); }
    else if (k=="charpoly") { if(!m) m=1; size_t lda=m+c.i("la"); Buf<C> A(x,m*lda,mis),W(x,m*m+1); put(A,genMat(x,m,m,c.s("kind"),c.s("d")),lda); typedef Givaro::Poly1Dom<VField,Givaro::Dense> PD; PD R(F); PD::Element g(m+1); for(size_t i=0;i<m;i++)for(size_t j=0;j<m;j++) W.p()[i*m+j]=A.p()[i*lda+j]; CharPoly(R,g,m,W.p(),m); 
        corrupt(x,&g[0],1,g.size(),g.size(),cor); S gs="["; for(size_t i=0;i<g.size();i++){ if(i)gs+=","; putE<E>(gs,g[i],x.wide); } gs+="]";
        e.a("m",m).raw("g",gs).o("A","A",A.off,lda).buf("A",A); e.begin(); typedef PD::Element Pol;
        e.end(trials(x,seed,[&](RI& G){ ForceCheck_charpoly<VField,Pol> ck(G,m,A.p(),lda); return ck.check(g); })); }
}

// triangular level 3 and FFPACK triangular routines: C05
#define VH_MAIN
#include "vh.hpp"
#include "fflas-ffpack/ffpack/ffpack.h"
#ifdef VCAPI
#include "capi.hpp"
#endif
using namespace vh; using namespace FFLAS;
typedef Ctx<VField> C; typedef C::E E;
#define UL(b) ((b)?FflasUpper:FflasLower)
#define TR(b) ((b)?FflasTrans:FflasNoTrans)
#define DG(b) ((b)?FflasUnit:FflasNonUnit)
#define SD(b) ((b)?FflasLeft:FflasRight)
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"); size_t mis=c.i("mis",0);
    bool left=c.b("left"), up=c.b("up"), ta=c.b("ta"), unit=c.b("unit"), unitB=c.b("unitB");
    E al=x.scal(c.s("al")), be=x.scal(c.s("be"));
    size_t m=c.i("m"), n=c.i("nn");
    bool sq = op!="ftrsm" && op!="ftrmm" && op!="ftrmm3"; if (sq) m=n;
    size_t na=left?m:n, lda=na+c.i("la"), ldb=n+c.i("lb"), ldc=n+c.i("lc"); if(!lda)lda=1; if(!ldb)ldb=1; if(!ldc)ldc=1;
    Buf<C> A(x,na*lda,mis), B(x,m*ldb,c.i("mis2",0)), D(x,m*ldc,mis); A.fill(na,na,lda,c.s("dA")); B.fill(m,n,ldb,c.s("dB")); D.fill(m,n,ldc,"rand");
    if (!unit || (op=="ftrtrm")) for(size_t i=0;i<na;i++) A.p()[i*lda+i]=x.scal(c.s("dg","r"));
    Ev<C> e(x,op); e.a("left",left).a("up",up).a("ta",ta).a("unit",unit).a("unitB",unitB).a("m",m).a("n",n).e("alpha",al).e("beta",be).o("A","A",A.off,lda);
    if (op=="ftrsm") { e.o("B","B",B.off,ldb).buf("A",A).buf("B",B); e.begin(); 
        if (c.i("form",0)) ftrsm(F,SD(left),UL(up),TR(ta),DG(unit),m,n,al,A.p(),lda,B.p(),ldb,ParSeqHelper::Sequential());
        else ftrsm(F,SD(left),UL(up),TR(ta),DG(unit),m,n,al,A.p(),lda,B.p(),ldb); e.end(); }
    else if (op=="ftrmm") { e.o("B","B",B.off,ldb).buf("A",A).buf("B",B); e.begin(); ftrmm(F,SD(left),UL(up),TR(ta),DG(unit),m,n,al,A.p(),lda,B.p(),ldb); e.end(); }
    else if (op=="ftrmm3") { e.o("B","B",B.off,ldb).o("C","C",D.off,ldc).buf("A",A).buf("B",B).buf("C",D); e.begin(); ftrmm(F,SD(left),UL(up),TR(ta),DG(unit),m,n,al,A.p(),lda,B.p(),ldb,be,D.p(),ldc); e.end(); }
    else if (op=="ftrtri") { e.buf("A",A); e.begin(); if (c.i("th",0)) FFPACK::ftrtri(F,UL(up),DG(unit),n,A.p(),lda,c.i("th")); else FFPACK::ftrtri(F,UL(up),DG(unit),n,A.p(),lda); e.end(); }
    else if (op=="trinv_left") { e.o("B","B",B.off,ldb).buf("A",A).buf("B",B); e.begin(); FFPACK::trinv_left(F,n,A.p(),lda,B.p(),ldb); e.end(); }
    else if (op=="ftrtrm") { e.buf("A",A); e.begin(); FFPACK::ftrtrm(F,SD(left),DG(unit),n,A.p(),lda); e.end(); }
    else if (op=="ftrstr") { e.o("B","B",B.off,ldb).buf("A",A).buf("B",B); e.begin(); FFPACK::ftrstr(F,SD(left),UL(up),DG(unit),DG(unitB),n,A.p(),lda,B.p(),ldb,(size_t)(c.i("th",0)?c.i("th"):64)); e.end(); }
    else if (op=="ftrssyr2k") { e.o("B","B",B.off,ldb).buf("A",A).buf("B",B); e.begin(); FFPACK::ftrssyr2k(F,UL(up),DG(unit),n,A.p(),lda,B.p(),ldb,(size_t)(c.i("th",0)?c.i("th"):64)); e.end(); }
}

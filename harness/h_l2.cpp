// matrix-vector routines: C04
#define VH_MAIN
#include "vh.hpp"
#include "fflas-ffpack/ffpack/ffpack.h"
#ifdef VCAPI
#include "capi.hpp"
#endif
using namespace vh; using namespace FFLAS;
typedef Ctx<VField> C; typedef C::E E;
#if VT!=VT_ZD && VT!=VT_ZI && VT!=VT_Z64 && VT!=VT_ZF && VT!=VT_MR78
#define FIELDP 1
#endif
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"); size_t mis=c.i("mis",0);
    E al=x.scal(c.s("al")), be=x.scal(c.s("be"));
    if (op=="fgemv") {
        bool ta=c.b("ta"); size_t m=c.i("m"), n=c.i("nn"), lda=n+c.i("la"); if(!lda)lda=1; size_t ix=c.i("ix"), iy=c.i("iy"); size_t lx=ta?m:n, ly=ta?n:m;
        Buf<C> A(x,m*lda,mis), X(x,lx*ix,c.i("mis2",0)), Y(x,ly*iy,mis); A.fill(m,n,lda,c.s("dA")); X.fillv(lx,ix,c.s("dB")); Y.fillv(ly,iy,c.s("dC"));
        Ev<C> e(x,op); e.a("ta",ta).a("m",m).a("n",n).e("alpha",al).e("beta",be).o("A","A",A.off,lda).o("X","X",X.off,ix).o("Y","Y",Y.off,iy); e.buf("A",A).buf("X",X).buf("Y",Y); e.begin();
        bool ok=true;
#if VT==VT_ZD || VT==VT_ZF || VT==VT_MD || VT==VT_BD || VT==VT_MF || VT==VT_BF || VT==VT_M32 || VT==VT_M64
        if (c.i("form",0)) { ParSeqHelper::Sequential s; ok = fgemv(F,ta?FflasTrans:FflasNoTrans,m,n,al,A.p(),lda,X.p(),ix,be,Y.p(),iy,s)==Y.p(); } else
#endif
        ok = fgemv(F,ta?FflasTrans:FflasNoTrans,m,n,al,A.p(),lda,X.p(),ix,be,Y.p(),iy)==Y.p();
        e.endB(ok);
    } else if (op=="fger") {
        size_t m=c.i("m"), n=c.i("nn"), lda=n+c.i("la"); if(!lda)lda=1; size_t ix=c.i("ix"), iy=c.i("iy");
        Buf<C> A(x,m*lda,mis), X(x,m*ix,c.i("mis2",0)), Y(x,n*iy,mis); A.fill(m,n,lda,c.s("dC")); X.fillv(m,ix,c.s("dA")); Y.fillv(n,iy,c.s("dB"));
        Ev<C> e(x,op); e.a("m",m).a("n",n).e("alpha",al).o("A","A",A.off,lda).o("X","X",X.off,ix).o("Y","Y",Y.off,iy); e.buf("A",A).buf("X",X).buf("Y",Y); e.begin();
        fger(F,m,n,al,X.p(),ix,Y.p(),iy,A.p(),lda); e.end();
    }
#ifdef FIELDP
    else { // ftrsv ftrmv
        bool up=c.b("up"), ta=c.b("ta"), unit=c.b("unit"); size_t n=c.i("nn"), lda=n+c.i("la"), ix=c.i("ix"); if(!lda)lda=1;
        Buf<C> A(x,n*lda,mis), X(x,n*ix,c.i("mis2",0)); A.fill(n,n,lda,c.s("dA")); X.fillv(n,ix,c.s("dB"));
        if (!unit) for(size_t i=0;i<n;i++) A.p()[i*lda+i]=x.scal("r");
        Ev<C> e(x,op); e.a("up",up).a("ta",ta).a("unit",unit).a("n",n).o("A","A",A.off,lda).o("X","X",X.off,ix); e.buf("A",A).buf("X",X); e.begin();
        if (op=="ftrsv") ftrsv(F,up?FflasUpper:FflasLower,ta?FflasTrans:FflasNoTrans,unit?FflasUnit:FflasNonUnit,n,A.p(),lda,X.p(),(int)ix);
        else ftrmv(F,up?FflasUpper:FflasLower,ta?FflasTrans:FflasNoTrans,unit?FflasUnit:FflasNonUnit,n,A.p(),lda,X.p(),(int)ix);
        e.end();
    }
#endif
}

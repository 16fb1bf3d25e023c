// element-wise and data movement routines: C03
#define VH_MAIN
#include "vh.hpp"
#include "fflas-ffpack/fflas/fflas_transpose.h"
#ifdef VCAPI
#include "fflas-ffpack/ffpack/ffpack.h"
#include "capi.hpp"
#endif
using namespace vh; using namespace FFLAS;
typedef Ctx<VField> C; typedef C::E E;
#if VT==VT_MI || VT==VT_ZI || VT==VT_MR7 || VT==VT_MR78
#define BIGELT 1
#endif

template<class T> void initFrom(const Case& c,C& x){
    VField& F=x.F; bool vec=c.b("vec"); size_t m=c.i("m"), n=vec?1:c.i("nn"); size_t la=n+c.i("la"), lc=n+c.i("lc"); if(!la)la=1; if(!lc)lc=1;
    OBuf<C,T> A(x,m*la); Buf<C> B(x,m*lc,c.i("mis",0)); S d=c.s("dA");
    Integer lim = std::is_same<T,float>::value?Integer(1<<24):std::is_same<T,int32_t>::value?Integer(2147483647):std::is_same<T,double>::value?Integer(1)<<(uint64_t)53:Integer(1)<<(uint64_t)62;
    for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ Integer r=x.g.bits(1+x.g.below(lim.bitsize()-1)); if(d=="near"){ r=(lim/x.p-1); if(r<0)r=0; r=x.g.belowI(r+1)*x.p+Integer((int64_t)x.g.below(2)); } if(x.g.below(2)) r=-r; A.p()[i*la+j]=(T)(int64_t)r; }
    B.fill(m,n,lc,"rand");
    Ev<C> e(x,"freduce"); e.a("m",m).a("n",n).o("A","A",A.off,la).o("C","C",B.off,lc).a("from",c.s("from")); e.buf("A",A).buf("C",B); e.begin();
    const T* ap=A.p();
    if (vec) finit(F,m,ap,la,B.p(),lc); else finit(F,m,n,ap,la,B.p(),lc);
    e.end();
}
template<class T> void convTo(const Case& c,C& x){
    VField& F=x.F; bool vec=c.b("vec"); size_t m=c.i("m"), n=vec?1:c.i("nn"); size_t la=n+c.i("la"), lc=n+c.i("lc"); if(!la)la=1; if(!lc)lc=1;
    Buf<C> A(x,m*la); OBuf<C,T> B(x,m*lc); A.fill(m,n,la,c.s("dA"));
    Ev<C> e(x,"fassign"); e.a("m",m).a("n",n).o("A","A",A.off,la).o("C","C",B.off,lc).a("to",c.s("from")); e.buf("A",A).buf("C",B); e.begin();
    if (vec) fconvert(F,m,B.p(),lc,A.p(),la); else fconvert(F,m,n,B.p(),lc,A.p(),la);
    e.end();
}
template<bool> struct Conv { static void run(const Case& c,C& x){ S f=c.s("from"); bool in=c.s("op")=="finit";
    if (f=="d") in?initFrom<double>(c,x):convTo<double>(c,x); else if (f=="i32") in?initFrom<int32_t>(c,x):convTo<int64_t>(c,x);
    else if (f=="f") in?initFrom<float>(c,x):convTo<double>(c,x); else in?initFrom<int64_t>(c,x):convTo<int64_t>(c,x); } };

void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"); bool vec=c.b("vec"); size_t m=c.i("m"), n=vec?1:c.i("nn");
    size_t la=n+c.i("la"), lb=n+c.i("lb"), lc=n+c.i("lc"); if(!la)la=1; if(!lb)lb=1; if(!lc)lc=1;
    size_t mis=c.i("mis",0); S dA=c.s("dA"), dB=c.s("dB");
    if (op=="finit"||op=="fconvert") { Conv<true>::run(c,x); return; }
    E al=x.scal(c.s("al","1"));
    if (op=="freduce") {
        bool ip=c.i("ip"), tri=c.s("tri","")!=""; if (tri){ vec=false; n=m; la=n+c.i("la"); if(!la)la=1; ip=true; }
        Buf<C> A(x,m*la,mis), B(x,m*lc,mis);
        for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) { Integer r=x.genFull(dA); x.raw(A.p()[i*la+j],r); }
        if (tri) { bool up=c.s("tri")=="U"; Ev<C> e(x,"freduce_tri"); e.a("m",m).a("n",n).o("A","A",A.off,la).a("up",up); e.buf("A",A); e.begin();
            freduce(F,up?FflasUpper:FflasLower,n,A.p(),la); e.end(); return; }
        Ev<C> e(x,"freduce"); e.a("m",m).a("n",n).o("A","A",A.off,la);
        if (ip) { e.o("C","A",A.off,la).buf("A",A); e.begin(); if (vec) freduce(F,m,A.p(),la); else freduce(F,m,n,A.p(),la); }
        else { B.fill(m,n,lc,"rand"); e.o("C","C",B.off,lc).buf("A",A).buf("C",B); e.begin(); if (vec) freduce(F,m,A.p(),la,B.p(),lc); else freduce(F,m,n,A.p(),la,B.p(),lc); }
        e.end(); return;
    }
    if (op=="fzero_tri") { S sh=c.s("tri"); bool unit=c.b("unit"); n=m; la=n+c.i("la"); if(!la)la=1; Buf<C> A(x,m*la,mis); A.fill(m,m,la,dA);
        Ev<C> e(x,op); e.a("n",m).a("shape",sh).a("unit",unit).o("A","A",A.off,la); e.buf("A",A); e.begin();
        fzero(F,sh=="U"?FflasUpper:sh=="L"?FflasLower:sh=="LT"?FflasLeftTri:FflasRightTri,unit?FflasUnit:FflasNonUnit,m,A.p(),la); e.end(); return; }
    if (op=="faddin_tri") { bool up=c.s("tri")=="U"; n=m; la=n+c.i("la"); lc=n+c.i("lc"); if(!la)la=1; if(!lc)lc=1; Buf<C> A(x,m*la,mis), B(x,m*lc,mis); A.fill(m,m,la,dA); B.fill(m,m,lc,dB);
        Ev<C> e(x,op); e.a("n",m).a("up",up).o("A","A",A.off,la).o("C","C",B.off,lc); e.buf("A",A).buf("C",B); e.begin();
        faddin(F,up?FflasUpper:FflasLower,m,A.p(),la,B.p(),lc); e.end(); return; }
    if (op=="ftranspose") {
        bool ip=c.i("ip"); size_t nn=c.i("nn"); if (ip && c.b("sq")) nn=m;
        size_t la2=nn+c.i("la"), lc2=m+c.i("lc"); if(!la2)la2=1; if(!lc2)lc2=1; if (ip){ if(nn==m) lc2=la2; else { la2=nn; lc2=m; } }
        size_t sz=ip?std::max(m*la2,nn*lc2):m*la2; Buf<C> A(x,sz,mis), B(x,nn*lc2,mis); A.fill(m,nn,la2,dA); B.fill(nn,m,lc2,dB);
        Ev<C> e(x,op); e.a("m",m).a("n",nn).o("A","A",A.off,la2).o("C",ip?"A":"C",ip?A.off:B.off,lc2).a("bs",c.i("bs")); e.buf("A",A); if(!ip) e.buf("C",B); e.begin();
        E* t=ip?A.p():B.p();
#ifdef BIGELT
        ftranspose(F,m,nn,A.p(),la2,t,lc2);
#else
        typedef Simd<E> SI; typedef NoSimd<E> NS;
        switch(c.i("bs")) { case 8: ftranspose<VField,SI,SI::vect_size>(F,m,nn,A.p(),la2,t,lc2); break;
            case 16: ftranspose<VField,SI,2*SI::vect_size>(F,m,nn,A.p(),la2,t,lc2); break;
            case 3: ftranspose<VField,NS,3>(F,m,nn,A.p(),la2,t,lc2); break;
            default: ftranspose(F,m,nn,A.p(),la2,t,lc2); }
#endif
        e.end(); return; }
    Buf<C> A(x,m*la,mis), B(x,m*lb,c.i("mis2",0)), D(x,m*lc,c.i("mis3",0)); A.fill(m,n,la,dA); B.fill(m,n,lb,dB); D.fill(m,n,lc,"rand");
    Ev<C> e(x,op); e.a("m",m).a("n",n).e("alpha",al).a("vec",vec); S alias=c.s("alias","");
    if (op=="fnegin"||op=="fscalin"||op=="fzero"||op=="fidentity"||op=="fidentity1"||op=="fiszero") {
        e.o("A","A",A.off,la).buf("A",A); e.begin(); S r="0";
        if (op=="fnegin") { if(vec) fnegin(F,m,A.p(),la); else fnegin(F,m,n,A.p(),la); }
        else if (op=="fscalin") { if(vec) fscalin(F,m,al,A.p(),la); else fscalin(F,m,n,al,A.p(),la); }
        else if (op=="fzero") { if(vec) fzero(F,m,A.p(),la); else fzero(F,m,n,A.p(),la); }
        else if (op=="fidentity") fidentity(F,m,n,A.p(),la,al);
        else if (op=="fidentity1") fidentity(F,m,n,A.p(),la);
        else r= (vec?fiszero(F,m,A.p(),la):fiszero(F,m,n,A.p(),la))?"true":"false";
        e.end(r); return; }
    if (op=="fequal"||op=="fdot"||op=="fswap"||op=="fmove") {
        if (op=="fequal" && c.i("eq",0)) { for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) B.p()[i*lb+j]=A.p()[i*la+j];
            if (c.i("eq")==2 && m*n>0) { size_t k=x.g.below(m*n); E& t=B.p()[(k/n)*lb+k%n]; t=x.F.isZero(t)?x.F.one:x.F.zero; } }
        e.o("A","A",A.off,la).o("B","B",B.off,lb).buf("A",A).buf("B",B); e.begin();
        if (op=="fequal") e.endB(vec?fequal(F,m,A.p(),la,B.p(),lb):fequal(F,m,n,A.p(),la,B.p(),lb));
        else if (op=="fdot") { E r=c.i("form",0)?fdot(F,m,A.p(),la,B.p(),lb,ParSeqHelper::Sequential()):fdot(F,m,A.p(),la,B.p(),lb); e.endE(r); }
        else if (op=="fswap") { fswap(F,m,A.p(),la,B.p(),lb); e.end(); }
        else { fmove(F,m,n,A.p(),la,B.p(),lb); e.end(); }
        return; }
    if (op=="fneg"||op=="fassign"||op=="fscal"||op=="faxpy"||op=="faddin"||op=="fsubin"||op=="pfaddin"||op=="pfsubin") {
        bool same = alias=="AC" && (op=="fneg"||op=="fscal"||op=="fassign"); // in place through the out-of-place routine
        E* d=same?A.p():D.p(); size_t ld=same?la:lc;
        e.o("A","A",A.off,la).o("C",same?"A":"C",same?A.off:D.off,ld).buf("A",A); if(!same) e.buf("C",D); e.begin(); size_t th=c.i("th",1);
        if (op=="fneg") { if(vec) fneg(F,m,A.p(),la,d,ld); else fneg(F,m,n,A.p(),la,d,ld); }
        else if (op=="fassign") { if(vec) fassign(F,m,A.p(),la,d,ld); else fassign(F,m,n,A.p(),la,d,ld); }
        else if (op=="fscal") { if(vec) fscal(F,m,al,A.p(),la,d,ld); else fscal(F,m,n,al,A.p(),la,d,ld); }
        else if (op=="faxpy") { if(vec) faxpy(F,m,al,A.p(),la,d,ld); else faxpy(F,m,n,al,A.p(),la,d,ld); }
        else if (op=="faddin") { if(vec) faddin(F,m,A.p(),la,d,ld); else faddin(F,m,n,A.p(),la,d,ld); }
        else if (op=="fsubin") { if(vec) fsubin(F,m,A.p(),la,d,ld); else fsubin(F,m,n,A.p(),la,d,ld); }
        else if (op=="pfaddin") { PAR_BLOCK { pfaddin(F,m,n,A.p(),la,d,ld,th); } }
        else { PAR_BLOCK { pfsubin(F,m,n,A.p(),la,d,ld,th); } }
        e.end(); return; }
    // fadd fsub faddx : three operands, possibly C = A or C = B
    { E* d=alias=="AC"?A.p():alias=="BC"?B.p():D.p(); size_t ld=alias=="AC"?la:alias=="BC"?lb:lc; size_t od=alias=="AC"?A.off:alias=="BC"?B.off:D.off; size_t th=c.i("th",1);
      if (op=="faddx" && alias=="BC") { d=D.p(); ld=lc; od=D.off; alias=""; }
      e.o("A","A",A.off,la).o("B","B",B.off,lb).o("C",alias=="AC"?"A":alias=="BC"?"B":"C",od,ld).buf("A",A).buf("B",B); if (alias=="") e.buf("C",D); e.begin();
      if (op=="fadd") { if(vec) fadd(F,m,A.p(),la,B.p(),lb,d,ld); else fadd(F,m,n,A.p(),la,B.p(),lb,d,ld); }
      else if (op=="fsub") { if(vec) fsub(F,m,A.p(),la,B.p(),lb,d,ld); else fsub(F,m,n,A.p(),la,B.p(),lb,d,ld); }
      else if (op=="faddx") { if(vec) fadd(F,m,A.p(),la,al,B.p(),lb,d,ld); else fadd(F,m,n,A.p(),la,al,B.p(),lb,d,ld); }
      else if (op=="pfadd") { PAR_BLOCK { pfadd(F,m,n,A.p(),la,B.p(),lb,d,ld,th); } }
      else if (op=="pfsub") { PAR_BLOCK { pfsub(F,m,n,A.p(),la,B.p(),lb,d,ld,th); } }
      else { fprintf(stderr,"unknown op %s\n",op.c_str()); exit(2); }
      e.end(); }
}

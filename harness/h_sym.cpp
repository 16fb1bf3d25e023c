// symmetric updates and factorizations: C06
#define VH_MAIN
#include "vh.hpp"
#include "fflas-ffpack/ffpack/ffpack.h"
#include "vgen.hpp"
using namespace vh; using namespace FFLAS;
typedef Ctx<VField> C; typedef C::E E;
#define UL(b) ((b)?FflasUpper:FflasLower)
#define TR(b) ((b)?FflasTrans:FflasNoTrans)
static S twoJson(const std::vector<bool>& t){ S o="["; for(size_t i=0;i<t.size();i++){ if(i)o+=","; o+=t[i]?"true":"false";} return o+"]"; }
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"); size_t mis=c.i("mis",0);
    bool up=c.b("up"), ta=c.b("ta"); size_t n=c.i("nn"), k=c.i("k"), form=c.i("form",0);
    E al=x.scal(c.s("al")), be=x.scal(c.s("be"));
    Ev<C> e(x,op); e.a("up",up).a("ta",ta).a("n",n).e("alpha",al).e("beta",be);
    if (op=="fsyrk"||op=="fsyr2k"||op=="fsyrkd") {
        size_t ar=ta?k:n, ac=ta?n:k, lda=ac+c.i("la"), ldb=ac+c.i("lb"), ldc=n+c.i("lc"); if(!lda)lda=1; if(!ldb)ldb=1; if(!ldc)ldc=1;
        size_t id=1+c.i("id",0);
        Buf<C> A(x,ar*lda,mis), B(x,ar*ldb,0), D(x,k*id,0), R(x,n*ldc,c.i("mis2",0));
        A.fill(ar,ac,lda,c.s("dA")); B.fill(ar,ac,ldb,c.s("dB")); R.fill(n,n,ldc,"rand"); D.fillv(k,id,"rand");
        std::vector<bool> two(k,false); if (op=="fsyrkd"&&form>=2) for(size_t i=0;i+1<k;i++) if(x.g.below(2)){ two[i]=true; D.p()[(i+1)*id]=D.p()[i*id]; i++; }
        e.a("k",k).o("A","A",A.off,lda).o("C","C",R.off,ldc);
        size_t th=c.i("th",0);
        if (op=="fsyrk") { e.buf("A",A).buf("C",R); e.begin();
#ifndef NO_FSYRK
            if (form==0) fsyrk(F,UL(up),TR(ta),n,k,al,A.p(),lda,be,R.p(),ldc);
#ifdef SYM_WINO
            else if (form==1||form==2) { MMHelper<VField,MMHelperAlgo::Winograd> H(F,(int)c.i("w",0)); fsyrk(F,UL(up),TR(ta),n,k,al,A.p(),lda,be,R.p(),ldc,H); }
#endif
            else { MMHelper<VField,MMHelperAlgo::DivideAndConquer> H(F,(int)c.i("w",0)); fsyrk(F,UL(up),TR(ta),n,k,al,A.p(),lda,be,R.p(),ldc,H); }
#endif
            e.end(); }
        else if (op=="fsyr2k") { e.o("B","B",B.off,ldb).buf("A",A).buf("B",B).buf("C",R); e.begin(); fsyr2k(F,UL(up),TR(ta),n,k,al,A.p(),lda,B.p(),ldb,be,R.p(),ldc); e.end(); }
        else { e.o("D","D",D.off,id).raw("two",twoJson(two)).buf("A",A).buf("D",D).buf("C",R); e.begin();
            if (form>=2) fsyrk(F,UL(up),TR(ta),n,k,al,A.p(),lda,D.p(),id,two,be,R.p(),ldc,th?th:64);
            else fsyrk(F,UL(up),TR(ta),n,k,al,A.p(),lda,D.p(),id,be,R.p(),ldc,th?th:64);
            e.end(); }
    } else {
        size_t lda=n+c.i("la"); if(!lda)lda=1; size_t id=1+c.i("id",0); size_t th=c.i("th",0); if (th<2) th=2;
        Buf<C> A(x,n*lda,mis), D(x,n*id,0); fillSym(x,A,n,lda,c.s("sk"),c.s("dA"));
        // the opposite triangle is not input: fill it with unrelated values
        if (c.i("junk",0)) for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) if (up?(i>j):(i<j)) A.set(i*lda+j,x.rnd());
        e.o("A","A",A.off,lda);
        if (op=="fsytrf") { e.buf("A",A); e.begin(); bool r= form? FFPACK::fsytrf(F,UL(up),n,A.p(),lda,th) : FFPACK::fsytrf(F,UL(up),n,A.p(),lda); e.endB(r); }
        else if (op=="fsytrf_nu") { e.o("D","D",D.off,id).buf("A",A).buf("D",D); e.begin(); bool r=FFPACK::fsytrf_nonunit(F,UL(up),n,A.p(),lda,D.p(),id,ParSeqHelper::Sequential(),th); e.endB(r); }
        else { std::vector<size_t> P(n+1,0); e.buf("A",A); e.begin(); size_t r=FFPACK::fsytrf_RPM(F,FflasUpper,n,A.p(),lda,P.data(),th);
            std::vector<bool> two(n,false); for(size_t i=0;i<n;i++) if((int)P[i]<0){ two[i]=true; P[i]=-P[i]-1; if(i+1<n){ P[i+1]=-P[i+1]-1; } i++; }
            S o="{\"rank\":"; put(o,(long)r); o+=",\"P\":["; for(size_t i=0;i<n;i++){ if(i)o+=","; put(o,P[i]>1000000?1000000L:(long)P[i]); } o+="],\"two\":"+twoJson(two)+"}"; e.end(o); }
    }
}

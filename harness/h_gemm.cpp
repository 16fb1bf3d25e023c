// matrix product: C01 (and the fgemm part of C02, C16)
#define VH_MAIN
#include "vh.hpp"
#ifdef VCAPI
#include "fflas-ffpack/ffpack/ffpack.h"
#include "capi.hpp"
#endif
using namespace vh; using namespace FFLAS;
typedef Ctx<VField> C;

template<class F> struct HasWino { static const bool v = !std::is_same<typename F::Element,Integer>::value && !IsRec<typename F::Element>::value; };

template<bool W> struct Forms {
    template<class... A> static void run(const Case& c,const VField& F,size_t m,size_t n,size_t k,A... a){
        S f=c.s("form"); int w=c.i("w",0);
        typedef typename ModeTraits<VField>::value Mode;
        if (f=="wino") { MMHelper<VField,MMHelperAlgo::Winograd,Mode> H(F,w,ParSeqHelper::Sequential()); fgemm(F,a...,H); }
        else if (f=="auto") { MMHelper<VField,MMHelperAlgo::Auto,Mode> H(F,w,ParSeqHelper::Sequential()); fgemm(F,a...,H); }
        else if (f=="seq") fgemm(F,a...,ParSeqHelper::Sequential());
        else fgemm(F,a...);
    } };
template<> struct Forms<false> {
    template<class... A> static void run(const Case& c,const VField& F,size_t m,size_t n,size_t k,A... a){
        if (c.s("form")=="seq") fgemm(F,a...,ParSeqHelper::Sequential()); else fgemm(F,a...);
    } };

void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op");
    if (op=="fgemm") {
        bool ta=c.b("ta"), tb=c.b("tb"); size_t m=c.i("m"), n=c.i("nn"), k=c.i("k");
        size_t ra=ta?k:m, ca=ta?m:k, rb=tb?n:k, cb=tb?k:n;
        size_t lda=ca+c.i("la"), ldb=cb+c.i("lb"), ldc=n+c.i("lc"); if(!lda)lda=1; if(!ldb)ldb=1; if(!ldc)ldc=1;
        size_t mis=c.i("mis",0);
        Buf<C> A(x,ra*lda,mis), B(x,rb*ldb,mis?mis-1:0), D(x,m*ldc,mis);
        A.fill(ra,ca,lda,c.s("dA")); B.fill(rb,cb,ldb,c.s("dB")); D.fill(m,n,ldc,c.s("dC"));
        C::E al=x.scal(c.s("al")), be=x.scal(c.s("be"));
        Ev<C> e(x,"fgemm"); e.a("ta",ta).a("tb",tb).a("m",m).a("n",n).a("k",k).a("lda",lda).a("ldb",ldb).a("ldc",ldc)
            .a("oa",A.off).a("ob",B.off).a("oc",D.off).e("alpha",al).e("beta",be).a("form",c.s("form")).a("w",(long)c.i("w",0));
        e.buf("A",A).buf("B",B).buf("C",D); e.begin();
        Forms<HasWino<VField>::v>::run(c,F,m,n,k,ta?FflasTrans:FflasNoTrans,tb?FflasTrans:FflasNoTrans,m,n,k,al,A.p(),lda,B.p(),ldb,be,D.p(),ldc);
        e.end();
    } else if (op=="fsquare") {
        bool ta=c.b("ta"); size_t n=c.i("nn"); size_t lda=n+c.i("la"), ldc=n+c.i("lc"); bool ip=c.i("ip",0);
        Buf<C> A(x,n*lda), D(x,n*ldc); A.fill(n,n,lda,c.s("dA")); D.fill(n,n,ldc,c.s("dC"));
        C::E al=x.scal(c.s("al")), be=x.scal(c.s("be"));
        Ev<C> e(x,"fsquare"); e.a("ta",ta).a("n",n).a("lda",lda).a("ldc",ldc).a("oa",A.off).a("oc",D.off).e("alpha",al).e("beta",be).a("ip",ip);
        if (ip) { e.buf("A",A); e.begin(); fsquare(F,ta?FflasTrans:FflasNoTrans,n,al,A.p(),lda,be,A.p(),lda); }
        else { e.buf("A",A).buf("C",D); e.begin(); fsquare(F,ta?FflasTrans:FflasNoTrans,n,al,A.p(),lda,be,D.p(),ldc); }
        e.end();
    }
}

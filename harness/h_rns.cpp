// residue number systems and multiprecision kernels on operands of unequal sizes: C16
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#if VT==VT_ZI
#define runCase rc_gemm
#include "h_gemm.cpp"
#undef runCase
#define runCase rc_l2
#include "h_l2.cpp"
#undef runCase
#define DET_ONLY
#define runCase rc_sol
#include "h_sol.cpp"
#undef runCase
#define NO_LIST
#define NO_MINPOLY
#define runCase rc_poly
#include "h_poly.cpp"
#undef runCase
static S lim(const Integer& v){ S o; putI(o,v,true); return o; }
inline void run(FFPACK::rns_double& rns,size_t m,size_t n,size_t lda,size_t ldc,bool tr,bool major,size_t k,size_t rda,Integer gamma,Integer* A,Integer* D,double* R){
    if (major) rda=rns._size;
    if (tr) { rns.init_transpose(m,n,R,rda,A,lda,k,major); rns.convert_transpose(m,n,gamma,D,ldc,R,rda,major); }
    else { rns.init(m,n,R,rda,A,lda,k,major); rns.convert(m,n,gamma,D,ldc,R,rda,major); } }
inline void run(FFPACK::rns_double_extended& rns,size_t m,size_t n,size_t lda,size_t ldc,bool tr,bool major,size_t k,size_t rda,Integer gamma,Integer* A,Integer* D,double* R){ rns.init(m*n,R,A,1); rns.convert(m*n,D,R); }
// conversions: A (integers) -> residues -> gamma*C + A
template<class RNS> void conv(const Case& c,C& x,RNS& rns,bool ext){
    size_t m=c.i("m"), n=c.i("nn"), lda=n+c.i("la"), ldc=n+c.i("lc"); if(!lda)lda=1; if(!ldc)ldc=1; bool tr=c.b("tr"), major=c.b("major"); if (ext) { lda=ldc=std::max<size_t>(n,1); tr=false; }
    Buf<C> A(x,m*lda), D(x,m*ldc); Integer h=(rns._M-1)/2; size_t mb=h.bitsize(), wmax=1;
    for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ Integer v; switch(x.g.below(8)){ case 0: v=h; break; case 1: v=-h; break; case 2: v=0; break; case 3: v=Integer(rns._basis[x.g.below(rns._size)])*Integer((int64_t)x.g.below(5))-Integer((int64_t)x.g.below(2)); break;
            case 4: v=(Integer(1)<<(uint64_t)x.g.below(mb+1))-Integer((int64_t)x.g.below(3)); break; default: v=x.g.bits(1+x.g.below(mb)); if (x.g.below(2)) v=-v; }
        if (v>h||-v>h) v=h; A.p()[i*lda+j]=v; wmax=std::max(wmax,(v.bitsize()+15)/16); D.p()[i*ldc+j]=x.gen("rand"); }
    Integer gamma= c.s("be")=="0"?Integer(0): c.s("be")=="1"?Integer(1): c.s("be")=="-1"?Integer(-1): x.gen("rand"); if (ext) gamma=0;
    S bs="["; for(size_t i=0;i<rns._size;i++){ if(i)bs+=","; bs+=lim(Integer(rns._basis[i])); } bs+="]";
    Ev<C> e(x,"rnsconv"); e.a("m",m).a("n",n).a("tr",tr).raw("basis",bs).raw("gamma",lim(gamma)).o("A","A",A.off,lda).o("C","C",D.off,ldc).buf("A",A).buf("C",D); e.begin();
    size_t sz=rns._size, mn=m*n, rda=mn+(major||ext?0:c.i("lb")); double* R=fflas_new<double>(sz*rda+8); std::vector<double> g;
    run(rns,m,n,lda,ldc,tr,major,wmax,rda,gamma,A.p(),D.p(),R);
    S o="["; for(size_t k=0;k<sz;k++){ if(k)o+=","; o+="["; for(size_t i=0;i<mn;i++){ if(i)o+=","; double v= (major||ext)?R[i*sz+k]:R[k*rda+i]; Integer r; if (!toI(r,v)) r=Integer(-1); o+=lim(r); } o+="]"; } o+="]";
    fflas_delete(R); e.end(o); }
void runCase(const Case& c){ S h=c.s("h");
    if (h=="gemm") return rc_gemm(c); if (h=="l2") return rc_l2(c); if (h=="sol") return rc_sol(c); if (h=="poly") return rc_poly(c);
    C x(c,VTNAME); Integer bound=x.g.bits(c.i("zb")*2+1)+3; long pb=c.i("pb");
    if (c.b("ext")) { if (c.i("csz")) { FFPACK::rns_double_extended rns((size_t)pb,(size_t)c.i("csz"),c.i("n")+1); conv(c,x,rns,true); } else { FFPACK::rns_double_extended rns(bound,pb,false,c.i("n")+1); conv(c,x,rns,true); } }
    else if (c.i("csz")) { FFPACK::rns_double rns((size_t)pb,(size_t)c.i("csz"),c.i("n")+1); conv(c,x,rns,false); }
    else { FFPACK::rns_double rns(bound,pb,false,c.i("n")+1); conv(c,x,rns,false); } }
#else
#define runCase rc_gemm
#include "h_gemm.cpp"
#undef runCase
#define runCase rc_l2
#include "h_l2.cpp"
#undef runCase
#if VT==VT_MI
#define runCase rc_tri
#include "h_tri.cpp"
#undef runCase
#define runCase rc_lu
#include "h_lu.cpp"
#undef runCase
#endif
void runCase(const Case& c){ S h=c.s("h"); if (h=="gemm") rc_gemm(c); else if (h=="l2") rc_l2(c);
#if VT==VT_MI
    else if (h=="tri") rc_tri(c); else rc_lu(c);
#endif
}
#endif

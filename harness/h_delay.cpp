// delayed reductions: the kernels of C01, C04-C07 on adversarial data around the accumulation limits (C02)
#define VH_MAIN
#include "vh.hpp"
#define runCase rc_gemm
#include "h_gemm.cpp"
#undef runCase
#define runCase rc_l2
#include "h_l2.cpp"
#undef runCase
#define runCase rc_tri
#include "h_tri.cpp"
#undef runCase
#define runCase rc_sym
#include "h_sym.cpp"
#undef runCase
#define runCase rc_lu
#include "h_lu.cpp"
#undef runCase
void runCase(const Case& c){ S h=c.s("h");
    if (h=="gemm") rc_gemm(c); else if (h=="l2") rc_l2(c); else if (h=="tri") rc_tri(c); else if (h=="sym") rc_sym(c); else if (h=="lu") rc_lu(c);
    else { C x(c,VTNAME); size_t m=c.i("m"), ia=c.i("ix"), ib=c.i("iy"); Buf<C> A(x,m*ia,c.i("mis",0)), B(x,m*ib,0); A.fillv(m,ia,c.s("dA")); B.fillv(m,ib,c.s("dB"));
        Ev<C> e(x,"fdot"); e.a("m",m).a("n",1).o("A","A",A.off,ia).o("B","B",B.off,ib).buf("A",A).buf("B",B); e.begin(); E r=fdot(x.F,m,A.p(),ia,B.p(),ib); e.endE(r); } }

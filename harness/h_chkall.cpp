// the routines that certify their own results, certificates enabled: C21
#define ENABLE_ALL_CHECKINGS 1
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#define runCase rc_gemm
#include "h_gemm.cpp"
#undef runCase
#define runCase rc_tri
#include "h_tri.cpp"
#undef runCase
#define runCase rc_lu
#include "h_lu.cpp"
#undef runCase
#define runCase rc_sol
#include "h_sol.cpp"
#undef runCase
#define runCase rc_poly
#include "h_poly.cpp"
#undef runCase
void runCase(const Case& c){ S h=c.s("h"); if (h=="gemm") rc_gemm(c); else if (h=="tri") rc_tri(c); else if (h=="lu") rc_lu(c); else if (h=="sol") rc_sol(c); else rc_poly(c); }

// The routines of the C interface, presented under the names and argument lists of the C++ templates so that the
// harnesses of the C++ properties drive the C functions unchanged (included after all the library headers, VCAPI builds).
#pragma once
#include <stdbool.h>
#include <stdlib.h>
#include <inttypes.h>
#include <stddef.h>
namespace CH {
#include "fflas-ffpack/interfaces/libs/fflas_c.h"
#include "fflas-ffpack/interfaces/libs/ffpack_c.h"
}
namespace capi {
    typedef VField FT; typedef FT::Element EL; typedef size_t Z; typedef const EL* CP; typedef EL* MP;
    typedef FFLAS::FFLAS_TRANSPOSE TRA; typedef FFLAS::FFLAS_UPLO UPL; typedef FFLAS::FFLAS_DIAG DIA; typedef FFLAS::FFLAS_SIDE SID; typedef FFPACK::FFPACK_LU_TAG TAG;
#define CT(x) ((CH::FFLAS_C_TRANSPOSE)(x))
#define CU(x) ((CH::FFLAS_C_UPLO)(x))
#define CD(x) ((CH::FFLAS_C_DIAG)(x))
#define CS(x) ((CH::FFLAS_C_SIDE)(x))
#define CG(x) ((CH::FFPACK_C_LU_TAG)(x))
#define PP ((EL)F.characteristic())
#if VT==VT_MD || VT==VT_MF || VT==VT_M32
    static const bool POS=true;
#else
    static const bool POS=false;
#endif
#define CALL ++vh::g_capi
#if VT==VT_MD || VT==VT_BD
    // level 1
    inline void freduce(const FT& F,Z n,MP X,Z ix){ CALL; CH::freducein_1_modular_double(PP,n,X,ix,POS); }
    inline void freduce(const FT& F,Z n,CP Y,Z iy,MP X,Z ix){ CALL; CH::freduce_1_modular_double(PP,n,Y,iy,X,ix,POS); }
    inline void fnegin(const FT& F,Z n,MP X,Z ix){ CALL; CH::fnegin_1_modular_double(PP,n,X,ix,POS); }
    inline void fneg(const FT& F,Z n,CP Y,Z iy,MP X,Z ix){ CALL; CH::fneg_1_modular_double(PP,n,Y,iy,X,ix,POS); }
    inline void fzero(const FT& F,Z n,MP X,Z ix){ CALL; CH::fzero_1_modular_double(PP,n,X,ix,POS); }
    inline bool fiszero(const FT& F,Z n,CP X,Z ix){ CALL; return CH::fiszero_1_modular_double(PP,n,X,ix,POS); }
    inline bool fequal(const FT& F,Z n,CP X,Z ix,CP Y,Z iy){ CALL; return CH::fequal_1_modular_double(PP,n,X,ix,Y,iy,POS); }
    inline void fassign(const FT& F,Z n,CP Y,Z iy,MP X,Z ix){ CALL; CH::fassign_1_modular_double(PP,n,Y,iy,X,ix,POS); }
    inline void fscalin(const FT& F,Z n,EL a,MP X,Z ix){ CALL; CH::fscalin_1_modular_double(PP,n,a,X,ix,POS); }
    inline void fscal(const FT& F,Z n,EL a,CP X,Z ix,MP Y,Z iy){ CALL; CH::fscal_1_modular_double(PP,n,a,X,ix,Y,iy,POS); }
    inline void faxpy(const FT& F,Z n,EL a,CP X,Z ix,MP Y,Z iy){ CALL; CH::faxpy_1_modular_double(PP,n,a,X,ix,Y,iy,POS); }
    inline EL fdot(const FT& F,Z n,CP X,Z ix,CP Y,Z iy){ CALL; return CH::fdot_1_modular_double(PP,n,X,ix,Y,iy,POS); }
    inline void fswap(const FT& F,Z n,MP X,Z ix,MP Y,Z iy){ CALL; CH::fswap_1_modular_double(PP,n,X,ix,Y,iy,POS); }
    inline void fadd(const FT& F,Z n,CP A,Z ia,CP B,Z ib,MP C,Z ic){ CALL; CH::fadd_1_modular_double(PP,n,A,ia,B,ib,C,ic,POS); }
    inline void fsub(const FT& F,Z n,CP A,Z ia,CP B,Z ib,MP C,Z ic){ CALL; CH::fsub_1_modular_double(PP,n,A,ia,B,ib,C,ic,POS); }
    inline void faddin(const FT& F,Z n,CP B,Z ib,MP C,Z ic){ CALL; CH::faddin_1_modular_double(PP,n,B,ib,C,ic,POS); }
    inline void fsubin(const FT& F,Z n,CP B,Z ib,MP C,Z ic){ CALL; CH::fsubin_1_modular_double(PP,n,B,ib,C,ic,POS); }
    // level 2
    inline void fassign(const FT& F,Z m,Z n,CP B,Z lb,MP A,Z la){ CALL; CH::fassign_2_modular_double(PP,m,n,B,lb,A,la,POS); }
    inline void fzero(const FT& F,Z m,Z n,MP A,Z la){ CALL; CH::fzero_2_modular_double(PP,m,n,A,la,POS); }
    inline bool fequal(const FT& F,Z m,Z n,CP A,Z la,CP B,Z lb){ CALL; return CH::fequal_2_modular_double(PP,m,n,A,la,B,lb,POS); }
    inline bool fiszero(const FT& F,Z m,Z n,CP A,Z la){ CALL; return CH::fiszero_2_modular_double(PP,m,n,A,la,POS); }
    inline void fidentity(const FT& F,Z m,Z n,MP A,Z la,const EL& d){ CALL; CH::fidentity_2_modular_double(PP,m,n,A,la,d,POS); }
    inline void freduce(const FT& F,Z m,Z n,MP A,Z la){ CALL; CH::freducein_2_modular_double(PP,m,n,A,la,POS); }
    inline void freduce(const FT& F,Z m,Z n,CP B,Z lb,MP A,Z la){ CALL; CH::freduce_2_modular_double(PP,m,n,B,lb,A,la,POS); }
    inline void fnegin(const FT& F,Z m,Z n,MP A,Z la){ CALL; CH::fnegin_2_modular_double(PP,m,n,A,la,POS); }
    inline void fneg(const FT& F,Z m,Z n,CP B,Z lb,MP A,Z la){ CALL; CH::fneg_2_modular_double(PP,m,n,B,lb,A,la,POS); }
    inline void fscalin(const FT& F,Z m,Z n,EL a,MP A,Z la){ CALL; CH::fscalin_2_modular_double(PP,m,n,a,A,la,POS); }
    inline void fscal(const FT& F,Z m,Z n,EL a,CP A,Z la,MP B,Z lb){ CALL; CH::fscal_2_modular_double(PP,m,n,a,A,la,B,lb,POS); }
    inline void faxpy(const FT& F,Z m,Z n,EL a,CP A,Z la,MP B,Z lb){ CALL; CH::faxpy_2_modular_double(PP,m,n,a,A,la,B,lb,POS); }
    inline void fmove(const FT& F,Z m,Z n,MP A,Z la,MP B,Z lb){ CALL; CH::fmove_2_modular_double(PP,m,n,A,la,B,lb,POS); }
    inline void fadd(const FT& F,Z m,Z n,CP A,Z la,CP B,Z lb,MP C,Z lc){ CALL; CH::fadd_2_modular_double(PP,m,n,A,la,B,lb,C,lc,POS); }
    inline void fsub(const FT& F,Z m,Z n,CP A,Z la,CP B,Z lb,MP C,Z lc){ CALL; CH::fsub_2_modular_double(PP,m,n,A,la,B,lb,C,lc,POS); }
    inline void faddin(const FT& F,Z m,Z n,CP B,Z lb,MP C,Z lc){ CALL; CH::faddin_2_modular_double(PP,m,n,B,lb,C,lc,POS); }
    inline void fsubin(const FT& F,Z m,Z n,CP B,Z lb,MP C,Z lc){ CALL; CH::fsubin_2_modular_double(PP,m,n,B,lb,C,lc,POS); }
    inline MP fgemv(const FT& F,TRA t,Z m,Z n,EL a,CP A,Z la,CP X,Z ix,EL b,MP Y,Z iy){ CALL; return CH::fgemv_2_modular_double(PP,CT(t),m,n,a,A,la,X,ix,b,Y,iy,POS); }
    inline void fger(const FT& F,Z m,Z n,EL a,CP X,Z ix,CP Y,Z iy,MP A,Z la){ CALL; CH::fger_2_modular_double(PP,m,n,a,X,ix,Y,iy,A,la,POS); }
    inline void ftrsv(const FT& F,UPL u,TRA t,DIA d,Z n,CP A,Z la,MP X,int ix){ CALL; CH::ftrsv_2_modular_double(PP,CU(u),CT(t),CD(d),n,A,la,X,ix,POS); }
    // level 3
    inline void ftrsm(const FT& F,SID s,UPL u,TRA t,DIA d,Z m,Z n,EL a,CP A,Z la,MP B,Z lb){ CALL; CH::ftrsm_3_modular_double(PP,CS(s),CU(u),CT(t),CD(d),m,n,a,A,la,B,lb,POS); }
    inline void ftrmm(const FT& F,SID s,UPL u,TRA t,DIA d,Z m,Z n,EL a,CP A,Z la,MP B,Z lb){ CALL; CH::ftrmm_3_modular_double(PP,CS(s),CU(u),CT(t),CD(d),m,n,a,(MP)A,la,B,lb,POS); }
    inline MP fgemm(const FT& F,TRA ta,TRA tb,Z m,Z n,Z k,EL a,CP A,Z la,CP B,Z lb,EL b,MP C,Z lc){ CALL; return CH::fgemm_3_modular_double(PP,CT(ta),CT(tb),m,n,k,a,A,la,B,lb,b,C,lc,POS); }
    inline MP fsquare(const FT& F,TRA ta,Z n,EL a,CP A,Z la,EL b,MP C,Z lc){ CALL; return CH::fsquare_3_modular_double(PP,CT(ta),n,a,A,la,b,C,lc,POS); }
    // FFPACK
    inline void MatrixApplyS(const FT& F,MP A,Z la,Z w,Z M2,Z R1,Z R2,Z R3,Z R4){ CALL; CH::MatrixApplyS_modular_double(PP,A,la,w,M2,R1,R2,R3,R4,POS); }
    inline void MatrixApplyT(const FT& F,MP A,Z la,Z w,Z M2,Z R1,Z R2,Z R3,Z R4){ CALL; CH::MatrixApplyT_modular_double(PP,A,la,w,M2,R1,R2,R3,R4,POS); }
    inline void PermApplyS(MP A,Z la,Z w,Z M2,Z R1,Z R2,Z R3,Z R4){ CALL; CH::PermApplyS_double(A,la,w,M2,R1,R2,R3,R4); }
    inline void PermApplyT(MP A,Z la,Z w,Z M2,Z R1,Z R2,Z R3,Z R4){ CALL; CH::PermApplyT_double(A,la,w,M2,R1,R2,R3,R4); }
    inline void cyclic_shift_row(const FT& F,MP A,Z m,Z n,Z la){ CALL; CH::cyclic_shift_row_modular_double(PP,A,m,n,la,POS); }
    inline void cyclic_shift_col(const FT& F,MP A,Z m,Z n,Z la){ CALL; CH::cyclic_shift_col_modular_double(PP,A,m,n,la,POS); }
    inline void applyP(const FT& F,SID s,TRA t,Z M,Z ib,Z ie,MP A,Z la,const Z* P){ CALL; CH::applyP_modular_double(PP,CS(s),CT(t),M,ib,ie,A,la,P,POS); }
    inline void fgetrs(const FT& F,SID s,Z M,Z N,Z R,MP A,Z la,const Z* P,const Z* Q,MP B,Z lb,int* info){ CALL; CH::fgetrsin_modular_double(PP,CS(s),M,N,R,A,la,P,Q,B,lb,info,POS); }
    inline MP fgetrs(const FT& F,SID s,Z M,Z N,Z K,Z R,MP A,Z la,const Z* P,const Z* Q,MP X,Z lx,CP B,Z lb,int* info){ CALL; return CH::fgetrs_modular_double(PP,CS(s),M,N,K,R,A,la,P,Q,X,lx,B,lb,info,POS); }
    inline Z fgesv(const FT& F,SID s,Z M,Z N,MP A,Z la,MP B,Z lb,int* info){ CALL; return CH::fgesvin_modular_double(PP,CS(s),M,N,A,la,B,lb,info,POS); }
    inline Z fgesv(const FT& F,SID s,Z M,Z N,Z K,MP A,Z la,MP X,Z lx,CP B,Z lb,int* info){ CALL; return CH::fgesv_modular_double(PP,CS(s),M,N,K,A,la,X,lx,B,lb,info,POS); }
    inline void ftrtri(const FT& F,UPL u,DIA d,Z N,MP A,Z la){ CALL; CH::ftrtri_modular_double(PP,CU(u),CD(d),N,A,la,POS); }
    inline void trinv_left(const FT& F,Z N,CP L,Z ll,MP X,Z lx){ CALL; CH::trinv_left_modular_double(PP,N,L,ll,X,lx,POS); }
    inline void ftrtrm(const FT& F,SID s,DIA d,Z N,MP A,Z la){ CALL; CH::ftrtrm_modular_double(PP,CS(s),CD(d),N,A,la,POS); }
    inline Z PLUQ(const FT& F,DIA d,Z M,Z N,MP A,Z la,Z* P,Z* Q){ CALL; return CH::PLUQ_modular_double(PP,CD(d),M,N,A,la,P,Q,POS); }
    inline Z LUdivine(const FT& F,DIA d,TRA t,Z M,Z N,MP A,Z la,Z* P,Z* Q,TAG g,Z cut){ CALL; return CH::LUdivine_modular_double(PP,CD(d),CT(t),M,N,A,la,P,Q,CG(g),cut,POS); }
    inline MP Invert(const FT& F,Z M,MP A,Z la,int& nul){ CALL; return CH::Invertin_modular_double(PP,M,A,la,&nul,POS); }
    inline MP Invert(const FT& F,Z M,CP A,Z la,MP X,Z lx,int& nul){ CALL; return CH::Invert_modular_double(PP,M,A,la,X,lx,&nul,POS); }
    inline MP Invert2(const FT& F,Z M,MP A,Z la,MP X,Z lx,int& nul){ CALL; return CH::Invert2_modular_double(PP,M,A,la,X,lx,&nul,POS); }
    inline Z Rank(const FT& F,Z M,Z N,MP A,Z la){ CALL; return CH::Rank_modular_double(PP,M,N,A,la,POS); }
    inline bool IsSingular(const FT& F,Z M,Z N,MP A,Z la){ CALL; return CH::IsSingular_modular_double(PP,M,N,A,la,POS); }
    inline EL& Det(const FT& F,EL& d,Z N,MP A,Z la){ CALL; return d=CH::Det_modular_double(PP,N,A,la,POS); }
    inline MP Solve(const FT& F,Z M,MP A,Z la,MP x,int ix,CP b,int ib){ CALL; return CH::Solve_modular_double(PP,M,A,la,x,ix,b,ib,POS); }
    inline void solveLB(const FT& F,SID s,Z M,Z N,Z R,MP L,Z ll,const Z* Q,MP B,Z lb){ CALL; CH::solveLB_modular_double(PP,CS(s),M,N,R,L,ll,Q,B,lb,POS); }
    inline void solveLB2(const FT& F,SID s,Z M,Z N,Z R,MP L,Z ll,const Z* Q,MP B,Z lb){ CALL; CH::solveLB2_modular_double(PP,CS(s),M,N,R,L,ll,Q,B,lb,POS); }
    inline void RandomNullSpaceVector(const FT& F,SID s,Z M,Z N,MP A,Z la,MP X,Z ix){ CALL; CH::RandomNullSpaceVector_modular_double(PP,CS(s),M,N,A,la,X,ix,POS); }
    inline Z NullSpaceBasis(const FT& F,SID s,Z M,Z N,MP A,Z la,MP& NS,Z& ln,Z& dim){ CALL; return CH::NullSpaceBasis_modular_double(PP,CS(s),M,N,A,la,&NS,&ln,&dim,POS); }
    inline Z RowRankProfile(const FT& F,Z M,Z N,MP A,Z la,Z*& rp,TAG g){ CALL; return CH::RowRankProfile_modular_double(PP,M,N,A,la,&rp,CG(g),POS); }
    inline Z ColumnRankProfile(const FT& F,Z M,Z N,MP A,Z la,Z*& rp,TAG g){ CALL; return CH::ColumnRankProfile_modular_double(PP,M,N,A,la,&rp,CG(g),POS); }
    inline Z RowRankProfileSubmatrixIndices(const FT& F,Z M,Z N,MP A,Z la,Z*& r,Z*& c,Z& R){ CALL; return CH::RowRankProfileSubmatrixIndices_modular_double(PP,M,N,A,la,&r,&c,&R,POS); }
    inline Z ColRankProfileSubmatrixIndices(const FT& F,Z M,Z N,MP A,Z la,Z*& r,Z*& c,Z& R){ CALL; return CH::ColRankProfileSubmatrixIndices_modular_double(PP,M,N,A,la,&r,&c,&R,POS); }
    inline Z RowRankProfileSubmatrix(const FT& F,Z M,Z N,MP A,Z la,MP& X,Z& R){ CALL; return CH::RowRankProfileSubmatrix_modular_double(PP,M,N,A,la,&X,&R,POS); }
    inline Z ColRankProfileSubmatrix(const FT& F,Z M,Z N,MP A,Z la,MP& X,Z& R){ CALL; return CH::ColRankProfileSubmatrix_modular_double(PP,M,N,A,la,&X,&R,POS); }
    inline void getTriangular(const FT& F,UPL u,DIA d,Z M,Z N,Z R,CP A,Z la,MP T,Z lt,bool only){ CALL; CH::getTriangular_modular_double(PP,CU(u),CD(d),M,N,R,A,la,T,lt,only,POS); }
    inline void getTriangular(const FT& F,UPL u,DIA d,Z M,Z N,Z R,MP A,Z la){ CALL; CH::getTriangularin_modular_double(PP,CU(u),CD(d),M,N,R,A,la,POS); }
    inline void getEchelonForm(const FT& F,UPL u,DIA d,Z M,Z N,Z R,const Z* P,CP A,Z la,MP T,Z lt,bool only,TAG g){ CALL; CH::getEchelonForm_modular_double(PP,CU(u),CD(d),M,N,R,P,A,la,T,lt,only,CG(g),POS); }
    inline void getEchelonForm(const FT& F,UPL u,DIA d,Z M,Z N,Z R,const Z* P,MP A,Z la,TAG g){ CALL; CH::getEchelonFormin_modular_double(PP,CU(u),CD(d),M,N,R,P,A,la,CG(g),POS); }
    inline void getEchelonTransform(const FT& F,UPL u,DIA d,Z M,Z N,Z R,const Z* P,const Z* Q,CP A,Z la,MP T,Z lt,TAG g){ CALL; CH::getEchelonTransform_modular_double(PP,CU(u),CD(d),M,N,R,P,Q,A,la,T,lt,CG(g),POS); }
    inline void getReducedEchelonForm(const FT& F,UPL u,Z M,Z N,Z R,const Z* P,CP A,Z la,MP T,Z lt,bool only,TAG g){ CALL; CH::getReducedEchelonForm_modular_double(PP,CU(u),M,N,R,P,A,la,T,lt,only,CG(g),POS); }
    inline void getReducedEchelonForm(const FT& F,UPL u,Z M,Z N,Z R,const Z* P,MP A,Z la,TAG g){ CALL; CH::getReducedEchelonFormin_modular_double(PP,CU(u),M,N,R,P,A,la,CG(g),POS); }
    inline void getReducedEchelonTransform(const FT& F,UPL u,Z M,Z N,Z R,const Z* P,const Z* Q,CP A,Z la,MP T,Z lt,TAG g){ CALL; CH::getReducedEchelonTransform_modular_double(PP,CU(u),M,N,R,P,Q,A,la,T,lt,CG(g),POS); }
#define CSUF(n) CH::n##_modular_double
#elif VT==VT_MF || VT==VT_BF
#define CSUF(n) CH::n##_modular_float
#elif VT==VT_M32 || VT==VT_B32
#define CSUF(n) CH::n##_modular_int32_t
#endif
    inline Z ColumnEchelonForm(const FT& F,Z M,Z N,MP A,Z la,Z* P,Z* Q,bool t,TAG g){ CALL; return CSUF(ColumnEchelonForm)(PP,M,N,A,la,P,Q,t,CG(g),POS); }
    inline Z RowEchelonForm(const FT& F,Z M,Z N,MP A,Z la,Z* P,Z* Q,bool t,TAG g){ CALL; return CSUF(RowEchelonForm)(PP,M,N,A,la,P,Q,t,CG(g),POS); }
    inline Z ReducedColumnEchelonForm(const FT& F,Z M,Z N,MP A,Z la,Z* P,Z* Q,bool t,TAG g){ CALL; return CSUF(ReducedColumnEchelonForm)(PP,M,N,A,la,P,Q,t,CG(g),POS); }
    inline Z ReducedRowEchelonForm(const FT& F,Z M,Z N,MP A,Z la,Z* P,Z* Q,bool t,TAG g){ CALL; return CSUF(ReducedRowEchelonForm)(PP,M,N,A,la,P,Q,t,CG(g),POS); }
    // routines without field: the C++ ones are no templates, hence macros below
    template<class...A> void xLAPACKPerm2MathPerm(A...a){ CALL; CH::LAPACKPerm2MathPerm(a...); }
    template<class...A> void xMathPerm2LAPACKPerm(A...a){ CALL; CH::MathPerm2LAPACKPerm(a...); }
    template<class...A> void xcomposePermutationsLLM(A...a){ CALL; CH::composePermutationsLLM(a...); }
    template<class...A> void xcomposePermutationsLLL(A...a){ CALL; CH::composePermutationsLLL(a...); }
    template<class...A> void xcomposePermutationsMLM(A...a){ CALL; CH::composePermutationsMLM(a...); }
    template<class...A> void xcyclic_shift_mathPerm(A...a){ CALL; CH::cyclic_shift_mathPerm(a...); }
    inline void xRankProfileFromLU(const Z* P,Z N,Z R,Z* rp,TAG g){ CALL; CH::RankProfileFromLU(P,N,R,rp,CG(g)); }
    template<class...A> Z xLeadingSubmatrixRankProfiles(A...a){ CALL; return CH::LeadingSubmatrixRankProfiles(a...); }
}
#define LAPACKPerm2MathPerm capi::xLAPACKPerm2MathPerm
#define MathPerm2LAPACKPerm capi::xMathPerm2LAPACKPerm
#define composePermutationsLLM capi::xcomposePermutationsLLM
#define composePermutationsLLL capi::xcomposePermutationsLLL
#define composePermutationsMLM capi::xcomposePermutationsMLM
#define cyclic_shift_mathPerm capi::xcyclic_shift_mathPerm
#define RankProfileFromLU capi::xRankProfileFromLU
#define LeadingSubmatrixRankProfiles capi::xLeadingSubmatrixRankProfiles
// qualified calls of the harnesses
namespace PK { using namespace FFPACK; using namespace capi; }
#define FFPACK PK
using namespace capi;

// permutations: C13
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#ifdef VCAPI
#include "capi.hpp"
#endif
using namespace vh; using namespace FFLAS; using namespace FFPACK;
typedef Ctx<VField> C; typedef C::E E;
#define TR(b) ((b)?FflasTrans:FflasNoTrans)
#define SD(b) ((b)?FflasLeft:FflasRight)
typedef ParSeqHelper::Parallel<CuttingStrategy::Block,StrategyParameter::Threads> ParT;
typedef ParSeqHelper::Parallel<CuttingStrategy::Recursive,StrategyParameter::Threads> ParR;
// the w-th LAPACK array of size n (digits in mixed radix) or a random one of a given kind
void lap(C& x,size_t* P,size_t n,long w,const S& kind){
    if (w>=0) { for(size_t i=0;i<n;i++){ P[i]=i+(size_t)(w%(long)(n-i)); w/=(long)(n-i); } return; }
    for(size_t i=0;i<n;i++) P[i]=i; if(!n) return;
    if (kind=="id") return;
    if (kind=="rot") { for(size_t i=0;i<n;i++) P[i]=n-1; return; }
    if (kind=="one") { size_t i=x.g.below(n); P[i]=i+x.g.below(n-i); return; }
    if (kind=="rev") { for(size_t i=0;i<n/2;i++) P[i]=n-1-i; return; }
    if (kind=="adj") { for(size_t i=0;i+1<n;i++) P[i]=i+x.g.below(2); return; }
    for(size_t i=0;i<n;i++) P[i]=i+x.g.below(n-i); }
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"), kind=c.s("kind"); long w=c.i("w",-1), form=c.i("form",0); size_t mis=c.i("mis",0), la=c.i("la",0), thr=c.i("thr",3);
    size_t m=c.i("m"), n=c.i("nn"), R=c.i("r",0); bool left=c.b("left"), ta=c.b("ta"); S d=c.s("d");
    Ev<C> e(x,op); e.a("m",m).a("n",n);
    if (op=="lap2math"||op=="math2lap") { IBuf P(n),Q(n); lap(x,P.p(),n,w,kind); 
        if (op=="math2lap") { std::vector<size_t> t(n); for(size_t i=0;i<n;i++)t[i]=i; for(size_t i=0;i<n;i++) std::swap(t[i],t[P.p()[i]]); for(size_t i=0;i<n;i++) P.p()[i]=t[i]; }
        e.o("P","P",P.off,1).o("Q","Q",Q.off,1).buf("P",P).buf("Q",Q); e.begin(); if (op=="lap2math") LAPACKPerm2MathPerm(Q.p(),P.p(),n); else MathPerm2LAPACKPerm(Q.p(),P.p(),n); e.end(); }
    else if (op=="compose") { // P1 of size n, P2 of size n-R
        if (R>n) R=n; IBuf P1(n),P2(n-R),Q(n); lap(x,P1.p(),n,w,kind); lap(x,P2.p(),n-R,c.i("w2",-1),c.s("kind2"));
        if (form==2) { std::vector<size_t> t(n); for(size_t i=0;i<n;i++)t[i]=i; for(size_t i=0;i<n;i++) std::swap(t[i],t[P1.p()[i]]); for(size_t i=0;i<n;i++) P1.p()[i]=t[i]; }
        e.a("r",R).a("form",form).o("P1","P1",P1.off,1).o("P2","P2",P2.off,1).o("Q","Q",Q.off,1).buf("P1",P1).buf("P2",P2).buf("Q",Q); e.begin();
        if (form==0) composePermutationsLLL(P1.p(),P2.p(),R,n); else if (form==1) composePermutationsLLM(Q.p(),P1.p(),P2.p(),R,n); else composePermutationsMLM(P1.p(),P2.p(),R,n); e.end(); }
    else if (op=="shiftperm") { IBuf P(n); for(size_t i=0;i<n;i++) P.p()[i]=x.g.below(1000); e.o("P","P",P.off,1).buf("P",P); e.begin(); if(n) cyclic_shift_mathPerm(P.p(),n); e.end(); }
    else if (op=="shift") { size_t lda=n+la; if(!lda)lda=1; Buf<C> A(x,m*lda,mis); A.fill(m,n,lda,d); e.a("form",form).o("A","A",A.off,lda).buf("A",A); e.begin();
        if (form==0) cyclic_shift_row(F,A.p(),m,n,lda); else if (form==1) cyclic_shift_col(F,A.p(),m,n,lda); else cyclic_shift_row_col(F,A.p(),m,n,lda); e.end(); }
    else if (op=="applyp"||op=="monapplyp") { // k = length of the permuted dimension, m = size of the vectors
        size_t k=n, rows=left?k:m, cols=left?m:k, lda=cols+la; if(!lda)lda=1; Buf<C> A(x,rows*lda,mis); A.fill(rows,cols,lda,d); IBuf P(k); lap(x,P.p(),k,w,kind);
        size_t ib=0, ie=k; if (op=="applyp") { ib=std::min<size_t>(c.i("ib",0),k); ie=k-std::min<size_t>(c.i("ie",0),k-ib); } else if (R>k) R=k;
        e.a("left",left).a("ta",ta).a("ib",ib).a("ie",ie).a("r",R).o("A","A",A.off,lda).o("P","P",P.off,1).buf("A",A).buf("P",P); e.begin();
        if (op=="monapplyp") MonotonicApplyP(F,SD(left),TR(ta),m,0,k,A.p(),lda,P.p(),R);
        else if (form==0) applyP(F,SD(left),TR(ta),m,ib,ie,A.p(),lda,P.p());
        else if (form==1) { ParSeqHelper::Sequential s; applyP(F,SD(left),TR(ta),m,ib,ie,A.p(),lda,P.p(),s); }
        else { ParT H(thr); PAR_BLOCK { applyP(F,SD(left),TR(ta),m,ib,ie,A.p(),lda,P.p(),H); } }
        e.end(); }
    else if (op=="apps"||op=="appt") { // block of height M2 cut at R1+R2, followed by R3+R4 (S); width N2 cut at R1, R3, followed by R2+R4 (T)
        size_t R1=c.i("r1"),R2=c.i("r2"),R3=c.i("r3"),R4=c.i("r4"),ex=c.i("ex",0), M2= op=="apps"?R1+R2+ex:R1+R3+ex, len=M2+(op=="apps"?R3+R4:R2+R4), width=m;
        size_t rows=op=="apps"?len:width, cols=op=="apps"?width:len, lda=cols+la; if(!lda)lda=1; Buf<C> A(x,rows*lda,mis); A.fill(rows,cols,lda,d);
        e.a("r1",R1).a("r2",R2).a("r3",R3).a("r4",R4).a("m2",M2).o("A","A",A.off,lda).buf("A",A); IBuf P(rows*lda); 
        if (form==3) { for(size_t i=0;i<rows*lda;i++) P.p()[i]=x.g.below(5000); e.o("I","I",P.off,lda).buf("I",P); }
        e.a("form",form).a("width",width); e.begin();
        if (op=="apps") { if (form==0) MatrixApplyS(F,A.p(),lda,width,M2,R1,R2,R3,R4); else if (form==1) PermApplyS(A.p(),lda,width,M2,R1,R2,R3,R4);
            else if (form==2) { ParT H(thr); PAR_BLOCK { MatrixApplyS(F,A.p(),lda,width,M2,R1,R2,R3,R4,H); } } else PermApplyS(P.p(),lda,width,M2,R1,R2,R3,R4); }
        else { if (form==0) MatrixApplyT(F,A.p(),lda,width,M2,R1,R2,R3,R4); else if (form==1) PermApplyT(A.p(),lda,width,M2,R1,R2,R3,R4);
            else if (form==2) { ParT H(thr); PAR_BLOCK { MatrixApplyT(F,A.p(),lda,width,M2,R1,R2,R3,R4,H); } } else PermApplyT(P.p(),lda,width,M2,R1,R2,R3,R4); }
        e.end(); }
}

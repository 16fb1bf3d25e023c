// parallel routines under a controlled scheduler (vomp.cpp): C14.  The events are those of the sequential routines:
// the specification of a parallel routine is that of the sequential one.
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "vomp.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#if PART==4
#include "fflas-ffpack/fflas/fflas_sparse.h"
#endif
using namespace vh; using namespace FFLAS; using namespace FFPACK;
typedef Ctx<VField> C; typedef C::E E;
#define UL(b) ((b)?FflasUpper:FflasLower)
#define TR(b) ((b)?FflasTrans:FflasNoTrans)
#define DG(b) ((b)?FflasUnit:FflasNonUnit)
#define SD(b) ((b)?FflasLeft:FflasRight)
#define ISMP (VT==VT_MI||VT==VT_ZI)
template<class Cut,class Par> using P_ = ParSeqHelper::Parallel<Cut,Par>;
namespace CS=CuttingStrategy; namespace SP=StrategyParameter;
template<class T> S jseq(const T* a,size_t n){ S o="["; for(size_t i=0;i<n;i++){ if(i)o+=","; put(o,a[i]>2000000000ull?2147483647L:(long)a[i]); } return o+"]"; }
static void go(const Case& c){ vomp_begin((uint64_t)c.i("seed",0)*1000003ull+c.i("n",0)*131ull+c.i("sch",0),c.i("nt",3),c.i("pre",0),c.i("defer",60),c.i("log",0)); }
static void sched(C& x,const Case& c){ if (!c.i("log",0)) return; S l=vomp_log(); if (l.empty()) return; Ev<C> e(x,"schedule"); e.raw("log",l).a("nt",c.i("nt",3)); e.begin(); e.end(); }

#if PART==1
template<class H> void mm(VField& F,H h,FFLAS_TRANSPOSE ta,FFLAS_TRANSPOSE tb,size_t m,size_t n,size_t k,E al,const E* A,size_t lda,const E* B,size_t ldb,E be,E* D,size_t ldc){ PAR_BLOCK { fgemm(F,ta,tb,m,n,k,al,A,lda,B,ldb,be,D,ldc,h); } }
#if !ISMP
template<class Ps> void mmw(VField& F,long w,Ps ps,FFLAS_TRANSPOSE ta,FFLAS_TRANSPOSE tb,size_t m,size_t n,size_t k,E al,const E* A,size_t lda,const E* B,size_t ldb,E be,E* D,size_t ldc){
    typedef typename ModeTraits<VField>::value Mode; MMHelper<VField,MMHelperAlgo::Winograd,Mode,Ps> H(F,w,ps); PAR_BLOCK { fgemm(F,ta,tb,m,n,k,al,A,lda,B,ldb,be,D,ldc,H); } }
#endif
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; long form=c.i("form"), th=c.i("th",3), w=c.i("w",0);
    bool ta=c.b("ta"), tb=c.b("tb"); size_t m=c.i("m"), n=c.i("nn"), k=c.i("k");
    size_t ra=ta?k:m, ca=ta?m:k, rb=tb?n:k, cb=tb?k:n;
    size_t lda=ca+c.i("la"), ldb=cb+c.i("lb"), ldc=n+c.i("lc"); if(!lda)lda=1; if(!ldb)ldb=1; if(!ldc)ldc=1;
    Buf<C> A(x,ra*lda), B(x,rb*ldb), D(x,m*ldc); A.fill(ra,ca,lda,c.s("dA")); B.fill(rb,cb,ldb,c.s("dB")); D.fill(m,n,ldc,c.s("dC"));
    E al=x.scal(c.s("al")), be=x.scal(c.s("be"));
    Ev<C> e(x,"fgemm"); e.a("ta",ta).a("tb",tb).a("m",m).a("n",n).a("k",k).a("lda",lda).a("ldb",ldb).a("ldc",ldc).a("oa",A.off).a("ob",B.off).a("oc",D.off).e("alpha",al).e("beta",be).a("form",form).a("w",w).a("th",th);
    e.buf("A",A).buf("B",B).buf("C",D); e.begin(); go(c);
#define ARGS TR(ta),TR(tb),m,n,k,al,A.p(),lda,B.p(),ldb,be,D.p(),ldc
    if (form==0) pfgemm(F,ARGS,th);
    else if (form==1) mm(F,P_<CS::Block,SP::Threads>(th),ARGS);
    else if (form==2) mm(F,P_<CS::Recursive,SP::TwoDAdaptive>(th),ARGS);
    else if (form==3) mm(F,P_<CS::Recursive,SP::TwoD>(th),ARGS);
    else if (form==4) mm(F,P_<CS::Recursive,SP::ThreeD>(th),ARGS);
    else if (form==5) mm(F,P_<CS::Recursive,SP::ThreeDInPlace>(th),ARGS);
    else if (form==6) mm(F,P_<CS::Recursive,SP::ThreeDAdaptive>(th),ARGS);
#if !ISMP
    else if (form==7) mmw(F,w,P_<CS::Block,SP::Threads>(th),ARGS);
    else if (form==8) mmw(F,w,P_<CS::Recursive,SP::TwoDAdaptive>(th),ARGS);
    else if (form==9) mmw(F,w,P_<CS::Recursive,SP::ThreeDAdaptive>(th),ARGS);
#ifdef WPAR
    else if (form==10) { typedef typename ModeTraits<VField>::value Mode; MMHelper<VField,MMHelperAlgo::WinogradPar,Mode,P_<CS::Recursive,SP::TwoDAdaptive>> H(F,w,P_<CS::Recursive,SP::TwoDAdaptive>(th)); PAR_BLOCK { fgemm(F,ARGS,H); } }
#endif
#endif
    else { fprintf(stderr,"form\n"); exit(2); }
    e.end(); sched(x,c);
}
#endif

#if PART==2
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"); long form=c.i("form"), th=c.i("th",3); size_t m=c.i("m"), n=c.i("nn"), k=c.i("k");
    bool ta=c.b("ta"), up=c.b("up"), left=c.b("left"), unit=c.b("unit"); E al=x.scal(c.s("al")), be=x.scal(c.s("be"));
    if (op=="fgemv") { size_t lda=n+c.i("la"); if(!lda)lda=1; size_t ix=1+c.i("lb"), iy=1+c.i("lc"); size_t lx=ta?m:n, ly=ta?n:m;
        Buf<C> A(x,m*lda), X(x,lx*ix), Y(x,ly*iy); A.fill(m,n,lda,c.s("dA")); X.fillv(lx,ix,c.s("dB")); Y.fillv(ly,iy,c.s("dC"));
        Ev<C> e(x,op); e.a("ta",ta).a("m",m).a("n",n).e("alpha",al).e("beta",be).o("A","A",A.off,lda).o("X","X",X.off,ix).o("Y","Y",Y.off,iy); e.buf("A",A).buf("X",X).buf("Y",Y); e.begin(); go(c); bool ok=true;
        if (form==0) { P_<CS::Recursive,SP::Threads> h(th); PAR_BLOCK { ok=fgemv(F,TR(ta),m,n,al,A.p(),lda,X.p(),ix,be,Y.p(),iy,h)==Y.p(); } }
        else if (form==1) { P_<CS::Row,SP::Threads> h(th); PAR_BLOCK { ok=fgemv(F,TR(ta),m,n,al,A.p(),lda,X.p(),ix,be,Y.p(),iy,h)==Y.p(); } }
        else { P_<CS::Row,SP::Grain> h(th); PAR_BLOCK { ok=fgemv(F,TR(ta),m,n,al,A.p(),lda,X.p(),ix,be,Y.p(),iy,h)==Y.p(); } }
        e.endB(ok); sched(x,c); }
    else if (op=="fdot") { size_t la=1+c.i("la"), lb=1+c.i("lb"); Buf<C> A(x,m*la), B(x,m*lb); A.fillv(m,la,c.s("dA")); B.fillv(m,lb,c.s("dB")); Ev<C> e(x,op); e.a("m",m).a("n",(long)1).o("A","A",A.off,la).o("B","B",B.off,lb).buf("A",A).buf("B",B); e.begin(); go(c); E r;
        if (form==0) { P_<CS::Block,SP::Threads> h(th); r=fdot(F,m,A.p(),la,B.p(),lb,h); } else if (form==1) { P_<CS::Recursive,SP::Threads> h(th); r=fdot(F,m,A.p(),la,B.p(),lb,h); } else { P_<CS::Row,SP::Threads> h(th); r=fdot(F,m,A.p(),la,B.p(),lb,h); }
        e.endE(r); sched(x,c); }
    else if (op=="fzero") { Buf<C> A(x,m*n); A.fill(m,n,n,c.s("dA")); Ev<C> e(x,op); e.a("m",m).a("n",n).o("A","A",A.off,n).buf("A",A); e.begin(); go(c); PAR_BLOCK { pfzero(F,m,n,A.p(),th); } e.end(); sched(x,c); }
    else if (op=="ftrsm") { size_t na=left?m:n, lda=na+c.i("la"), ldb=n+c.i("lb"); if(!lda)lda=1; if(!ldb)ldb=1; Buf<C> A(x,na*lda), B(x,m*ldb); A.fill(na,na,lda,c.s("dA")); B.fill(m,n,ldb,c.s("dB")); if (!unit) for(size_t i=0;i<na;i++) A.p()[i*lda+i]=x.scal("r");
        Ev<C> e(x,op); e.a("left",left).a("up",up).a("ta",ta).a("unit",unit).a("m",m).a("n",n).e("alpha",al).o("A","A",A.off,lda).o("B","B",B.off,ldb).buf("A",A).buf("B",B); e.begin(); go(c);
        if (form==0) { P_<CS::Block,SP::Threads> h(th); PAR_BLOCK { ftrsm(F,SD(left),UL(up),TR(ta),DG(unit),m,n,al,A.p(),lda,B.p(),ldb,h); } }
        else if (form==1) { P_<CS::Block,SP::Threads> h(th); TRSMHelper<StructureHelper::Iterative,P_<CS::Block,SP::Threads>> H(h); PAR_BLOCK { ftrsm(F,SD(left),UL(up),TR(ta),DG(unit),m,n,al,A.p(),lda,B.p(),ldb,H); } }
        else if (form==2) { P_<CS::Block,SP::Threads> h(th); TRSMHelper<StructureHelper::Hybrid,P_<CS::Block,SP::Threads>> H(h); PAR_BLOCK { ftrsm(F,SD(left),UL(up),TR(ta),DG(unit),m,n,al,A.p(),lda,B.p(),ldb,H); } }
        else { P_<CS::Block,SP::Threads> h(th); TRSMHelper<StructureHelper::Recursive,P_<CS::Block,SP::Threads>> H(h); PAR_BLOCK { ftrsm(F,SD(left),UL(up),TR(ta),DG(unit),m,n,al,A.p(),lda,B.p(),ldb,H); } }
        e.end(); sched(x,c); }
    else if (op=="fsyrkd") { size_t ar=ta?k:n, ac=ta?n:k, lda=ac+c.i("la"), ldc=n+c.i("lc"); if(!lda)lda=1; if(!ldc)ldc=1; size_t id=1+c.i("lb"); Buf<C> A(x,ar*lda), D(x,k*id), R(x,n*ldc); A.fill(ar,ac,lda,c.s("dA")); R.fill(n,n,ldc,"rand"); D.fillv(k,id,"rand"); std::vector<bool> two(k,false);
        S tj="["; for(size_t i=0;i<k;i++){ if(i)tj+=","; tj+="false"; } tj+="]";
        Ev<C> e(x,op); e.a("up",up).a("ta",ta).a("n",n).a("k",k).e("alpha",al).e("beta",be).o("A","A",A.off,lda).o("C","C",R.off,ldc).o("D","D",D.off,id).raw("two",tj).buf("A",A).buf("D",D).buf("C",R); e.begin(); go(c); size_t t=c.i("bc",3);
        if (form==0) { P_<CS::Block,SP::Threads> h(th); PAR_BLOCK { fsyrk(F,UL(up),TR(ta),n,k,al,A.p(),lda,D.p(),id,be,R.p(),ldc,h,t); } } else { P_<CS::Recursive,SP::Threads> h(th); PAR_BLOCK { fsyrk(F,UL(up),TR(ta),n,k,al,A.p(),lda,D.p(),id,be,R.p(),ldc,P_<CS::Block,SP::Threads>(th),t); } }
        e.end(); sched(x,c); }
    else if (op=="fsytrf") { size_t lda=n+c.i("la"); if(!lda)lda=1; Buf<C> A(x,n*lda); fillSym(x,A,n,lda,c.s("sk"),c.s("dA")); Ev<C> e(x,op); e.a("up",up).a("n",n).o("A","A",A.off,lda).buf("A",A); e.begin(); go(c); bool r=false; size_t t=std::max(2L,c.i("bc",3)); P_<CS::Block,SP::Threads> h(th);
        PAR_BLOCK { r=FFPACK::fsytrf(F,UL(up),n,A.p(),lda,h,t); } e.endB(r); sched(x,c); }
    else if (op=="applyp") { size_t kk=n, rows=left?kk:m, cols=left?m:kk, lda=cols+c.i("la"); if(!lda)lda=1; Buf<C> A(x,rows*lda); A.fill(rows,cols,lda,c.s("dA")); IBuf P(kk); for(size_t i=0;i<kk;i++) P.p()[i]=i+x.g.below(kk-i);
        Ev<C> e(x,op); e.a("m",m).a("n",n).a("left",left).a("ta",ta).a("ib",(long)0).a("ie",kk).a("r",(long)0).o("A","A",A.off,lda).o("P","P",P.off,1).buf("A",A).buf("P",P); e.begin(); go(c); P_<CS::Block,SP::Threads> H(th); PAR_BLOCK { applyP(F,SD(left),TR(ta),m,0,kk,A.p(),lda,P.p(),H); } e.end(); sched(x,c); }
    else if (op=="apps"||op=="appt") { size_t R1=c.i("r1"),R2=c.i("r2"),R3=c.i("r3"),R4=c.i("r4"),ex=c.i("ex",0), M2= op=="apps"?R1+R2+ex:R1+R3+ex, len=M2+(op=="apps"?R3+R4:R2+R4), width=m; size_t rows=op=="apps"?len:width, cols=op=="apps"?width:len, lda=cols+c.i("la"); if(!lda)lda=1; Buf<C> A(x,rows*lda); A.fill(rows,cols,lda,c.s("dA"));
        Ev<C> e(x,op); e.a("m",m).a("n",n).a("r1",R1).a("r2",R2).a("r3",R3).a("r4",R4).a("m2",M2).o("A","A",A.off,lda).buf("A",A).a("form",(long)2).a("width",width); e.begin(); go(c); P_<CS::Block,SP::Threads> H(th);
        if (op=="apps") { PAR_BLOCK { MatrixApplyS(F,A.p(),lda,width,M2,R1,R2,R3,R4,H); } } else { PAR_BLOCK { MatrixApplyT(F,A.p(),lda,width,M2,R1,R2,R3,R4,H); } } e.end(); sched(x,c); }
    else if (op=="pfadd"||op=="pfsub"||op=="pfaddin"||op=="pfsubin") { size_t la=n+c.i("la"), lb=n+c.i("lb"), lc=n+c.i("lc"); if(!la)la=1; if(!lb)lb=1; if(!lc)lc=1; Buf<C> A(x,m*la), B(x,m*lb), D(x,m*lc); A.fill(m,n,la,c.s("dA")); B.fill(m,n,lb,c.s("dB")); D.fill(m,n,lc,c.s("dC"));
        bool in= op=="pfaddin"||op=="pfsubin"; Ev<C> e(x,op); e.a("m",m).a("n",n).e("alpha",al).o("A","A",A.off,la).o("B","B",B.off,lb).o("C","C",D.off,lc).buf("A",A).buf("B",B).buf("C",D); e.begin(); go(c);
        if (op=="pfadd") { PAR_BLOCK { pfadd(F,m,n,A.p(),la,B.p(),lb,D.p(),lc,th); } } else if (op=="pfsub") { PAR_BLOCK { pfsub(F,m,n,A.p(),la,B.p(),lb,D.p(),lc,th); } }
        else if (op=="pfaddin") { PAR_BLOCK { pfaddin(F,m,n,A.p(),la,D.p(),lc,th); } } else { PAR_BLOCK { pfsubin(F,m,n,A.p(),la,D.p(),lc,th); } }
        e.end(); sched(x,c); }
}
#endif

#if PART==3
S jmat(C& x,VField::ConstElement_ptr a,size_t m,size_t n,size_t ld){ S o="["; for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ if(i+j)o+=","; putE<E>(o,a[i*ld+j],x.wide); } return o+"]"; }
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"), kind=c.s("kind"), d=c.s("d"); long form=c.i("form"), th=c.i("th",3); size_t m=c.i("m"), n=c.i("nn"); bool row=c.b("row"), unit=c.b("unit"), red=c.b("red"), tr=c.b("tr"); size_t bc=c.i("bc",0);
    if (op=="det"||op=="solve") m=n; size_t lda=n+c.i("la"); if(!lda)lda=1;
    if (op=="pluq") { Buf<C> A(x,m*lda); put(A,genMat(x,m,n,kind,d),lda); IBuf P(m),Q(n); Ev<C> e(x,op); e.a("m",m).a("n",n).a("row",row).a("ta",row).a("unit",unit).o("A","A",A.off,lda).buf("A",A).a("reveal",form==0).o("P","P",P.off,1).o("Q","Q",Q.off,1).buf("P",P).buf("Q",Q); e.begin(); go(c); size_t r=0;
        P_<CS::Recursive,SP::Threads> h(th);
        if (form==0) { PAR_BLOCK { r=PLUQ(F,DG(unit),m,n,A.p(),lda,P.p(),Q.p(),h); } } else r=pPLUQ(F,DG(unit),m,n,A.p(),lda,P.p(),Q.p());
        e.endN(r); sched(x,c); }
    else if (op=="rank"||op=="det") { Buf<C> A(x,m*lda); put(A,genMat(x,m,n,kind,d),lda); Ev<C> e(x,op); e.a("m",m).a("n",n).o("A","A",A.off,lda).buf("A",A); e.begin(); go(c);
        if (op=="rank") { long r=pRank(F,m,n,A.p(),lda,th); e.endN(r); } else { E dd=x.scal("R"); if (form) { std::vector<size_t> P(n+1),Q(n+1); pDet(F,dd,n,A.p(),lda,th,P.data(),Q.data()); } else pDet(F,dd,n,A.p(),lda,th); e.endE(dd); } sched(x,c); }
    else if (op=="solve") { size_t ix=1+c.i("lb"), ib=1+c.i("lc"); Buf<C> A(x,n*lda), X(x,n*ix), b(x,n*ib); put(A,genMat(x,n,n,kind=="rpm"||kind=="rand"||kind=="rev"?"full":kind,d),lda); b.fillv(n,ib,"rand");
        Ev<C> e(x,op); e.a("n",n).o("A","A",A.off,lda).o("x","x",X.off,ix).o("b","b",b.off,ib).buf("A",A).buf("x",X).buf("b",b); e.begin(); go(c);
        std::streambuf* o=std::cerr.rdbuf(nullptr); pSolve(F,n,A.p(),lda,X.p(),(int)ix,b.p(),(int)ib,th); std::cerr.rdbuf(o); std::cerr.clear(); e.end(); sched(x,c); }
    else if (op=="rankprofile") { Buf<C> A(x,m*lda); put(A,genMat(x,m,n,kind,d),lda); FFPACK_LU_TAG tag=form?FfpackSlabRecursive:FfpackTileRecursive; Ev<C> e(x,op); e.a("m",m).a("n",n).a("row",row).a("ta",row).a("unit",unit).o("A","A",A.off,lda).buf("A",A); e.begin(); go(c);
        size_t* rp=0; size_t r= row? pRowRankProfile(F,m,n,A.p(),lda,rp,th,tag): pColumnRankProfile(F,m,n,A.p(),lda,rp,th,tag);
        e.end("{\"rank\":"+std::to_string(r)+",\"rp\":"+jseq(rp,r)+"}"); fflas_delete(rp); sched(x,c); }
    else if (op=="echelon") { FFPACK_LU_TAG tag=FfpackTileRecursive; size_t dim=row?m:n, lde=n+c.i("lb"), ldt=dim+c.i("lc"); if(!lde)lde=1; if(!ldt)ldt=1; Buf<C> A(x,m*lda), Eb(x,m*lde), T(x,dim*ldt); put(A,genMat(x,m,n,kind,d),lda); IBuf P(row?m:n), Q(row?n:m);
        Ev<C> e(x,"echelon"); e.a("m",m).a("n",n).a("row",row).a("red",red).a("tr",tr).a("only",false).a("inpl",false).a("tag",(long)1).o("A","A",A.off,lda).o("E","E",Eb.off,lde).o("T","T",T.off,ldt).buf("A",A).buf("E",Eb).buf("T",T); e.begin(); go(c); size_t r; FFLAS_UPLO ul=row?FflasUpper:FflasLower;
        if (red) r= row?pReducedRowEchelonForm(F,m,n,A.p(),lda,P.p(),Q.p(),tr,th,tag):pReducedColumnEchelonForm(F,m,n,A.p(),lda,P.p(),Q.p(),tr,th,tag);
        else r= row?pRowEchelonForm(F,m,n,A.p(),lda,P.p(),Q.p(),tr,th,tag):pColumnEchelonForm(F,m,n,A.p(),lda,P.p(),Q.p(),tr,th,tag);
        if (r>std::min(m,n)) { e.end("{\"rank\":999999,\"piv\":[]}"); return; }
        if (red) { getReducedEchelonForm(F,ul,m,n,r,Q.p(),A.p(),lda,Eb.p(),lde,false,tag); if (tr) getReducedEchelonTransform(F,ul,m,n,r,P.p(),Q.p(),A.p(),lda,T.p(),ldt,tag); }
        else { getEchelonForm(F,ul,FflasUnit,m,n,r,Q.p(),A.p(),lda,Eb.p(),lde,false,tag); if (tr) getEchelonTransform(F,ul,FflasUnit,m,n,r,P.p(),Q.p(),A.p(),lda,T.p(),ldt,tag); }
        std::vector<size_t> rp(std::min(m,n)+1); RankProfileFromLU(Q.p(),row?n:m,r,rp.data(),tag); std::sort(rp.begin(),rp.begin()+r);
        e.end("{\"rank\":"+std::to_string(r)+",\"piv\":"+jseq(rp.data(),r)+"}"); sched(x,c); }
}
#endif

#if PART==4
template<SparseMatrix_t f,bool ZO,bool MM> struct Run {
    template<class SM> static void domm(C& x,SM& A,size_t bs,Buf<C>& X,size_t ldx,const E& be,Buf<C>& Y,size_t ldy,std::true_type){ pfspmm(x.F,A,bs,X.p(),(int)ldx,be,Y.p(),(int)ldy); }
    template<class SM> static void domm(C&,SM&,size_t,Buf<C>&,size_t,const E&,Buf<C>&,size_t,std::false_type){ fprintf(stderr,"no pfspmm\n"); exit(2); }
    template<class SM> static void cst(SM&,const E&,std::false_type){}
    template<class SM> static void cst(SM& A,const E& v,std::true_type){ A.cst=v; }
    static void run(const Case& c,C& x,Ev<C>& e,std::vector<uint64_t>& r,std::vector<uint64_t>& cl,Buf<C>& V,Buf<C>& X,Buf<C>& Y,size_t m,size_t n,size_t bs,size_t ldx,size_t ldy,const E& be,const E& cs,bool mm){
        Sparse<VField,f> A; sparse_init(x.F,A,r.data(),cl.data(),V.p(),m,n,r.size()); cst(A,cs,std::integral_constant<bool,ZO>());
        e.begin(); go(c);
        domm(x,A,bs,X,ldx,be,Y,ldy,std::integral_constant<bool,MM>());
        S o="["; put(o,(long)A.m); o+=","; put(o,(long)A.n); o+=","; put(o,(long)A.nnz); o+=",[]]"; e.end(o); sparse_delete(A); } };
void runCase(const Case& c){
    C x(c,VTNAME); S op=c.s("op"); long fmt=c.i("fmt"); size_t m=c.i("m"), n=c.i("nn"), bs=c.i("bs"); S d=c.s("d"), pat=c.s("pat"); bool mm=op=="spmm", zo=c.b("zo"); std::vector<uint64_t> tr,tc; size_t full=x.g.below(m+1);
    for(size_t i=0;i<m;i++){ size_t cnt; if (pat=="empty") cnt=0; else if (pat=="dense") cnt=n; else if (pat=="few") cnt=x.g.below(std::min<size_t>(n,3)+1); else if (pat=="onerow") cnt= i==full?n:0; else cnt=x.g.below(n+1);
        std::vector<size_t> s=rperm(x.g,n); s.resize(std::min(cnt,n)); std::sort(s.begin(),s.end()); for(size_t j:s){ tr.push_back(i); tc.push_back(j); } }
    size_t nz=tr.size(); E be=x.scal(c.s("be")), cs= zo?x.scal(c.s("cs")):x.F.one; Buf<C> V(x,nz); for(size_t i=0;i<nz;i++){ if (zo) V.p()[i]=cs; else { Integer v=x.gen(d); if (c.i("pm",0)&&x.g.below(3)) v= x.g.below(2)?Integer(1):Integer(-1); V.set(i,v); } }
    size_t ldx= mm?bs+c.i("la",0):1, ldy= mm?bs+c.i("lb",0):1, w= mm?bs:1; Buf<C> X(x,n*ldx), Y(x,m*ldy); X.fill(n,w,ldx,c.s("dx")); Y.fill(m,w,ldy,c.s("dy"));
    Ev<C> e(x,"sparse"); e.a("m",m).a("n",n).a("w",w).a("fmt",fmt).a("simd",false).raw("row",jseq(tr.data(),nz)).raw("col",jseq(tc.data(),nz)).e("beta",be).o("V","V",V.off,1).o("X","X",X.off,ldx).o("Y","Y",Y.off,ldy).buf("V",V).buf("X",X).buf("Y",Y);
#define GO(k,FF,ZZ,MM) if (fmt==k) Run<SparseMatrix_t::FF,ZZ,MM>::run(c,x,e,tr,tc,V,X,Y,m,n,bs,ldx,ldy,be,cs,mm)
    GO(0,CSR,false,true);
#ifdef ZOMM
    GO(6,CSR_ZO,true,true);
#endif
}
#endif

// rank, determinant, inverse (C10); systems and nullspaces (C11)
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#ifdef VCAPI
#include "capi.hpp"
#endif
using namespace vh; using namespace FFLAS; using namespace FFPACK;
typedef Ctx<VField> C; typedef C::E E;
#define SD(b) ((b)?FflasLeft:FflasRight)
S jmat(C& x,VField::ConstElement_ptr a,size_t m,size_t n,size_t ld){ S o="["; for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ if(i+j)o+=","; putE<E>(o,a[i*ld+j],x.wide); } return o+"]"; }
#ifdef DET_ONLY
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; size_t n=c.i("nn"), lda=n+c.i("la"); if(!lda)lda=1; Buf<C> A(x,n*lda,c.i("mis",0)); put(A,genMat(x,n,n,c.s("kind"),c.s("d")),lda);
    Ev<C> e(x,"det"); e.a("m",n).a("n",n).o("A","A",A.off,lda).buf("A",A); e.begin(); E dd=x.scal("R"); Det(F,dd,n,A.p(),lda); e.endE(dd); }
#else
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"), kind=c.s("kind"), d=c.s("d"); size_t mis=c.i("mis",0);
    bool left=c.b("left"); long form=c.i("form");
    size_t m=c.i("m"), n=c.i("nn"), k=c.i("k"); size_t la=c.i("la"), lb=c.i("lb"), lc=c.i("lc");
    if (op=="rank"||op=="issingular"||op=="det") { if (op=="det"||(op=="issingular"&&form)) m=n; size_t lda=n+la; if(!lda)lda=1;
        Buf<C> A(x,m*lda,mis); put(A,genMat(x,m,n,kind,d),lda); Ev<C> e(x,op); e.a("m",m).a("n",n).o("A","A",A.off,lda).buf("A",A); e.begin();
        if (op=="rank") { if (form) e.endN(Rank(F,m,n,A.p(),lda,ParSeqHelper::Sequential())); else e.endN(Rank(F,m,n,A.p(),lda)); }
        else if (op=="issingular") e.endB(IsSingular(F,m,n,A.p(),lda));
        else { E dd=x.scal("R"); if (form) { std::vector<size_t> P(n+1),Q(n+1); Det(F,dd,n,A.p(),lda,P.data(),Q.data()); } else Det(F,dd,n,A.p(),lda); e.endE(dd); } }
    else if (op=="invert") { size_t lda=n+la, ldx=n+lb; if(!lda)lda=1; if(!ldx)ldx=1; Buf<C> A(x,n*lda,mis), X(x,n*ldx,0); put(A,genMat(x,n,n,kind,d),lda);
        Ev<C> e(x,op); e.a("n",n).a("form",form).o("A","A",A.off,lda).o("X","X",X.off,ldx).buf("A",A).buf("X",X); e.begin(); int nul=-7;
        if (form==0) Invert(F,n,A.p(),lda,nul); else if (form==1) { VField::ConstElement_ptr cA=A.p(); Invert(F,n,cA,lda,X.p(),ldx,nul); } else Invert2(F,n,A.p(),lda,X.p(),ldx,nul);
        e.endN(nul); }
    else if (op=="fgesv"||op=="fgetrs") { size_t N=left?m:n, lda=N+la, ldb=n+lb; if(!lda)lda=1; if(!ldb)ldb=1; Buf<C> A(x,N*lda,mis), B(x,m*ldb,0);
        IM MA=genMat(x,N,N,kind,d); put(A,MA,lda); IM MB; if (c.b("cons")) { IM Y=genMat(x,m,n,"rand","rand"); MB= left?imul(x,MA,Y):imul(x,Y,MA); if (!N) MB=genMat(x,m,n,"zero",d); } else MB=genMat(x,m,n,"rand",d); if(m&&n) put(B,MB,ldb);
        Ev<C> e(x,op); e.a("m",m).a("n",n).a("left",left).o("A","A",A.off,lda).o("B","B",B.off,ldb).buf("A",A).buf("B",B); int info=-7; size_t r;
        if (op=="fgesv") { e.begin(); r=fgesv(F,SD(left),m,n,A.p(),lda,B.p(),ldb,&info); }
        else { e.raw("orig",jmat(x,A.p(),N,N,lda)); std::vector<size_t> P(N+1),Q(N+1); r=PLUQ(F,FflasNonUnit,N,N,A.p(),lda,P.data(),Q.data()); e.begin(); fgetrs(F,SD(left),m,n,r,A.p(),lda,P.data(),Q.data(),B.p(),ldb,&info); }
        e.end("{\"info\":"+std::to_string(info)+",\"rank\":"+std::to_string(r)+"}"); }
    else if (op=="fgesv2"||op=="fgetrs2") { size_t lda=n+la; size_t bm=left?m:k, bn=left?k:n, xm=left?n:k, xn=left?k:m, ldb=bn+lb, ldx=xn+lc; if(!lda)lda=1; if(!ldb)ldb=1; if(!ldx)ldx=1;
        Buf<C> A(x,m*lda,mis), B(x,bm*ldb,0), X(x,xm*ldx,0); IM MA=genMat(x,m,n,kind,d); put(A,MA,lda); IM MB;
        if (c.b("cons")) { IM Y=genMat(x,xm,xn,"rand","rand"); MB= left?imul(x,MA,Y):imul(x,Y,MA); if (MB.size()!=bm||(bm&&MB[0].size()!=bn)) MB=genMat(x,bm,bn,"zero",d); } else MB=genMat(x,bm,bn,"rand",d); put(B,MB,ldb);
        Ev<C> e(x,op); e.a("m",m).a("n",n).a("k",k).a("left",left).o("A","A",A.off,lda).o("B","B",B.off,ldb).o("X","X",X.off,ldx).buf("A",A).buf("B",B).buf("X",X); int info=-7; size_t r;
        if (op=="fgesv2") { e.begin(); r=fgesv(F,SD(left),m,n,k,A.p(),lda,X.p(),ldx,B.p(),ldb,&info); }
        else { e.raw("orig",jmat(x,A.p(),m,n,lda)); std::vector<size_t> P(m+1),Q(n+1); r=PLUQ(F,FflasNonUnit,m,n,A.p(),lda,P.data(),Q.data()); e.begin(); fgetrs(F,SD(left),m,n,k,r,A.p(),lda,P.data(),Q.data(),X.p(),ldx,B.p(),ldb,&info); }
        e.end("{\"info\":"+std::to_string(info)+",\"rank\":"+std::to_string(r)+"}"); }
    else if (op=="solve") { size_t lda=n+la, ix=1+lb, ib=1+lc; if(!lda)lda=1; Buf<C> A(x,n*lda,mis), X(x,n*ix,0), b(x,n*ib,0); put(A,genMat(x,n,n,kind=="rpm"||kind=="rand"||kind=="rev"?"full":kind,d),lda); b.fillv(n,ib,"rand");
        Ev<C> e(x,op); e.a("n",n).o("A","A",A.off,lda).o("x","x",X.off,ix).o("b","b",b.off,ib).buf("A",A).buf("x",X).buf("b",b); e.begin();
        std::streambuf* o=std::cerr.rdbuf(nullptr); Solve(F,n,A.p(),lda,X.p(),(int)ix,b.p(),(int)ib); std::cerr.rdbuf(o); std::cerr.clear(); e.end(); }
    else if (op=="solvelb") { size_t N=left?m:n, ldl=N+la, ldb=n+lb; if(!ldl)ldl=1; if(!ldb)ldb=1; Buf<C> L(x,N*ldl,mis), B(x,m*ldb,0); L.fill(N,N,ldl,"rand"); for(size_t i=0;i<N;i++)for(size_t j=0;j<i;j++) L.p()[i*ldl+j]=F.zero; B.fill(m,n,ldb,d);
        std::vector<size_t> all=rperm(x.g,N); size_t r=N?x.g.below(N+1):0; if (kind=="grp"||kind=="full") { for(size_t i=0;i<N;i++) all[i]=i; } std::vector<size_t> q(all.begin(),all.begin()+r); std::sort(q.begin(),q.end());
        for(size_t j=0;j<r;j++) for(size_t i=q[j]+1;i<N;i++) L.set(i*ldl+j,x.gen(d));
        S qs="["; for(size_t j=0;j<r;j++){ if(j)qs+=","; put(qs,(long)q[j]); } qs+="]"; q.push_back(0);
        Ev<C> e(x,op); e.a("m",m).a("n",n).a("left",left).a("r",r).a("form",form&1).raw("q",qs).o("L","L",L.off,ldl).o("B","B",B.off,ldb).buf("L",L).buf("B",B); e.begin();
        if (form&1) solveLB2(F,SD(left),m,n,r,L.p(),ldl,q.data(),B.p(),ldb); else solveLB(F,SD(left),m,n,r,L.p(),ldl,q.data(),B.p(),ldb); e.end(); }
    else if (op=="nullbasis") { size_t lda=n+la; if(!lda)lda=1; Buf<C> A(x,m*lda,mis); put(A,genMat(x,m,n,kind,d),lda); Ev<C> e(x,op); e.a("m",m).a("n",n).a("left",left).o("A","A",A.off,lda).buf("A",A); e.begin();
        VField::Element_ptr NS=0; size_t ldn=0,dim=0; size_t rr=NullSpaceBasis(F,SD(left),m,n,A.p(),lda,NS,ldn,dim); if (rr!=dim) dim=999999;
        S v= dim==999999||dim==0?S("[]"): left?jmat(x,NS,dim,m,ldn):jmat(x,NS,n,dim,ldn); e.end("{\"dim\":"+std::to_string(dim)+",\"NS\":"+v+"}"); fflas_delete(NS); }
    else if (op=="nullvec") { size_t lda=n+la, len=left?m:n, ix=1+lb; if(!lda)lda=1; Buf<C> A(x,m*lda,mis), X(x,len*ix,0); put(A,genMat(x,m,n,kind,d),lda); Ev<C> e(x,op); e.a("m",m).a("n",n).a("left",left).o("A","A",A.off,lda).o("x","x",X.off,ix).buf("A",A).buf("x",X); e.begin();
        RandomNullSpaceVector(F,SD(left),m,n,A.p(),lda,X.p(),ix); e.end(); }
}
#endif

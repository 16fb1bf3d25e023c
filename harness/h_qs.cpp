// quasi-separable matrices: Bruhat generators and SSS generators: C20
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
using namespace vh; using namespace FFLAS; using namespace FFPACK;
typedef Ctx<VField> C; typedef C::E E;
#define DG(b) ((b)?FflasUnit:FflasNonUnit)
static S jseq(const size_t* a,size_t n){ S o="["; for(size_t i=0;i<n;i++){ if(i)o+=","; put(o,a[i]>2000000000ull?2147483647L:(long)a[i]); } return o+"]"; }
static S jel(C& x,const E* a,size_t m,size_t n,size_t ld){ S o="["; for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ if(i||j)o+=","; putE<E>(o,a[i*ld+j],x.wide); } return o+"]"; }
// left triangular n x n of kind: "dense", "qs" (random pivots in the left triangle), "thin" (few pivots), "zero", "anti" (pivots on the first antidiagonal)
static IM ltMat(C& x,size_t n,const S& kind,const S& d){
    IM M(n,std::vector<Integer>(n,Integer(0)));
    if (kind=="zero") return M;
    if (kind=="dense") M=genMat(x,n,n,"rand",d);
    else if (kind=="long") { // many pivots, small order, some of them living across many blocks
        size_t lim=2+x.g.below(3); std::vector<size_t> cnt(n,0); std::vector<bool> ur(n,false),uc(n,false);
        auto tryp=[&](size_t i,size_t j){ if (i+j+2>n||ur[i]||uc[j]) return; for(size_t l=i;l+j+2<=n;l++) if(cnt[l]>=lim) return; for(size_t l=i;l+j+2<=n;l++) cnt[l]++; ur[i]=uc[j]=true; M[i][j]=inz(x); };
        for(size_t q=0;q+1<lim;q++) tryp(x.g.below(1+n/3),x.g.below(1+n/3));
        std::vector<size_t> a=rperm(x.g,n); for(size_t q=0;q<n;q++) { size_t i=a[q]; if (i+2<=n) { size_t sh=x.g.below(3); tryp(i, n-2-i>=sh?n-2-i-sh:0); } }
        M=imul(x,imul(x,ilow(x,n,d),M),itr(ilow(x,n,d))); }
    else { std::vector<size_t> a=rperm(x.g,n), b=rperm(x.g,n); size_t lim= kind=="thin"?1+x.g.below(3):n, c=0;
        if (kind=="anti") { for(size_t i=0;i+1<n;i++) if(x.g.below(3)) M[i][n-2-i]=inz(x); }
        else for(size_t i=0;i<n&&c<lim;i++) if(a[i]+b[i]+2<=n) { M[a[i]][b[i]]=inz(x); c++; }
        M=imul(x,imul(x,ilow(x,n,d),M),itr(ilow(x,n,d))); }
    for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++) if(i+j+2>n) M[i][j]=0;
    return M; }
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"), d=c.s("d"); bool unit=c.b("unit"); size_t n=c.i("nn"), t=c.i("t"), la=c.i("la"), lb=c.i("lb"), mis=c.i("mis",0);
    Ev<C> e(x,op); e.a("n",n).a("t",t).a("unit",unit);
    if (op=="bruhat") {
        size_t lda=n+la; Buf<C> A(x,n*lda,mis); put(A,ltMat(x,n,c.s("kind"),d),lda); IBuf P(n),Q(n); size_t ldt=n+lb; Buf<C> L(x,n*ldt,0),U(x,n*ldt,0),R(x,n*ldt,0); L.fill(n,n,ldt,"rand"); U.fill(n,n,ldt,"rand"); R.fill(n,n,ldt,"rand");
        e.o("A","A",A.off,lda).o("P","P",P.off,1).o("Q","Q",Q.off,1).o("L","L",L.off,ldt).o("U","U",U.off,ldt).o("E","E",R.off,ldt).buf("A",A).buf("P",P).buf("Q",Q).buf("L",L).buf("U",U).buf("E",R); e.begin();
        size_t r=LTBruhatGen(F,DG(unit),n,A.p(),lda,P.p(),Q.p()); size_t s=LTQSorder(n,r,P.p(),Q.p());
        getLTBruhatGen(F,n,r,P.p(),Q.p(),R.p(),ldt); getLTBruhatGen(F,FflasLower,DG(!unit),n,r,P.p(),Q.p(),A.p(),lda,L.p(),ldt); getLTBruhatGen(F,FflasUpper,DG(unit),n,r,P.p(),Q.p(),A.p(),lda,U.p(),ldt);
        e.end("{\"r\":"+std::to_string(r)+",\"s\":"+std::to_string(s)+"}"); return; }
    if (op=="compress"||op=="bruhatprod") {
        IM M=ltMat(x,n,c.s("kind"),d); Buf<C> A(x,n*n,0),L(x,n*n,0),U(x,n*n,0); put(A,M,n); std::vector<size_t> P(n+1),Q(n+1); size_t r=LTBruhatGen(F,DG(unit),n,A.p(),n,P.data(),Q.data()); size_t s=LTQSorder(n,r,P.data(),Q.data());
        if (r==0) return; getLTBruhatGen(F,FflasLower,DG(!unit),n,r,P.data(),Q.data(),A.p(),n,L.p(),n); getLTBruhatGen(F,FflasUpper,DG(unit),n,r,P.data(),Q.data(),A.p(),n,U.p(),n);
        size_t smin=s; if (op=="compress") s+=x.g.below(2);
        if (op=="compress") { bool up=c.b("up"); size_t ldu=n+la, ldx=(up?n:2*s)+lb, ldy=n+(size_t)c.i("ly"); Buf<C> T(x,n*ldu,mis); for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++) F.assign(T.p()[i*ldu+j],(up?U:L).p()[i*n+j]);
            Buf<C> X(x,(up?2*s:n)*ldx,0),Y(x,n*ldy,0); for(size_t i=0;i<(up?2*s:n)*ldx;i++) X.set(i,x.gen("rand")); Y.fill(n,n,ldy,"rand"); std::vector<size_t> K(n+2),Mp(n+1),Tp(n+1);
            e.a("s",s).a("r",r).a("up",up).a("xm",up?2*s:n).a("xn",up?n:2*s).o("T","T",T.off,ldu).o("X","X",X.off,ldx).o("Y","Y",Y.off,ldy).buf("T",T).buf("X",X).buf("Y",Y); e.begin();
            size_t nb=CompressToBlockBiDiagonal(F,up?FflasUpper:FflasLower,n,s,r,P.data(),Q.data(),T.p(),ldu,X.p(),ldx,K.data(),Mp.data(),Tp.data());
            ExpandBlockBiDiagonalToBruhat(F,up?FflasUpper:FflasLower,n,s,r,Y.p(),ldy,X.p(),ldx,nb,K.data(),Mp.data(),Tp.data()); e.endN(nb); return; }
        (void)smin; std::vector<size_t> Ku(n+2),Mu(n+1),Tu(n+1),Kl(n+2),Ml(n+1),Tl(n+1); size_t ldxu=n+la, ldxl=2*s+lb; Buf<C> Xu(x,2*s*ldxu,0),Xl(x,n*ldxl,0);
        size_t nu=CompressToBlockBiDiagonal(F,FflasUpper,n,s,r,P.data(),Q.data(),U.p(),n,Xu.p(),ldxu,Ku.data(),Mu.data(),Tu.data()), nl=CompressToBlockBiDiagonal(F,FflasLower,n,s,r,P.data(),Q.data(),L.p(),n,Xl.p(),ldxl,Kl.data(),Ml.data(),Tl.data());
        size_t ldb=t+lb, ldc=t+(size_t)c.i("ly"); Buf<C> A0(x,n*n,0),B(x,n*ldb,mis),D(x,n*ldc,0); put(A0,M,n); B.fill(n,t,ldb,d); D.fill(n,t,ldc,"rand"); E be=x.scal(c.s("be"));
        e.a("s",s).a("r",r).e("be",be).o("A","A",A0.off,n).o("B","B",B.off,ldb).o("C","C",D.off,ldc).buf("A",A0).buf("B",B).buf("C",D); e.begin();
        productBruhatxTS(F,n,s,r,t,P.data(),Q.data(),Xu.p(),ldxu,nu,Ku.data(),Tu.data(),Mu.data(),Xl.p(),ldxl,nl,Kl.data(),Tl.data(),Ml.data(),B.p(),ldb,be,D.p(),ldc); e.end(); return; }
    // SSS generators
    size_t s=c.i("s"), rs=n%s, ls=rs?rs:s, k=(n+s-1)/s; size_t nP=n>s?n-s:0, nU=n-ls, nR=n>s+ls?n-s-ls:0; if (k<=1) nU=0; 
    size_t lp=s+la, lq=s+lb, lr=s+(size_t)c.i("ly"), lu=s+lb, lv=s+la, lw=s+(size_t)c.i("ly"), ld=s+la, lda=n+lb;
    Buf<C> P(x,nP*lp,0),Q(x,nU*lq,0),R(x,nR*lr,0),U(x,nU*lu,0),V(x,nU*lv,0),W(x,nR*lw,0),D(x,n*ld,0),A(x,n*lda,mis);
    P.fill(nP,s,lp,d);Q.fill(nU,s,lq,d);R.fill(nR,s,lr,d);U.fill(nU,s,lu,d);V.fill(nU,s,lv,d);W.fill(nR,s,lw,d);D.fill(n,s,ld,d);A.fill(n,n,lda,"rand");
    e.a("s",s).o("P","P",P.off,lp).o("Q","Q",Q.off,lq).o("R","R",R.off,lr).o("U","U",U.off,lu).o("V","V",V.off,lv).o("W","W",W.off,lw).o("D","D",D.off,ld).buf("P",P).buf("Q",Q).buf("R",R).buf("U",U).buf("V",V).buf("W",W).buf("D",D);
    if (op=="sss2dense") { e.o("A","A",A.off,lda).buf("A",A); e.begin(); SSSToDense(F,n,s,P.p(),lp,Q.p(),lq,R.p(),lr,U.p(),lu,V.p(),lv,W.p(),lw,D.p(),ld,A.p(),lda); e.end(); }
    else if (op=="dense2sss") { // a matrix of quasiseparability order at most s, built from lower and upper parts of low rank products (independently of the library)
        IM G=genMat(x,n,n,"rand",d); size_t w=1+x.g.below(s);
        IM Lw=imul(x,genMat(x,n,w,"rand",d),genMat(x,w,n,"rand",d)), Up=imul(x,genMat(x,n,w,"rand",d),genMat(x,w,n,"rand",d));
        IM N(n,std::vector<Integer>(n,Integer(0))); long band= w<s? (long)(s-w):0; // low rank + a band of width s-w: order at most s
        for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++) N[i][j]= i==j?G[i][j]: i>j?((long)(i-j)<=band?redp(x,Lw[i][j]+G[i][j]):Lw[i][j]): ((long)(j-i)<=band?redp(x,Up[i][j]+G[i][j]):Up[i][j]);
        put(A,N,lda); e.o("A","A",A.off,lda).buf("A",A); e.begin(); DenseToSSS(F,n,s,P.p(),lp,Q.p(),lq,R.p(),lr,U.p(),lu,V.p(),lv,W.p(),lw,D.p(),ld,A.p(),lda); e.end(); }
    else { size_t ldb=t+lb, ldc=t+la; Buf<C> B(x,n*ldb,mis),Cc(x,n*ldc,0); B.fill(n,t,ldb,d); Cc.fill(n,t,ldc,"rand"); E al=x.scal(c.s("al")), be=x.scal(c.s("be"));
        e.e("al",al).e("be",be).o("B","B",B.off,ldb).o("C","C",Cc.off,ldc).buf("B",B).buf("C",Cc); e.begin();
        productSSSxTS(F,n,t,s,al,P.p(),lp,Q.p(),lq,R.p(),lr,U.p(),lu,V.p(),lv,W.p(),lw,D.p(),ld,B.p(),ldb,be,Cc.p(),ldc); e.end(); }
}

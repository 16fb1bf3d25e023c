// echelon forms: C09
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#ifdef VCAPI
#include "capi.hpp"
#endif
using namespace vh; using namespace FFLAS; using namespace FFPACK;
typedef Ctx<VField> C; typedef C::E E;
template<class T> S jseq(const T* a,size_t n){ S o="["; for(size_t i=0;i<n;i++){ if(i)o+=","; put(o,a[i]>2000000000ull?2147483647L:(long)a[i]); } return o+"]"; }
S jmat(C& x,VField::ConstElement_ptr a,size_t m,size_t n,size_t ld){ S o="["; for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ if(i+j)o+=","; putE<E>(o,a[i*ld+j],x.wide); } return o+"]"; }
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; size_t mis=c.i("mis",0);
    bool row=c.b("row"), red=c.b("red"), tr=c.b("tr"); long tg=c.i("tag");
    FFPACK_LU_TAG tag= tg==0?FfpackSlabRecursive: tg==1?FfpackTileRecursive: tg==2?FfpackGaussJordanSlab:FfpackGaussJordanTile;
    FFPACK_LU_TAG ptag= (tg==0)?FfpackSlabRecursive:FfpackTileRecursive;
    size_t m=c.i("m"), n=c.i("nn"), lda=n+c.i("la"), dim=row?m:n, lde=n+c.i("lb"), ldt=dim+c.i("lc"); if(!lda)lda=1; if(!lde)lde=1; if(!ldt)ldt=1;
    Buf<C> A(x,m*lda,mis), Eb(x,m*lde,0), T(x,dim*ldt,c.i("mis2",0)); put(A,genMat(x,m,n,c.s("kind"),c.s("d")),lda);
    IBuf P(row?m:n), Q(row?n:m);
    bool only=c.b("only"), inpl=c.b("inpl");
    Ev<C> e(x,"echelon"); e.a("m",m).a("n",n).a("row",row).a("red",red).a("tr",tr).a("only",only).a("inpl",inpl).a("tag",tg).o("A","A",A.off,lda).o("E","E",Eb.off,lde).o("T","T",T.off,ldt).buf("A",A).buf("E",Eb).buf("T",T); e.begin();
    size_t r; FFLAS_UPLO ul=row?FflasUpper:FflasLower;
    if (red) r= row?ReducedRowEchelonForm(F,m,n,A.p(),lda,P.p(),Q.p(),tr,tag):ReducedColumnEchelonForm(F,m,n,A.p(),lda,P.p(),Q.p(),tr,tag);
    else r= row?RowEchelonForm(F,m,n,A.p(),lda,P.p(),Q.p(),tr,tag):ColumnEchelonForm(F,m,n,A.p(),lda,P.p(),Q.p(),tr,tag);
    if (r>std::min(m,n)) { e.end("{\"rank\":999999,\"piv\":[]}"); return; }
    if (red) { getReducedEchelonForm(F,ul,m,n,r,Q.p(),A.p(),lda,Eb.p(),lde,false,tag); if (tr) getReducedEchelonTransform(F,ul,m,n,r,P.p(),Q.p(),A.p(),lda,T.p(),ldt,tag); }
    else { getEchelonForm(F,ul,FflasUnit,m,n,r,Q.p(),A.p(),lda,Eb.p(),lde,false,tag); if (tr) getEchelonTransform(F,ul,FflasUnit,m,n,r,P.p(),Q.p(),A.p(),lda,T.p(),ldt,tag); }
    std::vector<size_t> rp(std::min(m,n)+1); RankProfileFromLU(Q.p(),row?n:m,r,rp.data(),ptag);
    if (tg==2) std::sort(rp.begin(),rp.begin()+r);
    S ret="{\"rank\":"+std::to_string(r)+",\"piv\":"+jseq(rp.data(),r);
    if (only) { size_t om=row?r:m, on=row?n:r, lo=on?on:1; Buf<C> O(x,om*lo,0); // exactly the non zero vectors: a write beyond is out of bounds
        S g0=O.dump(); 
        if (red) getReducedEchelonForm(F,ul,m,n,r,Q.p(),A.p(),lda,O.p(),lo,true,tag); else getEchelonForm(F,ul,FflasUnit,m,n,r,Q.p(),A.p(),lda,O.p(),lo,true,tag);
        bool g=true; { Buf<C> Z(x,om*lo,0); for(size_t i=0;i<Z.n;i++) if (i<Z.off||i>=Z.off+om*on) if (!(Z.mem[i]==O.mem[i])) g=false; }
        ret+=",\"O\":"+jmat(x,O.p(),om,on,lo)+",\"g\":"+(g?"true":"false"); }
    if (inpl) { Buf<C> I(x,m*lda,0); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) I.p()[i*lda+j]=A.p()[i*lda+j];
        if (red) getReducedEchelonForm(F,ul,m,n,r,Q.p(),I.p(),lda,tag); else getEchelonForm(F,ul,FflasUnit,m,n,r,Q.p(),I.p(),lda,tag);
        ret+=",\"I\":"+jmat(x,I.p(),m,n,lda); }
    e.end(ret+"}");
}

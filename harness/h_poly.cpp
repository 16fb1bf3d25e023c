// characteristic and minimal polynomials: C12
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#include <givaro/givpoly1.h>
using namespace vh; using namespace FFLAS; using namespace FFPACK;
typedef Ctx<VField> C; typedef C::E E;
typedef Givaro::Poly1Dom<VField> PolRing; typedef PolRing::Element Poly;
S jpoly(C& x,const Poly& p){ S o="["; for(size_t i=0;i<p.size();i++){ if(i)o+=","; putE<E>(o,p[i],x.wide); } return o+"]"; }
// n x n matrix with a prescribed shape of its Frobenius form
IM polyMat(C& x,size_t n,const S& kind,const S& d){
    if (kind=="scalar") { IM M(n,std::vector<Integer>(n,Integer(0))); Integer l=redp(x,x.gen("rand")); for(size_t i=0;i<n;i++) M[i][i]=l; return M; }
    if (kind=="diag") { IM M(n,std::vector<Integer>(n,Integer(0))); Integer a=redp(x,x.gen("rand")), b=redp(x,x.gen("rand")); for(size_t i=0;i<n;i++) M[i][i]=x.g.below(3)?a:b; return M; }
    if (kind=="nilp"||kind=="blocks"||kind=="comp"||kind=="invol") {
        IM M(n,std::vector<Integer>(n,Integer(0))); size_t i=0;
        std::vector<Integer> cf; for(size_t k=0;k<n;k++) cf.push_back(redp(x,x.gen("rand")));
        while(i<n) { size_t b= kind=="comp"?n: kind=="invol"?std::min<size_t>(2,n-i): 1+x.g.below(n-i); bool same=x.g.below(2);
            for(size_t k=0;k+1<b;k++) M[i+k+1][i+k]=1;
            if (kind=="invol") { if (b==2) M[i][i+1]=1; else M[i][i]=1; }
            else if (kind!="nilp") for(size_t k=0;k<b;k++) M[i+k][i+b-1]= same?cf[k]:redp(x,x.gen("rand"));
            i+=b; }
        if (kind=="invol"&&x.g.below(2)) { std::vector<size_t> s=rperm(x.g,n); IM T(n,std::vector<Integer>(n)); for(size_t a=0;a<n;a++)for(size_t b=0;b<n;b++) T[s[a]][s[b]]=M[a][b]; return T; }
        if (x.g.below(3)) { // conjugate by a unimodular lower/upper pair: P = L U, P^-1 computed by elementary operations
            for(size_t t=0;t<2*n;t++) { size_t a=x.g.below(n), b=x.g.below(n); if(a==b) continue; Integer s= x.isZ?Integer((int64_t)x.g.below(3))-1:redp(x,x.gen(d));
                for(size_t k=0;k<n;k++) M[a][k]=redp(x,M[a][k]+s*M[b][k]); for(size_t k=0;k<n;k++) M[k][b]=redp(x,M[k][b]-s*M[k][a]); } }
        return M; }
    return genMat(x,n,n,kind,d); }
void runCase(const Case& c){
    C x(c,VTNAME); VField& F=x.F; S op=c.s("op"), d=c.s("d"); size_t n=c.i("nn"), lda=n+c.i("la"); if(!lda)lda=1;
    Buf<C> A(x,n*lda,c.i("mis",0)); IM M=polyMat(x,n,c.s("kind"),d); vh::put(A,M,lda);
    Ev<C> e(x,op); long tag=c.i("tag"); e.a("n",n).a("tag",tag).o("A","A",A.off,lda).buf("A",A);
    if (op=="charpoly") { PolRing R(F); VField::RandIter G(F,(uint64_t)c.i("n")+1); FFPACK_CHARPOLY_TAG t=(FFPACK_CHARPOLY_TAG)tag; e.begin(); S ret="[";
#ifndef NO_LIST
        if (c.i("form")) { std::list<Poly> L; if (c.i("deg")) CharPoly(R,L,n,A.p(),lda,G,t,(size_t)c.i("deg")); else CharPoly(R,L,n,A.p(),lda,G,t); bool f=true; for(auto& p:L){ if(!f)ret+=","; f=false; ret+=jpoly(x,p);} }
        else
#endif
        { Poly p(n+1); for(auto& q:p) q=x.scal("R"); if (c.i("deg")) CharPoly(R,p,n,A.p(),lda,G,t,(size_t)c.i("deg")); else CharPoly(R,p,n,A.p(),lda,G,t); ret+=jpoly(x,p); }
        e.end(ret+"]"); }
#ifndef NO_MINPOLY
    else if (op=="minpoly") { Poly p; VField::RandIter G(F,(uint64_t)c.i("n")+1); VField::ConstElement_ptr a=A.p(); e.begin(); MinPoly(F,p,n,a,lda,G); e.end(jpoly(x,p)); }
    else if (op=="mvminpoly") { size_t inc=1+c.i("lb"); Buf<C> v(x,n*inc,0); v.fillv(n,inc,c.s("dv")); if (n&&c.s("dv")!="zero") v.set(x.g.below(n)*inc,Integer(1)); e.o("v","v",v.off,inc).buf("v",v); Poly p; VField::ConstElement_ptr a=A.p(), vv=v.p(); e.begin(); MatVecMinPoly(F,p,n,a,lda,vv,inc); e.end(jpoly(x,p)); }
#endif
}

// sparse formats and products: C17
#define VH_MAIN
#include "vh.hpp"
#include "vgen.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#include "fflas-ffpack/fflas/fflas_sparse.h"
using namespace vh; using namespace FFLAS; using namespace FFPACK;
typedef Ctx<VField> C; typedef C::E E;
#define HAS(f) (((FMTS)>>(f))&1)
#ifndef FMTS
#define FMTS 0xfff
#endif
#ifndef MMFMTS
#define MMFMTS 0x8f
#endif
struct Trip { std::vector<uint64_t> row,col; };
template<class SM> void cst(SM&,const E&,std::false_type){}
template<class SM> void cst(SM& A,const E& v,std::true_type){ A.cst=v; }
template<class SM> auto pr(S& r,SM& A,int)->decltype(A.perm,void()){ for(size_t i=0;i<A.m;i++){ if(i) r+=","; put(r,(long)A.perm[i]); } }
template<class SM> void pr(S&,SM&,long){}
template<SparseMatrix_t f,bool ZO,bool MMok> struct Run {
    static void go(const Case& c,C& x,Ev<C>& e,Trip& t,Buf<C>& V,Buf<C>& X,Buf<C>& Y,size_t m,size_t n,size_t bs,size_t ldx,size_t ldy,const E& be,const E& cs,bool mm){
        Sparse<VField,f> A; sparse_init(x.F,A,t.row.data(),t.col.data(),V.p(),m,n,t.row.size());
        cst(A,cs,std::integral_constant<bool,ZO>());
        e.begin();
        if (!mm) fspmv(x.F,A,X.p(),be,Y.p()); else domm(x,A,bs,X,ldx,be,Y,ldy,std::integral_constant<bool,MMok>());
        long nn=(long)A.n, mm_=(long)A.m, nz=(long)A.nnz; S r="["; put(r,mm_); r+=","; put(r,nn); r+=","; put(r,nz); r+=",["; pr(r,A,0); r+="]]"; e.end(r); sparse_delete(A); }
    template<class SM> static void domm(C& x,SM& A,size_t bs,Buf<C>& X,size_t ldx,const E& be,Buf<C>& Y,size_t ldy,std::true_type){ fspmm(x.F,A,bs,X.p(),(int)ldx,be,Y.p(),(int)ldy); }
    template<class SM> static void domm(C&,SM&,size_t,Buf<C>&,size_t,const E&,Buf<C>&,size_t,std::false_type){ fprintf(stderr,"no spmm for this format\n"); exit(2); }
};
void runCase(const Case& c){
    C x(c,VTNAME); S op=c.s("op"); long fmt=c.i("fmt"); size_t m=c.i("m"), n=c.i("nn"), bs=c.i("bs"), mis=c.i("mis",0); S d=c.s("d"), pat=c.s("pat"); bool mm=op=="spmm";
    bool zo=c.b("zo"), perm=fmt==5||fmt==9;
    Trip t; std::vector<Integer> val;
    size_t full=x.g.below(m+1), uni=x.g.below(n+1);
    for(size_t i=0;i<m;i++){ size_t cnt; 
        if (pat=="empty") cnt=0; else if (pat=="dense") cnt=n; else if (pat=="rand") cnt=x.g.below(n+1); else if (pat=="one") cnt=1; else if (pat=="uni") cnt=uni; else if (pat=="few") cnt=x.g.below(std::min<size_t>(n,3)+1);
        else if (pat=="onerow") cnt= i==full?n:0; else if (pat=="half") cnt= i%2?0:x.g.below(n+1); else cnt=x.g.below(n+1);
        if (cnt>n) cnt=n; std::vector<size_t> s=rperm(x.g,n); s.resize(cnt); std::sort(s.begin(),s.end());
        for(size_t j:s){ t.row.push_back(i); t.col.push_back(j); } }
    size_t nz=t.row.size();
    E be=x.scal(c.s("be")), cs= zo?x.scal(c.s("cs")):x.F.one;
    Buf<C> V(x,nz); for(size_t i=0;i<nz;i++){ if (zo) V.p()[i]=cs; else { Integer v=x.gen(d); if (c.i("pm",0)&&x.g.below(3)) v= x.g.below(2)?Integer(1):Integer(-1); V.set(i,v); } }
    size_t ldx= mm?bs+c.i("la",0):1, ldy= mm?bs+c.i("lb",0):1, w= mm?bs:1;
    size_t padm= mm?m:((m+15)/16)*16; // the SIMD formats work on whole chunks of rows of y
    Buf<C> X(x,n*ldx,mis), Y(x,padm*ldy,perm?0:mis); X.fill(n,w,ldx,c.s("dx")); Y.fill(m,w,ldy,c.s("dy"));
    bool simd=fmt==4||fmt==5||fmt==8||fmt==9; if (simd&&!mm) for(size_t i=m;i<padm;i++) Y.p()[i]=x.F.zero;
    S jr="[",jc="["; for(size_t i=0;i<nz;i++){ if(i){jr+=",";jc+=",";} put(jr,(long)t.row[i]); put(jc,(long)t.col[i]); } jr+="]"; jc+="]";
    Ev<C> e(x,"sparse"); e.a("m",m).a("n",n).a("w",w).a("fmt",fmt).a("simd",simd).raw("row",jr).raw("col",jc).e("beta",be).o("V","V",V.off,1).o("X","X",X.off,ldx).o("Y","Y",Y.off,ldy).buf("V",V).buf("X",X).buf("Y",Y);
#define GO(k,FF,ZZ,MMM) if (fmt==k) Run<SparseMatrix_t::FF,ZZ,MMM>::go(c,x,e,t,V,X,Y,m,n,bs,ldx,ldy,be,cs,mm)
#if HAS(0)
    GO(0,CSR,false,(MMFMTS>>0)&1);
#endif
#if HAS(1)
    GO(1,COO,false,(MMFMTS>>1)&1);
#endif
#if HAS(2)
    GO(2,ELL,false,(MMFMTS>>2)&1);
#endif
#if HAS(3)
    GO(3,HYB_ZO,false,(MMFMTS>>3)&1);
#endif
#if HAS(4)
    GO(4,ELL_simd,false,false);
#endif
#if HAS(5)
    GO(5,SELL,false,false);
#endif
#if HAS(6)
    GO(6,CSR_ZO,true,(MMFMTS>>6)&1);
#endif
#if HAS(7)
    GO(7,COO_ZO,true,(MMFMTS>>7)&1);
#endif
#if HAS(8)
    GO(8,ELL_simd_ZO,true,false);
#endif
#if HAS(9)
    GO(9,SELL_ZO,true,false);
#endif
#if HAS(10)
    GO(10,CSR_HYB,false,(MMFMTS>>10)&1);
#endif
#if HAS(11)
    GO(11,ELL_ZO,true,(MMFMTS>>11)&1);
#endif
}

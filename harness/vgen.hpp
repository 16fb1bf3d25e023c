// structured random matrices built with plain integer arithmetic mod p (independent of the library under test)
#ifndef VGEN_HPP
#define VGEN_HPP
#include "vh.hpp"
namespace vh {
typedef std::vector<std::vector<Integer>> IM;
template<class C> Integer redp(C& x,Integer v){ if (x.isZ) return v; v%=x.p; if (v<0) v+=x.p; return v; }
template<class C> IM imul(C& x,const IM& A,const IM& B){ size_t m=A.size(), k=B.size(), n=k?B[0].size():0; IM R(m,std::vector<Integer>(n,Integer(0)));
    for(size_t i=0;i<m;i++)for(size_t l=0;l<k;l++){ if(A[i][l]==0) continue; for(size_t j=0;j<n;j++) if(B[l][j]!=0) R[i][j]=redp(x,R[i][j]+A[i][l]*B[l][j]); } return R; }
inline IM itr(const IM& A){ size_t m=A.size(), n=m?A[0].size():0; IM R(n,std::vector<Integer>(m)); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++)R[j][i]=A[i][j]; return R; }
template<class C> IM ilow(C& x,size_t n,const S& d){ IM L(n,std::vector<Integer>(n,Integer(0))); for(size_t i=0;i<n;i++){ L[i][i]=1; for(size_t j=0;j<i;j++) L[i][j]=redp(x,x.gen(d)); } return L; }
template<class C> Integer inz(C& x){ for(int t=0;t<100;t++){ Integer r=redp(x,x.rnd()); if(r!=0) return r; } return 1; }
inline std::vector<size_t> rperm(Rng& g,size_t n){ std::vector<size_t> s(n); for(size_t i=0;i<n;i++)s[i]=i; for(size_t i=n;i>1;i--) std::swap(s[i-1],s[g.below(i)]); return s; }
// symmetric n x n: kind "rand" | "grp" (generic rank profile, non singular) | "rpm" (random symmetric rank profile matrix of random rank)
// | "zero" | "antid" (2x2 blocks only) | "diag0" (zero diagonal)
template<class C,class B> void fillSym(C& x,B& A,size_t n,size_t lda,const S& kind,const S& d){
    IM M(n,std::vector<Integer>(n,Integer(0)));
    if (kind=="rand"||kind=="diag0") { for(size_t i=0;i<n;i++)for(size_t j=0;j<=i;j++) M[i][j]=M[j][i]=(kind=="diag0"&&i==j)?Integer(0):redp(x,x.gen(d)); }
    else if (kind!="zero") {
        size_t r= kind=="grp"?n:x.g.below(n+1); if (kind=="rpmfull") r=n;
        std::vector<size_t> s=rperm(x.g,n); size_t i=0;
        if (kind=="grp") for(i=0;i<n;i++) M[i][i]=inz(x);
        else while (i<r) { if (i+1<r && (kind=="antid"||x.g.below(2))) { Integer v=inz(x); M[s[i]][s[i+1]]=M[s[i+1]][s[i]]=v; i+=2; } else { M[s[i]][s[i]]=inz(x); i++; } }
        IM L=ilow(x,n,d); M=imul(x,imul(x,L,M),itr(L)); }
    for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++) A.set(i*lda+j,M[i][j]);
}
// general m x n of kind: "rand" | "rpm" (random rank profile matrix, random rank) | "full" (max rank, random rpm) | "lowrank" (r<=3) | "zero" |
// "grp" (generic rank profile, random rank) | "rev" (anti-diagonal rank profile) | "dup" (repeated rows/columns)
template<class C> IM genMat(C& x,size_t m,size_t n,const S& kind,const S& d,long rk=-1){
    IM M(m,std::vector<Integer>(n,Integer(0))); size_t mn=std::min(m,n);
    if (kind=="zero") return M;
    if (kind=="had") { // saturated Sylvester-Hadamard pattern with random row signs: meets Hadamard's bound when n is a power of two
        for(size_t i=0;i<m;i++){ bool s=x.g.below(2); for(size_t j=0;j<n;j++){ Integer h=x.hi; if ((__builtin_popcount(i&j)+(int)s)%2) h=-h; M[i][j]=redp(x,h); } } return M; }
    if (kind=="rand") { for(auto& r:M) for(auto& v:r) v=redp(x,x.gen(d)); return M; }
    if (kind=="dup") { for(auto& r:M) for(auto& v:r) v=redp(x,x.gen(d)); for(size_t i=1;i<m;i++) if(x.g.below(2)) M[i]=M[x.g.below(i)]; for(size_t j=1;j<n;j++) if(x.g.below(3)==0){ size_t l=x.g.below(j); for(size_t i=0;i<m;i++) M[i][j]=M[i][l]; } return M; }
    size_t r = rk>=0?std::min<size_t>(rk,mn): kind=="full"?mn: kind=="lowrank"?std::min<size_t>(mn,x.g.below(4)): x.g.below(mn+1);
    std::vector<size_t> a=rperm(x.g,m), b=rperm(x.g,n);
    for(size_t i=0;i<r;i++) { size_t u=a[i], v=b[i]; if(kind=="grp"){u=v=i;} if(kind=="rev"){u=m-1-i;v=i;} M[u][v]=inz(x); }
    IM L=ilow(x,m,d), U=itr(ilow(x,n,d)); return imul(x,imul(x,L,M),U);
}
template<class B> void put(B& A,const IM& M,size_t ld){ for(size_t i=0;i<M.size();i++)for(size_t j=0;j<M[i].size();j++) A.set(i*ld+j,M[i][j]); }
}
#endif

// vector register wrappers: C23
#define VH_MAIN
#include "vh.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
#include <utility>
#include <cstring>
using namespace vh; using namespace FFLAS;
typedef Ctx<VField> C;
static S J(const std::vector<long>& v){ S o="["; for(size_t i=0;i<v.size();i++){ if(i)o+=","; o+=std::to_string(v[i]); } return o+"]"; }
static S JL(const std::vector<S>& v){ S o="["; for(size_t i=0;i<v.size();i++){ if(i)o+=","; o+=v[i]; } return o+"]"; }
static constexpr uint64_t hsh(uint64_t z){ z+=0x9E3779B97F4A7C15ull; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
template<class V> S bytes(const V& v){ unsigned char b[sizeof(V)]; memcpy(b,&v,sizeof(V)); std::vector<long> o(b,b+sizeof(V)); return J(o); }

template<class SD,class T,int WD> struct Run {
    typedef typename SD::vect_t V; static constexpr int w=sizeof(T), n=16*WD/w; static constexpr bool I=std::is_integral<T>::value;
    C& x; Rng g; S d; long imm=0; std::vector<long> idx; V A,B,D; T a[16] __attribute__((aligned(64))), b[16] __attribute__((aligned(64))), c[16] __attribute__((aligned(64)));
    Run(C& c_,const Case& cs): x(c_), g(cs.i("n")*1000003ull+cs.i("seed")), d(cs.s("d")) {}
    static V ld(const T* p){ V v; memcpy(&v,p,sizeof(V)); return v; }
    T lane(){ T r=0; uint64_t z=g.next(); int bits=8*w;
        if (!I) { memcpy(&r,&z,w); if (d!="edge"&&d!="mix") { long m = g.below(2000); r = (T)((double)(g.below(2)?m:-m)/8); } return r; }
        S k=d; if (k=="mix"||k=="same") k = g.below(2)?"edge":"rand";
        if (k=="rand") r=(T)z; else if (k=="small") r=(T)((long)g.below(33)-16);
        else if (k=="mid") r=(T)((1ull<<(bits/2))+g.below(5)-2 + (g.below(2)? (1ull<<(bits/2-1)):0)); 
        else { uint64_t mn=1ull<<(bits-1); uint64_t t[]={0,1,(uint64_t)-1,mn,mn-1,mn+1,2,(uint64_t)-2,(1ull<<(bits/2)),(1ull<<(bits/2))-1,(1ull<<(bits/2-1)),(1ull<<(bits/2-1))-1, mn|(1ull<<(bits/2-1)), ~0ull<<(bits/2)}; r=(T)t[g.below(14)]; }
        return r; }
    void fill(T* p){ for(int i=0;i<n;i++) p[i]=lane(); }
    void gen(){ fill(a); fill(b); fill(c); if (d=="same") for(int i=0;i<n;i++) if (g.below(3)) b[i]=a[i]; if (d!="rand") for(int i=0;i<n;i++) if(!g.below(5)) b[i]=a[i]; A=ld(a); B=ld(b); D=ld(c); imm=0; idx.clear(); }
    void out(const char* f,const std::vector<S>& in,const std::vector<S>& r,const char* via=""){ Ev<C> e(x,"simd"); e.a("f",S(f)).a("via",S(via)).a("w",w).a("n",n).a("sg",(bool)std::is_signed<T>::value).a("imm",(long)imm).raw("idx",J(idx)).raw("x",JL(in)); e.begin(); e.end(JL(r)); }
    void o1(const char* f,V r,const char* v=""){ out(f,{bytes(A)},{bytes(r)},v); }
    void o2(const char* f,V r,const char* v=""){ out(f,{bytes(A),bytes(B)},{bytes(r)},v); }
    void o3(const char* f,V r,const char* v=""){ out(f,{bytes(A),bytes(B),bytes(D)},{bytes(r)},v); }
    // --------- memory
    void memory(){
        out("zero",{},{bytes(SD::zero())}); { T v=a[0]; out("set1",{bytes(A)},{bytes(SD::set1(v))}); }
        o1("id",setx(std::make_index_sequence<n>()),"set");
        T buf[40] __attribute__((aligned(64))); for(int i=0;i<40;i++) buf[i]=(T)i; memcpy(buf,a,sizeof(V)); o1("id",SD::load(buf),"load");
        int off=1+g.below(7); memcpy(buf+off,a,sizeof(V)); o1("id",SD::loadu(buf+off),"loadu");
        auto chk=[&](const char* via,auto st,int o){ T z[40] __attribute__((aligned(64))); memset(z,0x5a,sizeof z); st(z+o,A); bool clean=true; unsigned char* q=(unsigned char*)z; for(size_t i=0;i<sizeof z;i++) if((i<(size_t)o*w||i>=(size_t)o*w+sizeof(V))&&q[i]!=0x5a) clean=false; V r=ld(z+o); out(clean?"id":"overrun",{bytes(A)},{bytes(r)},via); };
        chk("store",[](T*p,V v){SD::store(p,v);},0); chk("storeu",[](T*p,V v){SD::storeu(p,v);},off); chk("stream",[](T*p,V v){SD::stream(p,v);},0);
        { int ix[16]; idx.clear(); for(int i=0;i<n;i++){ ix[i]=g.below(n); idx.push_back(ix[i]); } o1("gather",SD::gather(a,ix),"i32"); size_t jx[16]; for(int i=0;i<n;i++) jx[i]=ix[i]; o1("gather",SD::gather(a,jx),"size_t"); idx.clear(); }
    }
    template<size_t... k> V setx(std::index_sequence<k...>){ return SD::set(a[k]...); }
    template<size_t... k> void trx(std::vector<V>& r,std::index_sequence<k...>){ SD::transpose(r[k]...); }
    // --------- bitwise, arithmetic
    void arith(){
        o2("vand",SD::vand(A,B)); o2("vor",SD::vor(A,B)); o2("vxor",SD::vxor(A,B)); o2("vandnot",SD::vandnot(A,B));
        if constexpr (I) {
            o2("add",SD::add(A,B)); { V t=A; V r=SD::addin(t,B); o2("add",t,"addin"); o2("add",r,"addin ret"); }
            o2("sub",SD::sub(A,B)); { V t=A; V r=SD::subin(t,B); o2("sub",t,"subin"); o2("sub",r,"subin ret"); }
            o2("mul",SD::mul(A,B)); o2("mullo",SD::mullo(A,B)); o2("mulhi",SD::mulhi(A,B)); o2("mulx",SD::mulx(A,B));
            #define TRI(F) { o3(#F,SD::F(A,B,D)); V t=A; V r=SD::F##in(t,B,D); o3(#F,t,#F "in"); o3(#F,r,#F "in ret"); }
            TRI(fmadd) TRI(fnmadd) TRI(fmsub) TRI(fmaddx) TRI(fnmaddx) TRI(fmsubx)
            o2("eq",SD::eq(A,B)); o2("lesser",SD::lesser(A,B)); o2("lesser_eq",SD::lesser_eq(A,B)); o2("greater",SD::greater(A,B)); o2("greater_eq",SD::greater_eq(A,B));
            if constexpr (w==8 && std::is_signed<T>::value) o2("mulhi_fast",SD::mulhi_fast(A,B));
            o1("id",SD::round(A),"round");
            out("hadd_to_scal",{bytes(A)},{bytes((T)SD::hadd_to_scal(A))});
        }
    }
    // --------- data movement
    void moves(){
        o2("unpacklo",SD::unpacklo(A,B)); o2("unpackhi",SD::unpackhi(A,B)); o2("unpacklo_intrinsic",SD::unpacklo_intrinsic(A,B)); o2("unpackhi_intrinsic",SD::unpackhi_intrinsic(A,B));
        { V p,q; SD::unpacklohi(p,q,A,B); out("unpacklohi",{bytes(A),bytes(B)},{bytes(p),bytes(q)}); p=A;q=B; SD::unpacklohi(p,q,p,q); out("unpacklohi",{bytes(A),bytes(B)},{bytes(p),bytes(q)},"in place"); }
        o2("pack_even",SD::pack_even(A,B)); o2("pack_odd",SD::pack_odd(A,B)); { V p,q; SD::pack(p,q,A,B); out("pack",{bytes(A),bytes(B)},{bytes(p),bytes(q)}); p=A;q=B; SD::pack(p,q,p,q); out("pack",{bytes(A),bytes(B)},{bytes(p),bytes(q)},"in place"); }
        { std::vector<V> r(n); std::vector<S> in,re; for(int i=0;i<n;i++){ T t[16]; for(int j=0;j<n;j++) t[j]=lane(); r[i]=ld(t); in.push_back(bytes(r[i])); } trx(r,std::make_index_sequence<n>()); for(int i=0;i<n;i++) re.push_back(bytes(r[i])); out("transpose",in,re); }
        if constexpr (!I) { V m=SD::lesser(A,B); D=m; o3("blendv",SD::blendv(A,B,m)); for(int i=0;i<n;i++) c[i]=g.below(2)?(T)-0.0:(T)1; D=ld(c); o3("blendv",SD::blendv(A,B,D),"sign"); }
    }
    // --------- immediates: table of instantiations, one picked per round
    template<int k> static void ib(Run& z){ constexpr int m=(int)(hsh(k*77+5)%(1u<<n)); z.imm=m; z.o2("blend",SD::template blend<m>(z.A,z.B)); z.imm=0; }
    template<int k> static void ish(Run& z){ if constexpr (I) { z.imm=k; z.o1("sll",SD::template sll<k>(z.A)); z.o1("srl",SD::template srl<k>(z.A)); z.o1("sra",SD::template sra<k>(z.A)); z.imm=0; } }
    template<int k> static void i128(Run& z){ if constexpr (I) { constexpr int s=k%17; z.imm=s; z.o1("sll128",SD::template sll128<s>(z.A)); z.o1("srl128",SD::template srl128<s>(z.A)); z.imm=0; } }
    template<int k> static void iperm(Run& z){ if constexpr (WD==2) { constexpr int s=(int)(hsh(k*3+1)%4) + 16*(int)(hsh(k*5+2)%4) + ((k%5==4)?8:0); z.imm=s; z.o2("permute128",SD::template permute128<s>(z.A,z.B)); z.imm=0; } }
    template<int k,int sb,bool tw> static constexpr uint64_t shi(){ uint64_t r=0; int cnt= tw?4:n; int lim = tw?4:n; for(int i=0;i<cnt;i++) r|= (hsh(k*1009+i*31+sb)%lim)<<(sb*i); return r; }
    template<int k> static void ishuf(Run& z){
        if constexpr (!(WD==2 && std::is_same<T,float>::value)) { constexpr int sb = n==2?1: n==4?2: 4; constexpr uint64_t s=shi<k,sb,false>(); for(int i=0;i<n;i++) z.idx.push_back((s>>(sb*i))&((1<<sb)-1)); z.o1("shuffle",SD::template shuffle<s>(z.A)); z.idx.clear(); }
        if constexpr (WD==2 && w==4) { constexpr uint64_t s=shi<k,2,true>(); for(int i=0;i<8;i++) z.idx.push_back((i/4)*4+((s>>(2*(i%4)))&3)); z.o1("shuffle",SD::template shuffle_twice<s>(z.A),"twice"); z.idx.clear(); } }
    template<int k> static void iget(Run& z){ if constexpr (I && w==8 && std::is_signed<T>::value) { constexpr int j=k%n; z.idx={j}; T v=SD::template get<j>(z.A); z.out("get",{bytes(z.A)},{bytes(v)}); z.idx.clear(); } }
    typedef void(*fn)(Run&);
    template<size_t... k> static const fn* tb(std::index_sequence<k...>){ static const fn t[]={ib<(int)k>...}; return t; }
    template<size_t... k> static const fn* ts(std::index_sequence<k...>){ static const fn t[]={ish<(int)k>...}; return t; }
    template<size_t... k> static const fn* t8(std::index_sequence<k...>){ static const fn t[]={i128<(int)k>...}; return t; }
    template<size_t... k> static const fn* tp(std::index_sequence<k...>){ static const fn t[]={iperm<(int)k>...}; return t; }
    template<size_t... k> static const fn* tf(std::index_sequence<k...>){ static const fn t[]={ishuf<(int)k>...}; return t; }
    template<size_t... k> static const fn* tg(std::index_sequence<k...>){ static const fn t[]={iget<(int)k>...}; return t; }
    void imms(){
        for(int r=0;r<2;r++){ tb(std::make_index_sequence<16>())[g.below(16)](*this); ts(std::make_index_sequence<8*w>())[g.below(8*w)](*this); tp(std::make_index_sequence<10>())[g.below(10)](*this); tf(std::make_index_sequence<16>())[g.below(16)](*this); }
        t8(std::make_index_sequence<17>())[g.below(17)](*this); tg(std::make_index_sequence<4>())[g.below(4)](*this);
    }
    // --------- floating point arithmetic on exactly representable values
    long sx[3][16]; std::vector<long> q;
    void fo(const char* f,int na,const std::vector<long>& r,const char* via=""){ std::vector<S> in; for(int i=0;i<na;i++) in.push_back(J(std::vector<long>(sx[i],sx[i]+n))); Ev<C> e(x,"simdfp"); e.a("f",S(f)).a("via",S(via)).a("n",n).a("g",16/w).raw("x",JL(in)).raw("q",J(q)); e.begin(); e.end(J(r)); }
    std::vector<long> vals(V v){ T t[16]; memcpy(t,&v,sizeof v); std::vector<long> o; for(int i=0;i<n;i++){ double z=(double)t[i]*64; o.push_back(z==(double)(long)z && std::fabs(z)<2147483647.0 ? (long)z : GARBAGE); } return o; }
    std::vector<long> mask(V v){ unsigned char t[sizeof(V)]; memcpy(t,&v,sizeof v); std::vector<long> o; for(int i=0;i<n;i++){ int s=0; for(int j=0;j<w;j++) s+= t[i*w+j]==255?1: t[i*w+j]==0?0:1000; o.push_back(s==0?0: s==w?1:2); } return o; }
    long fv(long lim){ long m; if (d=="edge") { long k=g.below(lim/8+1); m=8*k+ (long[]){0,4,1,7}[g.below(4)]; if(m>lim)m=lim; } else if (d=="small") m=g.below(41); else m=g.below(lim+1); return g.below(2)?m:-m; }
    void genf(long lim){ for(int k=0;k<3;k++) for(int i=0;i<n;i++) sx[k][i]=fv(lim); for(int i=0;i<n;i++) if(!g.below(4)||(d=="same"&&g.below(2))) sx[1][i]=sx[0][i]; T* p[3]={a,b,c}; for(int k=0;k<3;k++) for(int i=0;i<n;i++) p[k][i]=(T)sx[k][i]/8; A=ld(a);B=ld(b);D=ld(c); q.clear(); }
    void fp(){ if constexpr (!I) {
        long big = w==8 ? (1l<<27) : (1l<<20);
        genf(big); fo("add",2,vals(SD::add(A,B))); { V t=A; V r=SD::addin(t,B); fo("add",2,vals(t),"addin"); fo("add",2,vals(r),"addin ret"); }
        fo("sub",2,vals(SD::sub(A,B))); { V t=A; V r=SD::subin(t,B); fo("sub",2,vals(t),"subin"); fo("sub",2,vals(r),"subin ret"); }
        fo("floor",1,vals(SD::floor(A))); fo("ceil",1,vals(SD::ceil(A))); fo("round",1,vals(SD::round(A)));
        fo("eq",2,mask(SD::eq(A,B))); fo("lesser",2,mask(SD::lesser(A,B))); fo("lesser_eq",2,mask(SD::lesser_eq(A,B))); fo("greater",2,mask(SD::greater(A,B))); fo("greater_eq",2,mask(SD::greater_eq(A,B)));
        genf(2000); fo("floor",1,vals(SD::floor(A))); fo("ceil",1,vals(SD::ceil(A))); fo("round",1,vals(SD::round(A)));
        fo("hadd",2,vals(SD::hadd(A,B))); { double z=(double)SD::hadd_to_scal(A)*64; fo("hadd_to_scal",1,{(long)z}); }
        fo("mul",2,vals(SD::mul(A,B))); { V t=A; V r=SD::mulin(t,B); fo("mul",2,vals(t),"mulin"); fo("mul",2,vals(r),"mulin ret"); }
        #define TRF(F) { fo(#F,3,vals(SD::F(A,B,D))); V t=A; V r=SD::F##in(t,B,D); fo(#F,3,vals(t),#F "in"); fo(#F,3,vals(r),#F "in ret"); }
        TRF(fmadd) TRF(fnmadd) TRF(fmsub)
        q.assign(n,0); for(int i=0;i<n;i++){ long dv=1+g.below(200); q[i]=(long)g.below(2001)-1000; sx[1][i]=g.below(2)?dv:-dv; sx[0][i]=q[i]*sx[1][i]; a[i]=(T)sx[0][i]/8; b[i]=(T)sx[1][i]/8; } A=ld(a); B=ld(b); fo("div",2,vals(SD::div(A,B))); q.clear();
    } }
    void go(){ gen(); memory(); arith(); moves(); imms(); fp(); }
};
template<class T> void go(C& x,const Case& c){ if (c.i("wd")==1) { Run<Simd128<T>,T,1> r(x,c); r.go(); } else { Run<Simd256<T>,T,2> r(x,c); r.go(); } }
void runCase(const Case& c){ C x(c,VTNAME); S e=c.s("elt");
    if (e=="d") go<double>(x,c); else if (e=="f") go<float>(x,c); else if (e=="i16") go<int16_t>(x,c); else if (e=="u16") go<uint16_t>(x,c); else if (e=="i32") go<int32_t>(x,c); else if (e=="u32") go<uint32_t>(x,c); else if (e=="i64") go<int64_t>(x,c); else go<uint64_t>(x,c); }

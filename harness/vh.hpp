// Common part of the conformance harnesses.
// A harness replays a plan (cases produced by TLC from spec/Plan_*.tla) into the real library through its public
// API and records a trace of events (call, memory before, memory after, return value) that TLC then validates
// against the specification (spec/Trace.tla).
#ifndef VH_HPP
#define VH_HPP
#include "fflas-ffpack/fflas-ffpack-config.h"
#include <givaro/modular.h>
#include <givaro/modular-balanced.h>
#include <givaro/zring.h>
#include <givaro/givintprime.h>
#include <givaro/givinteger.h>
#include <recint/rint.h>
#include <recint/ruint.h>
#include "fflas-ffpack/fflas/fflas.h"
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
#include <type_traits>
#include <unistd.h>
#include <signal.h>

namespace vh {
using Givaro::Integer;
typedef std::string S;

// ------------------------------------------------------------- plan cases
struct Case {
    std::map<S,S> v;
    long idx;
    bool has(const S& k) const { return v.count(k); }
    long i(const S& k) const { auto it=v.find(k); if(it==v.end()){fprintf(stderr,"missing plan field %s\n",k.c_str()); exit(2);} return atol(it->second.c_str()); }
    long i(const S& k,long d) const { auto it=v.find(k); return it==v.end()?d:atol(it->second.c_str()); }
    S s(const S& k) const { auto it=v.find(k); if(it==v.end()){fprintf(stderr,"missing plan field %s\n",k.c_str()); exit(2);} return it->second; }
    S s(const S& k,const S& d) const { auto it=v.find(k); return it==v.end()?d:it->second; }
    bool b(const S& k) const { S x=s(k); return x=="true"||x=="1"; }
};
inline bool parseCase(const S& line, Case& c) { // flat JSON object of numbers / strings / booleans
    c.v.clear(); size_t p=line.find('{'); if(p==S::npos) return false; ++p;
    while (p<line.size()) {
        while (p<line.size() && (line[p]==' '||line[p]==',')) ++p;
        if (line[p]=='}') return true;
        size_t q=line.find('"',p+1); S k=line.substr(p+1,q-p-1); p=line.find(':',q)+1;
        while (line[p]==' ') ++p;
        if (line[p]=='"') { q=line.find('"',p+1); c.v[k]=line.substr(p+1,q-p-1); p=q+1; }
        else { q=p; while (line[q]!=','&&line[q]!='}') ++q; c.v[k]=line.substr(p,q-p); p=q; }
    }
    return true;
}

// ------------------------------------------------------------- randomness
struct Rng { uint64_t s; explicit Rng(uint64_t x=1):s(x*0x9E3779B97F4A7C15ull+0x1234567){for(int i=0;i<4;i++)next();}
    uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}
    uint64_t below(uint64_t n){ return n?next()%n:0; }
    Integer bits(size_t b){ Integer r=0; while(b>0){ size_t t=std::min<size_t>(b,32); r=(r<<(uint64_t)t)+Integer((uint64_t)(next()&((1ull<<t)-1))); b-=t;} return r; }
    Integer belowI(const Integer& n){ return n<=0?Integer(0):Integer(bits(n.bitsize()+40)%n); } };

// ------------------------------------------------------------- raw integer value of a stored element
template<class E> struct IsRec: std::false_type{};
template<size_t K> struct IsRec<RecInt::ruint<K>>: std::true_type{};
template<size_t K> struct IsRec<RecInt::rint<K>>: std::true_type{};
const long GARBAGE = 2147483647L;
template<class E> typename std::enable_if<std::is_floating_point<E>::value,bool>::type toI(Integer& r,const E& x){
    if (!(x==x) || std::isinf(x) || x!=std::floor(x)) return false; r=Integer((double)x); return true; }
template<class E> typename std::enable_if<std::is_integral<E>::value,bool>::type toI(Integer& r,const E& x){
    if (std::is_signed<E>::value) r=Integer((int64_t)x); else r=Integer((uint64_t)x); return true; }
inline bool toI(Integer& r,const Integer& x){ r=x; return true; }
template<size_t K> bool toI(Integer& r,const RecInt::ruint<K>& x){ mpz_class g; RecInt::ruint_to_mpz(g,x); r=Integer(g.get_str().c_str()); return true; }
template<size_t K> bool toI(Integer& r,const RecInt::rint<K>& x){ mpz_class g; RecInt::rint_to_mpz(g,x); r=Integer(g.get_str().c_str()); return true; }

inline void put(S& o,long x){ char b[32]; snprintf(b,32,"%ld",x); o+=b; }
inline void putI(S& o,const Integer& x,bool wide){
    if (!wide) { if (x>=Integer(GARBAGE)||x<=Integer(-GARBAGE)) { o+="2147483647"; return; } put(o,(long)(int64_t)x); return; }
    if (x==0) { o+="[0]"; return; }
    o+= x<0?"[-1":"[1"; Integer a=abs(x);
    while (a>0) { o+=","; put(o,(long)(int64_t)Integer(a%Integer(32768))); a=a/Integer(32768); } o+="]";
}
template<class E> void putE(S& o,const E& x,bool wide){
    Integer r; if (!toI(r,x)) { o+= wide?"[1,1,1,1,1,1,1,1,1,1,1,1,1]":"2147483647"; return; } putI(o,r,wide); }
template<> inline void putE<double>(S& o,const double& x,bool wide){
    if (!wide && x==x && std::fabs(x)<2147483647. && x==std::floor(x)) { put(o,(long)x); return; }
    Integer r; if (!toI(r,x)) { o+= wide?"[1,1,1,1,1,1,1,1,1,1,1,1,1]":"2147483647"; return; } putI(o,r,wide); }

// ------------------------------------------------------------- rings
template<class F> struct Tag { static const bool isZ=false, isMod=true; };
template<class E> struct Tag<Givaro::ZRing<E>> { static const bool isZ=true, isMod=false; };
inline Integer prevPrime(const Integer& x){ Givaro::IntPrimeDom IPD; Integer p; IPD.prevprime(p,x+1); return p; }
inline Integer nextPrime(const Integer& x){ Givaro::IntPrimeDom IPD; Integer p; IPD.nextprime(p,x-1); return p; }

template<class F,bool Z> struct MkF { static F make(const Integer& p){ return F(p);} };
template<class E> struct MkF<Givaro::Modular<E>,false>{ static Givaro::Modular<E> make(const Integer& p){ typename Givaro::Modular<E>::Residu_t r; Givaro::Caster(r,p); return Givaro::Modular<E>(r);} };
template<class E> struct MkF<Givaro::ModularBalanced<E>,false>{ static Givaro::ModularBalanced<E> make(const Integer& p){ typename Givaro::ModularBalanced<E>::Residu_t r; Givaro::Caster(r,p); return Givaro::ModularBalanced<E>(r);} };
template<class E> struct MkF<Givaro::ZRing<E>,true>{ static Givaro::ZRing<E> make(const Integer&){ return Givaro::ZRing<E>();} };

inline Integer limPrime(char w,long T,bool plus,bool bal){
    Integer S = w=='d'?(Integer(1)<<(uint64_t)53): w=='f'?(Integer(1)<<(uint64_t)24): w=='l'?(Integer(1)<<(uint64_t)63)-1:(Integer(1)<<(uint64_t)31)-1; if (T<1) T=1;
    Integer c=sqrt(S/T); while (c>1 && T*c*c+(plus?c:Integer(0))>S) c-=1; Integer p= bal?2*c+1:c+1; if (p<3) p=3; return prevPrime(p); }
// modulus classes used by the plans: decimal literal, "max" (largest prime the type advertises), "max2" (previous
// prime), "half" (about max/2), "sqrt" (about sqrt(max)), "bN" (a prime of exactly N bits)
template<class F> Integer chooseP(const S& pc, Rng& g) {
    Integer mx = Integer(FFLAS::maxCardinality<F>());
    if (mx<=0) mx=Integer(1)<<(uint64_t)200;
    Integer p;
    if (pc=="max") p=prevPrime(mx);
    else if (pc=="max2") p=prevPrime(prevPrime(mx)-1);
    else if (pc=="half") p=prevPrime(mx/2);
    else if (pc=="sqrt") { p=prevPrime(sqrt(mx)); }
    else if (pc=="third") p=prevPrime(mx/3);
    else if (pc[0]=='k') { // "kdT", "kfT", "klT", "kiT": largest prime with T*c^2+c <= 2^53, 2^24, 2^63-1, 2^31-1 (c: largest magnitude of an element); "KdT"...: with T*c^2 <= ...
        p=limPrime(pc[1],atol(pc.c_str()+2),true,F(MkF<F,false>::make(Integer(5))).minElement()<0); if (p>mx) p=prevPrime(mx); }
    else if (pc[0]=='K') { p=limPrime(pc[1],atol(pc.c_str()+2),false,F(MkF<F,false>::make(Integer(5))).minElement()<0); if (p>mx) p=prevPrime(mx); }
    else if (pc[0]=='b') { uint64_t b=atol(pc.c_str()+1); Integer lo=Integer(1)<<(b-1); p=nextPrime(lo+g.bits(b-1)%(lo-lo/4+1)+0); if (p.bitsize()>b) p=prevPrime((Integer(1)<<b)-1); if (p>mx) p=prevPrime(mx); }
    else { p=Integer(pc.c_str()); if (p>mx) p=prevPrime(mx); }
    Integer mn = Integer(FFLAS::minCardinality<F>()); if (mn<2) mn=2; if (p<mn) p=nextPrime(mn);
    return p;
}
template<class F_> struct Ctx {
    typedef F_ Field; typedef typename F_::Element E; typedef typename F_::Element_ptr EP;
    Integer p; F_ F; bool wide, isZ, bal; Integer lo, hi; S ty; size_t zbits;
    Rng g;
    Ctx(const Case& c, const S& t): p(0), F(MkF<F_,Tag<F_>::isZ>::make(Integer(3))), ty(t), g(0) {
        g=Rng((uint64_t)c.i("seed",0)*1000003ull+c.i("n",0)*7919ull+17);
        isZ=Tag<F_>::isZ; p = isZ?Integer(0):chooseP<F_>(c.s("pc","101"),g);
        F.~F_(); new(&F) F_(MkF<F_,Tag<F_>::isZ>::make(isZ?Integer(3):p));
        zbits = c.i("zb",5); bool fw=c.i("fw",0);
        if (isZ) { wide = std::is_same<E,Integer>::value; lo=-((Integer(1)<<(uint64_t)zbits)-1); hi=-lo; bal=true; }
        else { wide = p>=(Integer(1)<<(uint64_t)30) || std::is_same<E,Integer>::value || IsRec<E>::value;
            E mn=F.minElement(), mx=F.maxElement(); toI(lo,mn); toI(hi,mx); bal = lo<0; }
        if (fw) wide=true;
    }
    // largest magnitude an (unreduced) stored value may have
    Integer full(){ if (std::is_same<E,double>::value) return (Integer(1)<<(uint64_t)53)-1; if (std::is_same<E,float>::value) return (Integer(1)<<(uint64_t)24)-1;
        if (std::is_same<E,Integer>::value) return (Integer(1)<<(uint64_t)200)-1; if (std::is_same<E,int64_t>::value) return (Integer(1)<<(uint64_t)63)-1;
        if (std::is_same<E,int32_t>::value) return (Integer(1)<<(uint64_t)31)-1; if (std::is_same<E,int16_t>::value) return Integer(32767); return hi; }
    Integer genFull(const S& d){ Integer f=full(), r;
        if (d=="near") { Integer q=f/p-1; r=(g.below(2)?g.belowI(q):g.belowI(Integer(20)))*p + Integer((int64_t)g.below(3))-1; if (r<0) r=0; if (g.below(2)) r=-r; }
        else if (d=="edge") { r=f-Integer((int64_t)g.below(3)); if (g.below(2)) r=-r; }
        else { size_t b=1+g.below(f.bitsize()); r=g.bits(b); if (r>f) r=f; if (g.below(2)) r=-r; }
        return r; }
    E el(const Integer& x){ E e; if (isZ) Givaro::Caster(e,x); else F.init(e,x); return e; }       // element from an integer
    // element with raw stored value x (used for junk/padding: may be non canonical)
    template<class T> struct Id{}; 
    void raw(E& e,const Integer& x){ rawSet(e,x,Id<E>()); }
    template<class T> void rawSet(T& e,const Integer& x,Id<T>){ e=T((int64_t)x); }
    void rawSet(Integer& e,const Integer& x,Id<Integer>){ e=x; }
    template<size_t K> void rawSet(RecInt::ruint<K>& e,const Integer& x,Id<RecInt::ruint<K>>){ e=RecInt::ruint<K>((uint64_t)x); }
    template<size_t K> void rawSet(RecInt::rint<K>& e,const Integer& x,Id<RecInt::rint<K>>){ e=RecInt::rint<K>((int64_t)x); }
    Integer rnd(){ return lo + g.belowI(hi-lo+1); }
    // random element of data class d
    Integer gen(const S& d){
        if (d=="max") return hi;
        if (d=="min") return lo==0?Integer(1):lo;
        if (d=="alt") return g.below(2)?hi:(lo==0?Integer(p-1-g.belowI(Integer(2))):lo);
        if (d=="odd") { Integer h=hi; if (h%2==0 && h>1) h-=1; return bal&&g.below(8)==0?Integer(-h):h; }
        if (d=="vb") { Integer r=g.bits(1+g.below(hi.bitsize())); if (r>hi) r=hi; if (lo<0&&g.below(2)) r=-r; return r<lo?lo:r; } // any bit size
        if (d=="tiny") { Integer r((int64_t)g.below(4)); if (lo<0&&g.below(2)) r=-r; return r>hi?hi:r<lo?lo:r; }
        if (d=="pow") { Integer r=(Integer(1)<<(uint64_t)g.below(hi.bitsize()+1))-Integer((int64_t)g.below(2)); if (r>hi) r=hi; if (lo<0&&g.below(2)) r=-r; return r<lo?lo:r; }
        if (d=="small") { long t=(long)g.below(3); if (isZ||bal) return std::max(lo,std::min(hi,Integer(t-1))); return t==2?Integer(p-1):Integer(t); }
        if (d=="sparse") return g.below(5)?Integer(0):rnd();
        if (d=="zero") return 0;
        if (d=="one") return 1;
        if (d=="mix") { switch(g.below(4)){case 0:return 0;case 1:return hi;case 2:return lo;default:return rnd();} }
        return rnd();
    }
    // scalar classes: "0","1","-1","2","r" (random, nonzero),"R" (random)
    E scal(const S& a){
        if (a=="0") return F.zero; if (a=="1") return F.one; if (a=="-1") return F.mOne;
        if (a=="max") return el(hi); 
        if (a=="2") { E e=el(Integer(2)); return F.isZero(e)?F.one:e; }
        if (a=="R") return el(rnd());
        for (int t=0;t<50;t++){ E e=el(rnd()); if (!F.isZero(e)) return e; } return F.one;
    }
    S ringJson() { S o="{\"p\":"; putI(o,p,wide); o+=",\"lo\":"; putI(o,isZ?Integer(0):lo,wide); o+=",\"wide\":"; o+=wide?"true":"false"; o+=",\"ty\":\""+ty+"\"}"; return o; }
};

// ------------------------------------------------------------- buffers with guard zones
const long GUARD=8;
template<class C> struct Buf {
    typedef typename C::E E; C* c; size_t n, off; E* mem; void* base;
    Buf(C& ctx,size_t len,size_t mis=0): c(&ctx), n(len+2*GUARD+mis), off(GUARD+mis) {
        if (posix_memalign(&base,64,(n+64)*sizeof(E)+64)) abort();
        mem=(E*)base; for (size_t i=0;i<n+64;i++) new(mem+i) E();
        for (size_t i=0;i<n+64;i++) c->raw(mem[i],Integer((int64_t)(1000003+7*(i%100000)))); }
    ~Buf(){ for (size_t i=0;i<n+64;i++) mem[i].~E(); free(base); }
    Buf(const Buf&)=delete;
    E* p(){ return mem+off; }
    void set(size_t i,const Integer& x){ p()[i]=c->el(x); }
    void junk(size_t i){ c->raw(p()[i],Integer((int64_t)(2000003+11*(i%100000)))); }
    // adversarial patterns: "quad" (largest / smallest by quarter of the index range, for the sums of Winograd's schedules), "altr"/"altc"
    // (by row / column parity), "worst"/"worstB" (largest growth of the unreduced intermediate values of a triangular solve)
    bool pattern(size_t m,size_t n_,size_t ld,const S& d){
        if (d!="quad"&&d!="altr"&&d!="altc"&&d!="worst"&&d!="worstB") return false;
        Integer hi=c->hi, lo=c->lo, z= c->lo<0?c->lo:Integer(0); uint64_t bits=c->g.next(); size_t f=c->g.below(2);
        if (d=="worst"||d=="worstB") { if (hi%2==0 && hi>1) hi-=1; if (lo<0) lo=z=-hi; } // odd: a lost low order bit must show
        auto par=[&](bool b){ return b?hi:z; };
        for(size_t i=0;i<m;i++)for(size_t j=0;j<n_;j++) { Integer v;
            if (d=="quad") { v=par((bits>>((i*8/std::max<size_t>(m,1))*8+j*8/std::max<size_t>(n_,1)))&1); }
            else if (d=="altr") v=par((i+f)&1); else if (d=="altc") v=par((j+f)&1);
            else if (d=="worst") v= lo<0 ? (((i+j)&1)?hi:lo) : (((i+j)&1)?hi:Integer(0));
            else { size_t q= (bits&1)?i:j; v=par((q+f)&1); }
            if ((d=="quad"||d=="altr"||d=="altc") && c->g.below(4)==0) { if (v>1) v-=1; else if (v<-1) v+=1; }
            set(i*ld+j,v); }
        return true; }
    void fill(size_t m,size_t n_,size_t ld,const S& d){ if (pattern(m,n_,ld,d)) return; for(size_t i=0;i<m;i++)for(size_t j=0;j<n_;j++) set(i*ld+j,c->gen(d)); }
    void fillv(size_t n_,size_t inc,const S& d){ for(size_t i=0;i<n_;i++) set(i*inc,c->gen(d)); }
    S dump(){ S o="["; for(size_t i=0;i<n;i++){ if(i)o+=","; putE<E>(o,mem[i],c->wide);} o+="]"; return o; }
};
struct IBuf { // permutation / index arrays
    std::vector<size_t> a; size_t n, off; IBuf(size_t len): a(len+2*GUARD+64,777777), n(len+2*GUARD), off(GUARD){ }
    size_t* p(){ return a.data()+off; }
    S dump(){ S o="["; for(size_t i=0;i<n;i++){ if(i)o+=","; size_t x=a[i]; put(o, x>2000000000ull?2147483647L:(long)x);} o+="]"; return o; } };

template<class C,class T> struct OBuf { // buffer of another element type
    C* c; size_t n, off; std::vector<T> a; OBuf(C& ctx,size_t len): c(&ctx), n(len+2*GUARD), off(GUARD), a(len+2*GUARD+64) { for (size_t i=0;i<a.size();i++) a[i]=T(100+(int)(i%20)); }
    T* p(){ return a.data()+off; }
    S dump(){ S o="["; for(size_t i=0;i<n;i++){ if(i)o+=","; putE<T>(o,a[i],c->wide);} o+="]"; return o; } };

// ------------------------------------------------------------- events
extern FILE* g_out; extern long g_case; extern long g_nev; extern long g_capi;
template<class C> struct Ev {
    C& c; S op, args, pre, post; bool any; std::vector<std::pair<S,std::function<S()>>> bufs; std::vector<S> before; S retv;
    bool dumpSet;
    Ev(C& ctx,const S& o): c(ctx), op(o), any(false), dumpSet(true) {}
    void sep(){ if(!args.empty()) args+=","; }
    Ev& a(const S& k,long x){ sep(); args+="\""+k+"\":"; put(args,x); return *this; }
    Ev& a(const S& k,size_t x){ return a(k,(long)x); }
    Ev& a(const S& k,int x){ return a(k,(long)x); }
    Ev& a(const S& k,bool x){ sep(); args+="\""+k+"\":"+(x?"true":"false"); return *this; }
    Ev& a(const S& k,const char* x){ sep(); args+="\""+k+"\":\""+x+"\""; return *this; }
    Ev& a(const S& k,const S& x){ return a(k,x.c_str()); }
    Ev& raw(const S& k,const S& json){ sep(); args+="\""+k+"\":"+json; return *this; }
    Ev& e(const S& k,const typename C::E& x){ sep(); args+="\""+k+"\":"; putE<typename C::E>(args,x,c.wide); return *this; }
    // operand descriptor: matrix (or strided vector) inside buffer b
    Ev& o(const S& k,const char* b,size_t off,size_t ld){ sep(); args+="\""+k+"\":{\"b\":\""+b+"\",\"o\":"; put(args,(long)off); args+=",\"ld\":"; put(args,(long)ld); args+="}"; return *this; }
    template<class B> Ev& buf(const S& k,B& b){ bufs.push_back({k,[&b]{return b.dump();}}); return *this; }
    // record the memory before the call
    void begin(){ before.clear(); for(auto& b:bufs) before.push_back(b.second()); }
    // events that follow one another on the same memory do not repeat it
    void cont(){ dumpSet=false; }
    void end(const S& ret="0"){
        S o="{\"op\":\""+op+"\",\"c\":"; put(o,g_case); o+=",\"R\":"+c.ringJson()+",\"a\":{"+args+"},\"set\":{";
        bool f=true; if (dumpSet) for(size_t i=0;i<bufs.size();i++){ if(!f)o+=","; f=false; o+="\""+bufs[i].first+"\":"+before[i]; }
        o+="},\"post\":{"; f=true;
        for(size_t i=0;i<bufs.size();i++){ S d=bufs[i].second(); if(d!=before[i]){ if(!f)o+=","; f=false; o+="\""+bufs[i].first+"\":"+d; } }
        o+="},\"ret\":"+ret+"}\n"; fwrite(o.data(),1,o.size(),g_out); fflush(g_out); g_nev++;
    }
    void endE(const typename C::E& x){ S o; putE<typename C::E>(o,x,c.wide); end(o); }
    void endB(bool b){ end(b?"true":"false"); }
    void endN(long x){ S o; put(o,x); end(o); }
};
} // vh

// ------------------------------------------------------------- field types (one per compiled TU: -DVT=...)
#define VT_MD 1
#define VT_MF 2
#define VT_BD 3
#define VT_BF 4
#define VT_M32 5
#define VT_M64 6
#define VT_B32 7
#define VT_B64 8
#define VT_MI 9
#define VT_ZI 10
#define VT_ZD 11
#define VT_Z64 12
#define VT_ZF 13
#define VT_Z32 14
#define VT_MR7 15
#define VT_MU32 16
#define VT_MU64 17
#define VT_M16 18
#define VT_MR78 19
#if VT==VT_MD
typedef Givaro::Modular<double> VField;
#elif VT==VT_MF
typedef Givaro::Modular<float> VField;
#elif VT==VT_BD
typedef Givaro::ModularBalanced<double> VField;
#elif VT==VT_BF
typedef Givaro::ModularBalanced<float> VField;
#elif VT==VT_M32
typedef Givaro::Modular<int32_t> VField;
#elif VT==VT_M64
typedef Givaro::Modular<int64_t> VField;
#elif VT==VT_B32
typedef Givaro::ModularBalanced<int32_t> VField;
#elif VT==VT_B64
typedef Givaro::ModularBalanced<int64_t> VField;
#elif VT==VT_MI
typedef Givaro::Modular<Givaro::Integer> VField;
#elif VT==VT_ZI
typedef Givaro::ZRing<Givaro::Integer> VField;
#elif VT==VT_ZD
typedef Givaro::ZRing<double> VField;
#elif VT==VT_Z64
typedef Givaro::ZRing<int64_t> VField;
#elif VT==VT_ZF
typedef Givaro::ZRing<float> VField;
#elif VT==VT_Z32
typedef Givaro::ZRing<int32_t> VField;
#elif VT==VT_MR7
typedef Givaro::Modular<RecInt::ruint<7> > VField;
#elif VT==VT_MR78
typedef Givaro::Modular<RecInt::ruint<7>, RecInt::ruint<8> > VField;
#elif VT==VT_MU32
typedef Givaro::Modular<uint32_t> VField;
#elif VT==VT_MU64
typedef Givaro::Modular<uint64_t> VField;
#elif VT==VT_M16
typedef Givaro::Modular<int16_t> VField;
#endif
#ifndef VTNAME
#define VTNAME "none"
#endif

#ifdef VH_MAIN
namespace vh { FILE* g_out=nullptr; long g_case=0; long g_nev=0; long g_capi=0; }
void runCase(const vh::Case& c);
// usage: harness PLAN OUT PROGRESS START [ONLY]
int main(int argc,char** argv){
    if (argc<5) return 2;
    std::ifstream in(argv[1]); vh::g_out=fopen(argv[2],"a"); long start=atol(argv[4]); long only=argc>5?atol(argv[5]):-1;
    FILE* pr=fopen(argv[3],"w"); std::string line; long idx=0; long tmo=getenv("VH_CASE_TIMEOUT")?atol(getenv("VH_CASE_TIMEOUT")):60;
    vh::Case c;
    while (std::getline(in,line)) { long i=idx++; if (i<start) continue; if (only>=0&&i!=only) continue;
        if (!vh::parseCase(line,c)) continue; if (c.s("ty","")!=VTNAME) continue;
        c.idx=i; vh::g_case=i; rewind(pr); fprintf(pr,"%ld          \n",i); fflush(pr);
        alarm(tmo); 
        vh::g_capi=0;
        try { runCase(c); } catch (std::exception& e) { fflush(vh::g_out); fprintf(stderr,"EXCEPTION case %ld: %s\n",i,e.what()); _exit(77); }
        catch (...) { fflush(vh::g_out); fprintf(stderr,"EXCEPTION case %ld\n",i); _exit(77); }
        alarm(0);
#ifdef VCAPI
        if (!vh::g_capi) { fprintf(stderr,"case %ld did not reach the C interface\n",i); exit(2); }
#endif
    }
    rewind(pr); fprintf(pr,"-1          \n"); fflush(pr); fclose(vh::g_out); fclose(pr); return 0; }
#endif
#endif

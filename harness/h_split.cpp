// work splitting: C15
#define VH_MAIN
#include "vh.hpp"
#include "fflas-ffpack/fflas-ffpack.h"
using namespace vh; using namespace FFLAS;
typedef Ctx<VField> C;
template<class Cut,class Par> S s1(size_t lo,size_t hi,size_t t){ S o="["; ParSeqHelper::Parallel<Cut,Par> H(t); bool f=true;
    for(size_t n=lo;n<=hi;n++){ if(!f)o+=","; f=false; ForStrategy1D<size_t,Cut,Par> it(n,H); S b="["; size_t k=0; for(it.initialize();!it.isTerminated();++it){ if(k)b+=","; b+="["+std::to_string(it.begin())+","+std::to_string(it.end())+"]"; if(++k>5000) break; }
        o+="{\"n\":"+std::to_string(n)+",\"nb\":"+std::to_string(it.numblocks())+",\"bs\":"+b+"]}"; } return o+"]"; }
template<class Cut,class Par> S s2(size_t m0,size_t m1,size_t n0,size_t n1,size_t t){ S o="["; ParSeqHelper::Parallel<Cut,Par> H(t); bool f=true;
    for(size_t m=m0;m<=m1;m++)for(size_t n=n0;n<=n1;n++){ if(!f)o+=","; f=false; ForStrategy2D<size_t,Cut,Par> it(m,n,H); S b="["; size_t k=0; for(it.initialize();!it.isTerminated();++it){ if(k)b+=","; b+="["+std::to_string(it.ibegin())+","+std::to_string(it.iend())+","+std::to_string(it.jbegin())+","+std::to_string(it.jend())+"]"; if(++k>5000) break; }
        o+="{\"m\":"+std::to_string(m)+",\"n\":"+std::to_string(n)+",\"nb\":"+std::to_string(it.rownumblocks()*it.colnumblocks())+",\"bs\":"+b+"]}"; } return o+"]"; }
template<class Cut,class Par> S lp(int kind,size_t m,size_t n,size_t t){ ParSeqHelper::Parallel<Cut,Par> H(t); std::vector<int> v(kind==2?m*n:m,0); int* w=v.data();
    if (kind==0) { PAR_BLOCK { SYNCH_GROUP( FORBLOCK1D(it,m,H, const size_t b=it.begin(); const size_t e=it.end(); TASK(MODE(VALUE(b) VALUE(e)), {for(size_t i=b;i!=e;++i) __sync_fetch_and_add(w+i,1);}) ) ) } }
    else if (kind==1) { PARFOR1D(i,m,H, __sync_fetch_and_add(w+i,1); ) }
    else if (kind==2) { PAR_BLOCK { SYNCH_GROUP( FORBLOCK2D(it,m,n,H, const size_t b=it.ibegin(); const size_t e=it.iend(); const size_t c=it.jbegin(); const size_t d=it.jend(); TASK(MODE(VALUE(b) VALUE(e) VALUE(c) VALUE(d)), {for(size_t i=b;i!=e;++i) for(size_t j=c;j!=d;++j) __sync_fetch_and_add(w+i*n+j,1);}) ) ) } }
    else { PAR_BLOCK { FOR1D(i,m,H, __sync_fetch_and_add(w+i,1); ) } }
    S o="["; for(size_t i=0;i<v.size();i++){ if(i)o+=","; o+=std::to_string(v[i]); } return o+"]"; }
using namespace CuttingStrategy; namespace SP=StrategyParameter;
#define DISP(CALL) (st=="row"? (pa=="threads"?CALL<Row,SP::Threads>:pa=="grain"?CALL<Row,SP::Grain>:CALL<Row,SP::Fixed>) : st=="col"? (pa=="threads"?CALL<Column,SP::Threads>:pa=="grain"?CALL<Column,SP::Grain>:CALL<Column,SP::Fixed>) : st=="single"? CALL<Single,SP::Threads> : (pa=="threads"?CALL<Block,SP::Threads>:pa=="grain"?CALL<Block,SP::Grain>:CALL<Block,SP::Fixed>))
void runCase(const Case& c){
    C x(c,VTNAME); S op=c.s("op"), st=c.s("st"), pa=c.s("pa"); size_t t=c.i("t"), m0=c.i("m0"), m1=c.i("m1"), n0=c.i("n0",0), n1=c.i("n1",0); Ev<C> e(x,op);
    e.a("st",st).a("pa",pa).a("t",t); e.begin();
    if (op=="split1") e.end(DISP(s1)(m0,m1,t)); else if (op=="split2") e.end(DISP(s2)(m0,m1,n0,n1,t)); else e.end(DISP(lp)((int)c.i("kind"),m0,n0,t));
}

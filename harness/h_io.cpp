// reading and writing matrices: C19
#define VH_MAIN
#include "vh.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include "fflas-ffpack/fflas-ffpack.h"
#include "fflas-ffpack/utils/fflas_io.h"
#include "fflas-ffpack/utils/Matio.h"
#include <unistd.h>
using namespace vh; using namespace FFLAS;
typedef Ctx<VField> C; typedef C::E E;
static const FFLAS_FORMAT FM[]={FflasAuto,FflasDense,FflasSMS,FflasBinary,FflasMath,FflasMaple,FflasSageMath};
static int fmtOf(const S& f){ const char* n[]={"auto","dense","sms","bin","math","maple","sage"}; for(int i=0;i<7;i++) if (f==n[i]) return i; return 1; }
static void addN(S& o,const Integer& v){ if(o.size()>1)o+=","; o+="[\"n\","; putI(o,v,true); o+="]"; }
static void addS(S& o,const S& v){ if(o.size()>1)o+=","; o+="[\"s\",\""; for(char ch: v) o+= (ch<' '||ch>'~'||ch=='"'||ch=='\\')?'?':ch; o+="\"]"; }
// the text as a sequence of words; ends of lines are words when `lines'
static S tokens(const S& t,bool lines){ S o="["; size_t i=0, n=t.size();
    while(i<n){ char ch=t[i]; if (ch=='\n'&&lines){ addS(o,"nl"); i++; continue; } if (isspace((unsigned char)ch)) { i++; continue; }
        if (ch=='%') { size_t j=i; while(j<n&&t[j]!='\n') j++; i=j; continue; }
        if (isalnum((unsigned char)ch)||ch=='-'||ch=='+'||ch=='.') { size_t j=i; while(j<n&&(isalnum((unsigned char)t[j])||t[j]=='-'||t[j]=='+'||t[j]=='.')) j++; S w=t.substr(i,j-i); i=j;
            size_t k= w[0]=='-'?1:0; bool num= w.size()>k; for(size_t q=k;q<w.size();q++) num&= isdigit((unsigned char)w[q])!=0; if (num) addN(o,Integer(w.c_str())); else addS(o,w); }
        else { addS(o,S(1,ch)); i++; } }
    return o+"]"; }
#if VT==VT_ZI || VT==VT_MI
static S binTok(const S& t){ return "[]"; }
#else
static S binTok(const S& t){ S o="["; if (t.size()<9+2*sizeof(size_t)) return tokens(t,false); addS(o,t.substr(0,8)); if (t[8]!='\n') addS(o,"badsep"); size_t mn[2]; memcpy(mn,t.data()+9,sizeof(mn)); addN(o,Integer((uint64_t)mn[0])); addN(o,Integer((uint64_t)mn[1]));
    size_t q=9+sizeof(mn); for(;q+sizeof(E)<=t.size();q+=sizeof(E)){ E v; memcpy((void*)&v,t.data()+q,sizeof(E)); Integer r; if (toI(r,v)) addN(o,r); else addS(o,"nan"); } if (q!=t.size()) addS(o,"trail"); return o+"]"; }
#endif
static S tokOf(const S& f,const S& t){ return f=="bin"?binTok(t):tokens(t,f=="math"||f=="field"); }
struct Tmp { char nm[64]; S s; Tmp(){ strcpy(nm,"/tmp/vh_io_XXXXXX"); int fd=mkstemp(nm); if (fd<0) abort(); close(fd); s=nm; } ~Tmp(){ unlink(nm); } };
static S slurp(const S& f){ std::ifstream i(f,std::ios::binary); std::stringstream b; b<<i.rdbuf(); return b.str(); }
static void spit(const S& f,const S& t){ std::ofstream o(f,std::ios::binary); o<<t; }
static void readBack(C& x,const Case& c,const S& fmt,const S& file,const S& tok){ // one read event
    S as=c.s("as"); long how=c.i("how"); S rf = as=="auto"&&(fmt=="bin"||fmt=="sms")?S("auto"):fmt;
    size_t m=777,n=778; E* A=nullptr; bool ok=true;
    Ev<C> e(x,"ioread"); e.a("fmt",rf).a("form",how).raw("file",tok); e.begin();
    if (how==2 && fmt=="sms") { unsigned long a=0,b=0; A=read_field(x.F,file.c_str(),&a,&b); m=a; n=b; }
    else if (how==1) { std::ifstream ifs(file,std::ios::in|std::ios::binary); E* B=ReadMatrix(ifs,x.F,m,n,A,FM[fmtOf(rf)]); ok= B==A; }
    else { S g=file; E* B=ReadMatrix(g,x.F,m,n,A,FM[fmtOf(rf)]); ok= B==A; }
    ok = ok && (A!=nullptr||m*n==0) && m<5000 && n<5000;
    S o="{\"ok\":"; o+=ok?"true":"false"; o+=",\"m\":"; put(o,ok?(long)m:0L); o+=",\"n\":"; put(o,ok?(long)n:0L); o+=",\"e\":["; if (ok) for(size_t i=0;i<m*n;i++){ if(i)o+=","; putE<E>(o,A[i],x.wide); } o+="]}";
    e.end(o); if (A) fflas_delete(A); }
void runCase(const Case& c){ C x(c,VTNAME); VField& F=x.F; S op=c.s("op"), fmt=c.s("fmt"); size_t m=c.i("m"), n=c.i("nn"), la=c.i("la");
#if VT==VT_ZI || VT==VT_MI
    if (fmt=="bin") return; // elements are not plain data
#endif
    if (op=="perm") { std::vector<size_t> P(n); for(auto& v:P) v=x.g.below(n); std::ostringstream s; WritePermutation(s,P.data(),n); S o="["; for(size_t i=0;i<n;i++){ if(i)o+=","; put(o,(long)P[i]); } o+="]"; Ev<C> e(x,"ioperm"); e.raw("P",o); e.begin(); e.end(tokens(s.str(),false)); return; }
    if (op=="ioread") { // a file written by someone else: comments, blanks, any order, values not reduced
        std::ostringstream s; auto ws=[&]{ const char* w[]={" ","  ","\t","\n"," \n "}; s<<w[x.g.below(fmt=="sms"&&0?2:5)]; };
        auto val=[&](bool nz){ Integer v; do { v= x.isZ||c.b("red")?x.gen(c.s("d")):Integer(x.gen(c.s("d"))+x.p*Integer((int64_t)x.g.below(3)-1)); } while(nz&&v==0); s<<v; };
        if (fmt=="sms") { if (c.i("how")!=2) for(long k=x.g.below(3);k>0;k--) s<<"% a comment "<<k<<" 3\n"; s<<m<<' '<<n<<' '<<(x.g.below(2)?"M":"101")<<"\n"; if (m&&n) for(long k=c.i("k");k>0;k--) { s<<1+x.g.below(m)<<' '<<1+x.g.below(n)<<' '; val(false); s<<"\n"; } s<<"0 0 0\n"; if (x.g.below(3)==0) s<<"7 7 7\n"; }
        else { s<<m; ws(); s<<n; for(size_t i=0;i<m*n;i++){ ws(); val(false); } if (x.g.below(2)) s<<"\n"; }
        Tmp t; spit(t.s,s.str()); readBack(x,c,fmt,t.s,tokens(s.str(),false)); return; }
    bool cm=c.b("cm"); size_t r=cm?n:m, w=cm?m:n, lda=w+la; if (!lda) lda=1; Buf<C> A(x,r*lda); A.fill(r,w,lda,c.s("d"));
    Tmp t; long how=c.i("how2"); S txt;
    { Ev<C> e(x,"iowrite"); e.a("m",m).a("n",n).a("fmt",fmt).a("cm",cm).a("form",how).o("A","A",A.off,lda).buf("A",A); e.begin();
      if (fmt=="field"||fmt=="fmaple") { std::ostringstream s; s.precision(17); write_field(F,s,A.p(),m,n,lda,fmt=="fmaple",cm); txt=s.str(); }
      else if (how==0) { WriteMatrix(t.s,F,(int)m,(int)n,A.p(),lda,FM[fmtOf(fmt)],cm); txt=slurp(t.s); }
      else { std::ofstream s(t.s,std::ios::binary); WriteMatrix(s,F,m,n,A.p(),lda,FM[fmtOf(fmt)],cm); s.close(); txt=slurp(t.s); }
      e.end(tokOf(fmt,txt)); }
    if (fmt=="dense"||fmt=="sms"||fmt=="bin") readBack(x,c,fmt,t.s,tokOf(fmt,txt)); }

// A deterministic replacement of the OpenMP runtime (the part the library uses): N virtual threads are fibers of one
// real thread; every scheduling decision (which thread runs, whether a task is deferred, which ready task a waiting
// thread picks, where a thread is preempted) is drawn from a seeded generator, so that a case of the plan denotes one
// schedule and is reproducible.  The decisions allowed here are those of the OpenMP tasking model specified in
// spec/Omp.tla; the log of every execution is validated against it.
#include <ucontext.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <vector>
#include <string>
#include "vomp.hpp"
#define NOI __attribute__((no_instrument_function))
namespace {
struct Team; struct Fiber;
struct TG { long n; TG* up; };
struct Task { void (*fn)(void*); char* mem; void* arg; Task* parent; Team* team; long kids; bool started; long id; TG* tg; };
struct Team { long nt; std::vector<Fiber*> fib; std::vector<Task*> ready; long outstanding; long singles; long arrived; long gen; Team* up; long tid_up;
    // shared loop
    long lgen, next, end, incr, chunk; };
struct Fiber { ucontext_t ctx; void* stack; Team* team; long tid; Task* cur; long singles; long loops; bool done; long fid; void (*fn)(void*); void* data; long yields; };
const size_t STK=16<<20;
uint64_t rs=88172645463325252ull;
long g_nt=1, g_pre=0, g_defer=50; bool g_on=false; long nopre=0; long budget=0; long g_live=0;
Fiber* me=nullptr; ucontext_t mainctx; std::vector<void*> pool; Fiber root; bool inpar=false; long g_switch=0;
bool g_log=false; std::string g_txt; long g_nid=0; long g_nlog=0; long g_tasks=0;
struct NP { NOI NP(){ nopre++; } NOI ~NP(){ nopre--; } };
NOI uint64_t rnd(){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs*2685821657736338717ull>>11; }
NOI long below(long n){ return n<=1?0:(long)(rnd()%(uint64_t)n); }
NOI void newBudget(){ budget= g_pre<=0?-1: 1+below(2*g_pre); }
NOI void lg(char k,long t,long a,long b){ if (!g_log) return; NP np; if (g_nlog++>400) { g_log=false; return; } if (!g_txt.empty()) g_txt+=","; char s[80]; snprintf(s,80,"[\"%c\",%ld,%ld,%ld]",k,t,a,b); g_txt+=s; }
NOI long tid(){ return me?me->fid:0; }
NOI void switchOut(){ Fiber* f=me; g_switch++; swapcontext(&f->ctx,&mainctx); }
NOI void yieldNow(){ if (!me) return; long sv=nopre; nopre=1; switchOut(); nopre=sv; }
NOI Task* newTask(Task* parent,Team* t){ Task* k=new Task(); k->parent=parent; k->team=t; k->kids=0; k->started=false; k->id=++g_nid; k->fn=nullptr; k->mem=nullptr; k->arg=nullptr; k->tg=parent?parent->tg:nullptr; return k; }
NOI void finish(Task* k){ if (k->parent) { k->parent->kids--; } k->team->outstanding--; for(TG* g=k->tg;g;g=g->up) g->n--; free(k->mem); /* a finished task may still be the parent of running ones: kept */ }
NOI void runTask(Task* k){ // on the current fiber, nested
    Task* prev=me->cur; me->cur=k; k->started=true; lg('s',tid(),k->id,prev->id);
    long sv=nopre; nopre=0; newBudget(); k->fn(k->arg); nopre=sv;
    lg('e',tid(),k->id,0); me->cur=prev; finish(k); }
NOI Task* pick(Team* t,Task* parent){ // a random ready task (of a given parent)
    std::vector<size_t> c; for(size_t i=0;i<t->ready.size();i++) if (!parent||t->ready[i]->parent==parent) c.push_back(i);
    if (c.empty()) return nullptr; size_t i=c[below(c.size())]; Task* k=t->ready[i]; t->ready.erase(t->ready.begin()+i); return k; }
NOI void stuck(const char* w){ fprintf(stderr,"vomp: %s\n",w); abort(); }
NOI void barrier(Team* t){ // every task of the team is complete when it is passed
    NP np; long g=t->gen; lg('b',tid(),me->cur->id,0);
    if (++t->arrived==t->nt && t->outstanding==0) { t->arrived=0; t->gen++; }
    while (t->gen==g) { Task* k= below(3)?pick(t,nullptr):nullptr; if (k) runTask(k);
        if (t->gen!=g) break;
        if (t->arrived==t->nt && t->outstanding==0) { t->arrived=0; t->gen++; break; }
        if (t->fib.size()>1 || !k) yieldNow(); }
    lg('B',tid(),me->cur->id,0); }
NOI void fiberMain(){ Fiber* f=me; nopre=0; newBudget(); f->fn(f->data); nopre=1; barrier(f->team); lg('x',f->fid,f->cur->id,0); f->done=true; g_live--; swapcontext(&f->ctx,&mainctx); stuck("resumed a finished thread"); }
NOI void* getStack(){ if (!pool.empty()) { void* s=pool.back(); pool.pop_back(); return s; } void* s=mmap(0,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (s==MAP_FAILED) stuck("no stack"); return s; }
}
extern "C" {
NOI void __cyg_profile_func_enter(void*,void*){ if (nopre||!me||budget<0) return; if (--budget<=0) { newBudget(); yieldNow(); newBudget(); } }
NOI void __cyg_profile_func_exit(void*,void*){}
// guards of function-local statics: a fiber must not be preempted while it initialises one
NOI int __cxa_guard_acquire(uint64_t* g){ if (*(char*)g) return 0; nopre++; return 1; }
NOI void __cxa_guard_release(uint64_t* g){ *(char*)g=1; nopre--; }
NOI void __cxa_guard_abort(uint64_t* g){ nopre--; }

NOI void GOMP_parallel(void (*fn)(void*),void* data,unsigned num_threads,unsigned){
    long nt= me?1: (num_threads?num_threads:g_nt);
    if (me) { // nested region: a team of one
        Fiber* f=me; Team t; t.nt=1; t.outstanding=0; t.singles=0; t.arrived=0; t.gen=0; t.lgen=-1; t.up=f->team; t.fib.push_back(f);
        Team* ot=f->team; long otid=f->tid, os=f->singles, ol=f->loops; Task* oc=f->cur; long sv;
        { NP np; f->team=&t; f->tid=0; f->singles=0; f->loops=0; f->cur=newTask(nullptr,&t); f->cur->started=true; lg('i',f->fid,f->cur->id,f->cur->id); }
        sv=nopre; fn(data); nopre=sv; barrier(&t); lg('x',f->fid,f->cur->id,0);
        f->team=ot; f->tid=otid; f->singles=os; f->loops=ol; f->cur=oc; return; }
    NP np; Team t; t.nt=nt; t.outstanding=0; t.singles=0; t.arrived=0; t.gen=0; t.lgen=-1; t.up=nullptr; std::vector<Fiber> fs(nt);
    for(long i=0;i<nt;i++){ Fiber& f=fs[i]; f.team=&t; f.tid=i; f.fid=i; f.singles=0; f.loops=0; f.done=false; f.fn=fn; f.data=data; f.cur=newTask(nullptr,&t); f.cur->started=true; f.stack=getStack(); f.yields=0;
        getcontext(&f.ctx); f.ctx.uc_stack.ss_sp=f.stack; f.ctx.uc_stack.ss_size=STK; f.ctx.uc_link=nullptr; makecontext(&f.ctx,(void(*)())fiberMain,0); t.fib.push_back(&f); lg('i',i,f.cur->id,f.cur->id-i); }
    g_live=nt; long idle=0;
    while (g_live>0) { std::vector<Fiber*> r; for(auto f:t.fib) if(!f->done) r.push_back(f); me=r[below(r.size())]; swapcontext(&mainctx,&me->ctx); me=nullptr; if (++idle>400000000L) stuck("no progress"); }
    for(auto& f:fs) pool.push_back(f.stack);
}
NOI bool GOMP_single_start(){ if (!me) return true; Team* t=me->team; if (me->singles++==t->singles) { t->singles++; return true; } return false; }
NOI void GOMP_barrier(){ if (me) barrier(me->team); }
NOI void GOMP_task(void (*fn)(void*),void* data,void (*cpy)(void*,void*),long size,long align,bool iff,unsigned flags,void** depend,int,void*){
    char* mem=(char*)malloc(size+align+16); void* arg=(void*)(((uintptr_t)mem+align-1)/align*align);
    { NP np; if (cpy) cpy(arg,data); else memcpy(arg,data,size); }
    if (!me) { fn(arg); free(mem); return; } // outside of any parallel region
    NP np; Team* t=me->team; Task* k=newTask(me->cur,t); k->fn=fn; k->mem=mem; k->arg=arg; me->cur->kids++; t->outstanding++; g_tasks++; for(TG* g=k->tg;g;g=g->up) g->n++;
    if (flags&8) { while (me->cur->kids>1) { Task* q= below(3)?pick(t,me->cur):nullptr; if (q) runTask(q); else if (t->nt>1) yieldNow(); } iff=false; } // dependences: one legal schedule, after every earlier sibling
    bool now= !iff || below(100)>=g_defer; lg('c',tid(),k->id,me->cur->id);
    if (now) { runTask(k); newBudget(); return; }
    t->ready.push_back(k); if (below(2)) yieldNow(); newBudget(); }
NOI void GOMP_taskwait(){ if (!me) return; NP np; lg('w',tid(),me->cur->id,0);
    while (me->cur->kids>0) { Task* k= below(3)?pick(me->team,me->cur):nullptr; if (k) runTask(k); else if (me->team->nt>1) yieldNow(); }
    lg('W',tid(),me->cur->id,0); newBudget(); }
NOI void GOMP_taskgroup_start(){ if (!me) return; NP np; TG* g=new TG(); g->n=0; g->up=me->cur->tg; me->cur->tg=g; }
NOI void GOMP_taskgroup_end(){ if (!me) return; NP np; TG* g=me->cur->tg; while (g->n>0) { Task* k= below(3)?pick(me->team,nullptr):nullptr; if (k) runTask(k); else if (me->team->nt>1) yieldNow(); } me->cur->tg=g->up; delete g; newBudget(); }
NOI void GOMP_critical_name_start(void**){ nopre++; }
NOI void GOMP_critical_name_end(void**){ nopre--; }
NOI void GOMP_taskyield(){ if (me&&!nopre) yieldNow(); }
NOI void GOMP_critical_start(){ nopre++; }
NOI void GOMP_critical_end(){ nopre--; }
NOI void GOMP_atomic_start(){ nopre++; }
NOI void GOMP_atomic_end(){ nopre--; }
// work sharing loops with a schedule chosen at run time: any partition in chunks, any assignment
NOI static bool lnext(long* s,long* e){ NP np; Team* t=me->team; if (t->next>=t->end) return false; long n=t->end-t->next; long k=1+below(n<8?n:8); *s=t->next; *e=t->next+k; t->next+=k; if (below(2)) yieldNow(); return true; }
NOI static bool lstart(long s,long e,long incr,long* is,long* ie){ static long fs,fe; if (!me) { *is=s; *ie=e; fs=e; fe=e; return s<e; } NP np; Team* t=me->team; if (incr!=1) stuck("loop stride");
    if (me->loops++ > t->lgen) { t->lgen++; t->next=s; t->end=e; } return lnext(is,ie); }
NOI bool GOMP_loop_runtime_start(long s,long e,long i,long* a,long* b){ return lstart(s,e,i,a,b); }
NOI bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s,long e,long i,long* a,long* b){ return lstart(s,e,i,a,b); }
NOI bool GOMP_loop_dynamic_start(long s,long e,long i,long c,long* a,long* b){ return lstart(s,e,i,a,b); }
NOI bool GOMP_loop_nonmonotonic_dynamic_start(long s,long e,long i,long c,long* a,long* b){ return lstart(s,e,i,a,b); }
NOI bool GOMP_loop_guided_start(long s,long e,long i,long c,long* a,long* b){ return lstart(s,e,i,a,b); }
NOI bool GOMP_loop_nonmonotonic_guided_start(long s,long e,long i,long c,long* a,long* b){ return lstart(s,e,i,a,b); }
NOI bool GOMP_loop_runtime_next(long* a,long* b){ return me&&lnext(a,b); }
NOI bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a,long* b){ return me&&lnext(a,b); }
NOI bool GOMP_loop_dynamic_next(long* a,long* b){ return me&&lnext(a,b); }
NOI bool GOMP_loop_nonmonotonic_dynamic_next(long* a,long* b){ return me&&lnext(a,b); }
NOI bool GOMP_loop_guided_next(long* a,long* b){ return me&&lnext(a,b); }
NOI bool GOMP_loop_nonmonotonic_guided_next(long* a,long* b){ return me&&lnext(a,b); }
NOI bool GOMP_loop_ull_runtime_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long* a,unsigned long long* b){ return lstart(s,e,up?(long)i:-1,(long*)a,(long*)b); }
NOI bool GOMP_loop_ull_runtime_next(unsigned long long* a,unsigned long long* b){ return me&&lnext((long*)a,(long*)b); }
NOI bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long* a,unsigned long long* b){ return lstart(s,e,up?(long)i:-1,(long*)a,(long*)b); }
NOI bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long* a,unsigned long long* b){ return me&&lnext((long*)a,(long*)b); }
NOI bool GOMP_loop_ull_dynamic_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long* a,unsigned long long* b){ return lstart(s,e,up?(long)i:-1,(long*)a,(long*)b); }
NOI bool GOMP_loop_ull_dynamic_next(unsigned long long* a,unsigned long long* b){ return me&&lnext((long*)a,(long*)b); }
NOI bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long* a,unsigned long long* b){ return lstart(s,e,up?(long)i:-1,(long*)a,(long*)b); }
NOI bool GOMP_loop_ull_nonmonotonic_dynamic_next(unsigned long long* a,unsigned long long* b){ return me&&lnext((long*)a,(long*)b); }
NOI bool GOMP_loop_ull_guided_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long* a,unsigned long long* b){ return lstart(s,e,up?(long)i:-1,(long*)a,(long*)b); }
NOI bool GOMP_loop_ull_guided_next(unsigned long long* a,unsigned long long* b){ return me&&lnext((long*)a,(long*)b); }
NOI bool GOMP_loop_ull_nonmonotonic_guided_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long* a,unsigned long long* b){ return lstart(s,e,up?(long)i:-1,(long*)a,(long*)b); }
NOI bool GOMP_loop_ull_nonmonotonic_guided_next(unsigned long long* a,unsigned long long* b){ return me&&lnext((long*)a,(long*)b); }
NOI void GOMP_loop_end(){ if (me) barrier(me->team); }
NOI void GOMP_loop_end_nowait(){}
struct PL { void (*fn)(void*); void* data; long s,e,i; };
NOI static void plEntry(void* p){ PL* q=(PL*)p; { NP np; Team* t=me->team; if (me->loops++ > t->lgen) { t->lgen++; t->next=q->s; t->end=q->e; } if (q->i!=1) stuck("loop stride"); } q->fn(q->data); }
NOI void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*),void* d,unsigned n,long s,long e,long i,unsigned f){ PL p={fn,d,s,e,i}; GOMP_parallel(plEntry,&p,n,f); }
NOI void GOMP_parallel_loop_runtime(void (*fn)(void*),void* d,unsigned n,long s,long e,long i,unsigned f){ PL p={fn,d,s,e,i}; GOMP_parallel(plEntry,&p,n,f); }
NOI void GOMP_parallel_loop_dynamic(void (*fn)(void*),void* d,unsigned n,long s,long e,long i,long c,unsigned f){ PL p={fn,d,s,e,i}; GOMP_parallel(plEntry,&p,n,f); }
NOI void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*),void* d,unsigned n,long s,long e,long i,long c,unsigned f){ PL p={fn,d,s,e,i}; GOMP_parallel(plEntry,&p,n,f); }
NOI void GOMP_parallel_loop_guided(void (*fn)(void*),void* d,unsigned n,long s,long e,long i,long c,unsigned f){ PL p={fn,d,s,e,i}; GOMP_parallel(plEntry,&p,n,f); }
NOI void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*),void* d,unsigned n,long s,long e,long i,long c,unsigned f){ PL p={fn,d,s,e,i}; GOMP_parallel(plEntry,&p,n,f); }
NOI int omp_get_num_threads(){ return me?(int)me->team->nt:1; }
NOI int omp_get_thread_num(){ return me?(int)me->tid:0; }
NOI int omp_get_max_threads(){ return (int)g_nt; }
NOI void omp_set_num_threads(int n){ if (n>0) g_nt=n; }
NOI int omp_in_parallel(){ return me&&me->team->nt>1; }
NOI int omp_get_num_procs(){ return (int)g_nt; }
NOI int omp_get_level(){ return me?1:0; }
NOI void omp_set_nested(int){}
NOI int omp_get_nested(){ return 0; }
NOI void omp_set_dynamic(int){}
NOI double omp_get_wtime(){ return 0; }
}
void vomp_begin(uint64_t seed,long nt,long pre,long defer,bool log){ rs=seed*0x9E3779B97F4A7C15ull+0x1234567ull; if(!rs) rs=1; for(int i=0;i<8;i++) rnd(); g_nt=nt<1?1:nt; g_pre=pre; g_defer=defer; g_log=log; g_txt.clear(); g_nid=0; g_nlog=0; g_tasks=0; g_switch=0; nopre=0; }
std::string vomp_log(){ return (g_nlog>400)?std::string(): "["+g_txt+"]"; }
long vomp_tasks(){ return g_tasks; }
long vomp_switches(){ return g_switch; }

// A small OpenMP run-time on pthreads, for the ThreadSanitizer builds: libgomp's own synchronisation (futexes,
// uninstrumented) is invisible to ThreadSanitizer; here every fork, join, barrier and critical section is a pthread
// operation it understands, and nothing else synchronises. Random pauses at the synchronisation points vary the
// interleaving. Calls from parallel code into PETSc's objects are guarded by an instrumented word per object, so that
// unsynchronised concurrent calls into that (uninstrumented, not thread-safe) library show as races too.
#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <map>
#include <vector>

namespace {
struct Team { int n; pthread_barrier_t bar; pthread_mutex_t m;
	// work sharing constructs: numbered per thread as they are met
	struct WS { long next,end,incr,chunk; int mode; bool init=false; int done=0; bool single=false; }; std::map<long,WS> ws; };
struct Thr { Team*team=nullptr; int id=0; int level=0; long wsid=0; long cur=-1; uint64_t rng=88172645463325252ull; long stnext=0; };
thread_local Thr T;
int gmax=0;
int maxThreads() { if(!gmax) { const char*e=getenv("OMP_NUM_THREADS"); gmax=e?atoi(e):2; if(gmax<1) gmax=1; } return gmax; }
uint64_t seed0() { static const uint64_t s=[]{ const char*e=getenv("VF_SEED"); return (uint64_t)(e?atoll(e):1)*6364136223846793005ull+1442695040888963407ull; }(); return s; }
inline void nap() { T.rng^=T.rng<<13; T.rng^=T.rng>>7; T.rng^=T.rng<<17; const unsigned q=(T.rng>>20)&1023;
	if(q<40) sched_yield(); else if(q<46) usleep(20+(T.rng>>40)%80); }
pthread_mutex_t crit=PTHREAD_MUTEX_INITIALIZER, atom=PTHREAD_MUTEX_INITIALIZER, namem=PTHREAD_MUTEX_INITIALIZER;
struct Start { void(*fn)(void*); void*data; Team*team; int id; uint64_t rng; };
uint64_t regions=0;
void* thread_main(void*p) { Start*s=(Start*)p; T.team=s->team; T.id=s->id; T.level=1; T.wsid=0; T.rng=s->rng|1; nap(); s->fn(s->data); return nullptr; }
void run(void(*fn)(void*),void*data,unsigned nt) {
	int n= nt? (int)nt : maxThreads(); if(T.level>0) n=1;
	Team team; team.n=n; pthread_barrier_init(&team.bar,nullptr,n); pthread_mutex_init(&team.m,nullptr);
	const Thr save=T; regions++;
	std::vector<Start> st(n); std::vector<pthread_t> th(n);
	for(int k=1;k<n;k++) { st[k]={fn,data,&team,k,seed0()+regions*0x9E3779B97F4A7C15ull+k*0xD1B54A32D192ED03ull}; pthread_create(&th[k],nullptr,thread_main,&st[k]); }
	T.team=&team; T.id=0; T.level=save.level+1; T.wsid=0; if(n>1) { T.rng=(seed0()+regions*0x9E3779B97F4A7C15ull)|1; nap(); }
	fn(data);
	const uint64_t rg=T.rng;
	for(int k=1;k<n;k++) pthread_join(th[k],nullptr);
	T=save; T.rng=rg;
	pthread_barrier_destroy(&team.bar); pthread_mutex_destroy(&team.m);
}
Team serial1{1}; Team* team() { return T.team?T.team:&serial1; }
// mode 0 static, 1 dynamic, 2 guided, 3 counter from 1 (sections)
bool ws_start(long b,long e,long inc,long chunk,int mode,long*is,long*ie);
bool ws_next(long*is,long*ie) {
	Team*t=team(); if(t->n>1) pthread_mutex_lock(&t->m);
	Team::WS&w=t->ws[T.cur]; bool ok=false; const long total= w.incr>0 ? (w.end-w.next+w.incr-1)/w.incr : (w.next-w.end-w.incr-1)/(-w.incr);
	if(w.mode==0) { // static with the chunks dealt round robin; stnext counts this thread's chunks
		const long c= w.chunk>0? w.chunk : (total+t->n-1)/t->n; const long k=T.stnext*t->n+T.id; const long s=k*(c>0?c:1);
		if(c>0 && s<total && !(w.chunk<=0&&T.stnext>0)) { long f=s+c; if(f>total) f=total; *is=w.next+s*w.incr; *ie=w.next+f*w.incr; T.stnext++; ok=true; }
	} else if(total>0) {
		long c=w.chunk>0?w.chunk:1; if(w.mode==2) { long g=(total+t->n-1)/t->n; if(g>c) c=g; } if(c>total) c=total;
		*is=w.next; *ie=w.next+c*w.incr; w.next=*ie; ok=true;
	}
	if(t->n>1) pthread_mutex_unlock(&t->m);
	return ok;
}
bool ws_start(long b,long e,long inc,long chunk,int mode,long*is,long*ie) {
	Team*t=team(); T.cur=T.wsid++; T.stnext=0;
	if(t->n>1) pthread_mutex_lock(&t->m);
	Team::WS&w=t->ws[T.cur]; if(!w.init) { w.init=true; w.next=b; w.end=e; w.incr=inc; w.chunk=chunk; w.mode=mode; }
	if(t->n>1) pthread_mutex_unlock(&t->m);
	return ws_next(is,ie);
}
struct PL { void(*fn)(void*); void*data; long b,e,inc,chunk; int mode; };
// combined parallel+loop: the loop is set up before the threads start, so the body's first call is _next
void run_loop(void(*fn)(void*),void*data,unsigned nt,long b,long e,long inc,long chunk,int mode) {
	struct H { static void go(void*p) { PL*q=(PL*)p; T.cur=T.wsid++; T.stnext=0; Team*t=team();
		if(t->n>1) pthread_mutex_lock(&t->m);
		Team::WS&w=t->ws[T.cur]; if(!w.init) { w.init=true; w.next=q->b; w.end=q->e; w.incr=q->inc; w.chunk=q->chunk; w.mode=q->mode; }
		if(t->n>1) pthread_mutex_unlock(&t->m);
		q->fn(q->data); } };
	PL q{fn,data,b,e,inc,chunk,mode}; run(H::go,&q,nt);
}
}

extern "C" {
void GOMP_parallel(void(*fn)(void*),void*data,unsigned nt,unsigned) { run(fn,data,nt); }
unsigned GOMP_parallel_reductions(void(*fn)(void*),void*data,unsigned nt,unsigned) { run(fn,data,nt); return nt; }
void GOMP_barrier() { Team*t=team(); nap(); if(t->n>1) pthread_barrier_wait(&t->bar); nap(); }
bool GOMP_cancel(int,bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
void GOMP_critical_start() { nap(); pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); nap(); }
static pthread_mutex_t* named(void**p) { pthread_mutex_lock(&namem); if(!*p) { pthread_mutex_t*m=new pthread_mutex_t; pthread_mutex_init(m,nullptr); *p=m; } pthread_mutex_t*r=(pthread_mutex_t*)*p; pthread_mutex_unlock(&namem); return r; }
void GOMP_critical_name_start(void**p) { nap(); pthread_mutex_lock(named(p)); }
void GOMP_critical_name_end(void**p) { pthread_mutex_unlock(named(p)); nap(); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start() { Team*t=team(); if(t->n==1) return true; const long k=T.wsid++; pthread_mutex_lock(&t->m); bool f=!t->ws[k].single; t->ws[k].single=true; pthread_mutex_unlock(&t->m); return f; }
#define LOOPS(name,mode) \
bool GOMP_loop_##name##_start(long b,long e,long i,long c,long*s,long*f) { return ws_start(b,e,i,c,mode,s,f); } \
bool GOMP_loop_##name##_next(long*s,long*f) { return ws_next(s,f); } \
void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned n,long b,long e,long i,long c,unsigned) { run_loop(fn,d,n,b,e,i,c,mode); }
LOOPS(static,0) LOOPS(dynamic,1) LOOPS(guided,2) LOOPS(nonmonotonic_dynamic,1) LOOPS(nonmonotonic_guided,2)
bool GOMP_loop_runtime_start(long b,long e,long i,long*s,long*f) { return ws_start(b,e,i,1,1,s,f); }
bool GOMP_loop_runtime_next(long*s,long*f) { return ws_next(s,f); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long b,long e,long i,long*s,long*f) { return ws_start(b,e,i,1,1,s,f); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long*s,long*f) { return ws_next(s,f); }
bool GOMP_loop_nonmonotonic_runtime_start(long b,long e,long i,long*s,long*f) { return ws_start(b,e,i,1,1,s,f); }
bool GOMP_loop_nonmonotonic_runtime_next(long*s,long*f) { return ws_next(s,f); }
void GOMP_parallel_loop_runtime(void(*fn)(void*),void*d,unsigned n,long b,long e,long i,unsigned) { run_loop(fn,d,n,b,e,i,1,1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void(*fn)(void*),void*d,unsigned n,long b,long e,long i,unsigned) { run_loop(fn,d,n,b,e,i,1,1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void(*fn)(void*),void*d,unsigned n,long b,long e,long i,unsigned) { run_loop(fn,d,n,b,e,i,1,1); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { long s,f; return ws_start(1,(long)n+1,1,1,1,&s,&f)?(unsigned)s:0; }
unsigned GOMP_sections_next() { long s,f; return ws_next(&s,&f)?(unsigned)s:0; }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned n,unsigned cnt,unsigned) { run_loop(fn,d,n,1,(long)cnt+1,1,1,1); }
void GOMP_ordered_start() { abort(); }
void GOMP_ordered_end() {}
void GOMP_task(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long size,long align,bool,unsigned,void**,int,void*) {
	if(cpy) { char*b=(char*)malloc(size+align); char*a=(char*)(((uintptr_t)b+align-1)&~(uintptr_t)(align-1)); cpy(a,data); fn(a); free(b); } else fn(data); }
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { return T.id; }
int omp_get_num_threads() { return T.team?T.team->n:1; }
int omp_get_max_threads() { return maxThreads(); }
void omp_set_num_threads(int n) { gmax=n>0?n:1; }
int omp_get_num_procs() { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel() { return T.level>0&&omp_get_num_threads()>1; }
int omp_get_level() { return T.level; }
int omp_get_thread_limit() { return 1<<20; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
typedef pthread_mutex_t* olock;
void omp_init_lock(olock*l) { *l=new pthread_mutex_t; pthread_mutex_init(*l,nullptr); }
void omp_destroy_lock(olock*l) { pthread_mutex_destroy(*l); delete *l; }
void omp_set_lock(olock*l) { nap(); pthread_mutex_lock(*l); }
void omp_unset_lock(olock*l) { pthread_mutex_unlock(*l); }
int omp_test_lock(olock*l) { return pthread_mutex_trylock(*l)==0; }
uint64_t ompshim_regions() { return regions; }

// one instrumented word per PETSc object (hashed): written on every call that changes the object
static long petsc_object_in_use[4096];
static inline __attribute__((noinline)) void touch(const void*o) { petsc_object_in_use[((uintptr_t)o>>4)%4096]++; }
typedef int (*anyfn)(void*,...);
#define SYM(n) static anyfn f=(anyfn)dlsym(RTLD_NEXT,n);
int MatSetValues(void*M,int m,const int*i,int n,const int*j,const double*v,int a) { typedef int(*F)(void*,int,const int*,int,const int*,const double*,int); static F f=(F)dlsym(RTLD_NEXT,"MatSetValues"); touch(M); return f(M,m,i,n,j,v,a); }
int MatSetValuesBlocked(void*M,int m,const int*i,int n,const int*j,const double*v,int a) { typedef int(*F)(void*,int,const int*,int,const int*,const double*,int); static F f=(F)dlsym(RTLD_NEXT,"MatSetValuesBlocked"); touch(M); return f(M,m,i,n,j,v,a); }
int MatSetValuesLocal(void*M,int m,const int*i,int n,const int*j,const double*v,int a) { typedef int(*F)(void*,int,const int*,int,const int*,const double*,int); static F f=(F)dlsym(RTLD_NEXT,"MatSetValuesLocal"); touch(M); return f(M,m,i,n,j,v,a); }
int MatSetValuesBlockedLocal(void*M,int m,const int*i,int n,const int*j,const double*v,int a) { typedef int(*F)(void*,int,const int*,int,const int*,const double*,int); static F f=(F)dlsym(RTLD_NEXT,"MatSetValuesBlockedLocal"); touch(M); return f(M,m,i,n,j,v,a); }
int VecSetValues(void*V,int n,const int*i,const double*v,int a) { typedef int(*F)(void*,int,const int*,const double*,int); static F f=(F)dlsym(RTLD_NEXT,"VecSetValues"); touch(V); return f(V,n,i,v,a); }
int VecSetValuesBlocked(void*V,int n,const int*i,const double*v,int a) { typedef int(*F)(void*,int,const int*,const double*,int); static F f=(F)dlsym(RTLD_NEXT,"VecSetValuesBlocked"); touch(V); return f(V,n,i,v,a); }
}

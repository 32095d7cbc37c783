// A minimal OpenMP runtime (clang ABI) on pthreads.  Chunk k of a dynamic loop goes to thread k mod T
// without any synchronisation between chunks; barriers, reductions, critical and single are exact.
// With VP_FIXEDCHK the objects are compiled with -fsanitize=thread but linked with the hooks below,
// which compare the value every store of a dynamically scheduled loop leaves behind with the old one.
#include <pthread.h>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <vector>
#include <map>
#include <unistd.h>
struct Team { int T; pthread_barrier_t bar; pthread_mutex_t mx; std::map<int,int> single; };
struct Tls { Team* team=nullptr; int tid=0; int loop=0; long lo=0,up=0,ch=1,k=-1; bool inl=false; int singles=0; };
static thread_local Tls tls; static int nthreads=0, pushed=0; static pthread_mutex_t gmx=PTHREAD_MUTEX_INITIALIZER;
static int maxT() { if(!nthreads) { const char* e=getenv("OMP_NUM_THREADS"); nthreads=e?atoi(e):1; if(nthreads<1) nthreads=1; } return nthreads; }
static int size() { return tls.team?tls.team->T:1; }
typedef void (*micro)(int*,int*,...);
struct Arg { micro f; int n; void* a[64]; Team* t; int tid; };
static void call(micro f,int g,int n,void** a) {
	int b=0; int gg=g;
	#define A4(i) a[i],a[i+1],a[i+2],a[i+3]
	f(&gg,&b,A4(0),A4(4),A4(8),A4(12),A4(16),A4(20),A4(24),A4(28)); (void)n;
}
// VP_TURNS: threads run one at a time, lowest id first (highest first with VP_TURNS=2), each until it reaches a barrier or finishes
static bool turnsOn() { static bool on=getenv("VP_TURNS")!=nullptr; return on; }
static bool turnsDown() { static bool d=turnsOn()&&getenv("VP_TURNS")[0]=='2'; return d; }
static pthread_mutex_t tmx=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t tcv=PTHREAD_COND_INITIALIZER; static int turn=0;
static void waitTurn(int tid) { pthread_mutex_lock(&tmx); while(turn!=tid) pthread_cond_wait(&tcv,&tmx); pthread_mutex_unlock(&tmx); }
static void passTurn(int T) { pthread_mutex_lock(&tmx); turn=turnsDown()?(tls.tid+T-1)%T:(tls.tid+1)%T; pthread_cond_broadcast(&tcv); pthread_mutex_unlock(&tmx); }
static void* start(void* p) { Arg* x=(Arg*)p; tls=Tls(); tls.team=x->t; tls.tid=x->tid; bool tn=turnsOn()&&x->t->T>1; if(tn) waitTurn(x->tid); call(x->f,x->tid,x->n,x->a); if(tn) passTurn(x->t->T); return nullptr; }
extern "C" {
struct ident_t;
int __kmpc_global_thread_num(ident_t*) { return tls.tid; }
int omp_get_thread_num() { return tls.tid; } int omp_get_num_threads() { return size(); } int omp_get_max_threads() { return maxT(); } int omp_get_num_procs() { return maxT(); }
void omp_set_num_threads(int n) { if(!getenv("VP_FORCE_T")) nthreads=n; } int omp_in_parallel() { return size()>1; } double omp_get_wtime() { return 1.0; }
void __kmpc_push_num_threads(ident_t*,int,int n) { pushed=n; }
static void fork(micro f,int n,void** a,int T) {
	if(tls.team) T=1;
	Tls save=tls; Team tm; tm.T=T; pthread_barrier_init(&tm.bar,nullptr,T); pthread_mutex_init(&tm.mx,nullptr);
	std::vector<Arg> args(T); std::vector<pthread_t> th(T);
	for(int i=0;i<T;i++) { args[i].f=f; args[i].n=n; memset(args[i].a,0,sizeof args[i].a); for(int k=0;k<n&&k<32;k++) args[i].a[k]=a[k]; args[i].t=&tm; args[i].tid=i; }
	if(turnsOn()) turn=turnsDown()?T-1:0;
	for(int i=1;i<T;i++) pthread_create(&th[i],nullptr,start,&args[i]);
	start(&args[0]); for(int i=1;i<T;i++) pthread_join(th[i],nullptr);
	tls=save; pthread_barrier_destroy(&tm.bar);
}
void __kmpc_fork_call(ident_t*,int argc,micro f,...) { va_list ap; va_start(ap,f); void* a[64]={0}; for(int i=0;i<argc&&i<64;i++) a[i]=va_arg(ap,void*); va_end(ap); int T=pushed?pushed:maxT(); pushed=0; fork(f,argc,a,T); }
void __kmpc_fork_call_if(ident_t*,int argc,micro f,int cond,void* args) { void* a[64]={0}; a[0]=args; fork(f,argc,a,cond?maxT():1); }
void __kmpc_serialized_parallel(ident_t*,int) { if(!tls.team) tls.loop=0; } void __kmpc_end_serialized_parallel(ident_t*,int) {}
void __kmpc_barrier(ident_t*,int) { if(size()<=1) return; if(turnsOn()) { int T=size(); passTurn(T); waitTurn(tls.tid); } else pthread_barrier_wait(&tls.team->bar); }
void __kmpc_flush(ident_t*) {}
}
template<class I> static void stat(int sched,int* last,I* lo,I* up,I* st,I inc,I ch) {
	long T=size(),tid=tls.tid,l=*lo,u=*up; long cnt=u-l+1; if(cnt<0) cnt=0; if(ch<1) ch=1;
	if(sched==34) { long q=cnt/T,r=cnt%T; long nl=l+tid*q+(tid<r?tid:r); *lo=nl; *up=nl+q+(tid<r?1:0)-1; *st=cnt<1?1:cnt; if(last) *last=(*up==u&&cnt>0); if(T==1) { *lo=l; *up=u; } }
	else { *lo=l+tid*ch; *up=*lo+ch-1; *st=ch*T; if(last) *last=cnt>0&&((cnt-1)/ch)%T==tid; }
}
template<class I> static void dinit(I lo,I up,I st,I ch) { tls.lo=lo; tls.up=up; tls.ch=ch<1?1:ch; tls.k=-1; tls.inl=true; tls.loop++; }
template<class I> static int dnext(int* last,I* lo,I* up,I* st) { long T=size(); static const bool rev=getenv("VP_CFG")&&strstr(getenv("VP_CFG"),"rev=1"); tls.k= tls.k<0?(rev?T-1-tls.tid:tls.tid):tls.k+T; long b=tls.lo+tls.k*tls.ch; if(b>tls.up) { tls.inl=false; return 0; } *lo=b; *up=b+tls.ch-1>tls.up?tls.up:b+tls.ch-1; if(st) *st=1; if(last) *last=*up==tls.up; return 1; }
extern "C" {
void __kmpc_for_static_init_4(ident_t*,int,int s,int* last,int* lo,int* up,int* st,int inc,int ch) { stat<int>(s,last,lo,up,st,inc,ch); }
void __kmpc_for_static_init_4u(ident_t*,int,int s,int* last,unsigned* lo,unsigned* up,int* st,int inc,int ch) { stat<int>(s,last,(int*)lo,(int*)up,st,inc,ch); }
void __kmpc_for_static_init_8(ident_t*,int,int s,int* last,long* lo,long* up,long* st,long inc,long ch) { stat<long>(s,last,lo,up,st,inc,ch); }
void __kmpc_for_static_init_8u(ident_t*,int,int s,int* last,unsigned long* lo,unsigned long* up,long* st,long inc,long ch) { stat<long>(s,last,(long*)lo,(long*)up,st,inc,ch); }
void __kmpc_for_static_fini(ident_t*,int) {}
void __kmpc_dispatch_init_4(ident_t*,int,int,int lo,int up,int st,int ch) { dinit<int>(lo,up,st,ch); }
void __kmpc_dispatch_init_4u(ident_t*,int,int,unsigned lo,unsigned up,int st,int ch) { dinit<int>(lo,up,st,ch); }
void __kmpc_dispatch_init_8(ident_t*,int,int,long lo,long up,long st,long ch) { dinit<long>(lo,up,st,ch); }
void __kmpc_dispatch_init_8u(ident_t*,int,int,unsigned long lo,unsigned long up,long st,long ch) { dinit<long>(lo,up,st,ch); }
int __kmpc_dispatch_next_4(ident_t*,int,int* last,int* lo,int* up,int* st) { return dnext<int>(last,lo,up,st); }
int __kmpc_dispatch_next_4u(ident_t*,int,int* last,unsigned* lo,unsigned* up,int* st) { return dnext<int>(last,(int*)lo,(int*)up,st); }
int __kmpc_dispatch_next_8(ident_t*,int,int* last,long* lo,long* up,long* st) { return dnext<long>(last,lo,up,st); }
int __kmpc_dispatch_next_8u(ident_t*,int,int* last,unsigned long* lo,unsigned long* up,long* st) { return dnext<long>(last,(long*)lo,(long*)up,st); }
void __kmpc_dispatch_fini_4(ident_t*,int) {} void __kmpc_dispatch_fini_4u(ident_t*,int) {} void __kmpc_dispatch_fini_8(ident_t*,int) {} void __kmpc_dispatch_fini_8u(ident_t*,int) {} void __kmpc_dispatch_deinit(ident_t*,int) {}
typedef int kmp_critical_name[8];
int __kmpc_reduce_nowait(ident_t*,int,int,size_t,void*,void(*)(void*,void*),kmp_critical_name*) { pthread_mutex_lock(&gmx); return 1; }
void __kmpc_end_reduce_nowait(ident_t*,int,kmp_critical_name*) { pthread_mutex_unlock(&gmx); }
int __kmpc_reduce(ident_t*,int,int,size_t,void*,void(*)(void*,void*),kmp_critical_name*) { pthread_mutex_lock(&gmx); return 1; }
void __kmpc_end_reduce(ident_t* i,int t,kmp_critical_name*) { pthread_mutex_unlock(&gmx); __kmpc_barrier(i,t); }
void __kmpc_critical(ident_t*,int,kmp_critical_name*) { pthread_mutex_lock(&gmx); } void __kmpc_critical_with_hint(ident_t*,int,kmp_critical_name*,unsigned) { pthread_mutex_lock(&gmx); } void __kmpc_end_critical(ident_t*,int,kmp_critical_name*) { pthread_mutex_unlock(&gmx); }
int __kmpc_master(ident_t*,int) { return tls.tid==0; } void __kmpc_end_master(ident_t*,int) {} int __kmpc_masked(ident_t*,int,int) { return tls.tid==0; } void __kmpc_end_masked(ident_t*,int) {}
int __kmpc_single(ident_t*,int) { if(!tls.team) return 1; int k=tls.singles++; pthread_mutex_lock(&tls.team->mx); int r=tls.team->single[k]++==0; pthread_mutex_unlock(&tls.team->mx); return r; }
void __kmpc_end_single(ident_t*,int) {}
}
#ifdef VP_FIXEDCHK
// ---- store observer: one thread, objects compiled with -fsanitize=thread, no sanitizer runtime
static int fixedOn=0; static double* pa=nullptr; static double oldv; static char* stackTop;
static void flush_() { if(pa) { double n=*pa,o=oldv; pa=nullptr; if(!(std::fabs(n-o)<=1e-7*(1+std::fabs(o)+std::fabs(n)))) { fprintf(stderr,"VPFAIL value stored by an asynchronous sweep differs from the fixed point: %.17g became %.17g\n",o,n); _exit(77); } } }
static void wr(void* p,size_t n) { flush_(); if(!fixedOn||!tls.inl||n!=8||tls.loop<fixedOn) return; char here; char* q=(char*)p; if(q>&here-65536&&q<stackTop) return; pa=(double*)p; oldv=*pa; }
extern "C" {
void vp_fixed(int on) { char c; stackTop=&c+(8<<20); flush_(); fixedOn=on; tls.loop=0; }
void __tsan_init() {} void __tsan_func_entry(void*) { flush_(); } void __tsan_func_exit() { flush_(); }
#define RW(n) void __tsan_read##n(void*) { flush_(); } void __tsan_write##n(void* p) { wr(p,n); } void __tsan_unaligned_read##n(void*) { flush_(); } void __tsan_unaligned_write##n(void* p) { wr(p,n); } void __tsan_read_write##n(void* p) { wr(p,n); } void __tsan_unaligned_read_write##n(void* p) { wr(p,n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void**,void*) {} void __tsan_vptr_read(void**) {} void __tsan_read_range(void*,unsigned long) {} void __tsan_write_range(void*,unsigned long) {}
void* __tsan_memcpy(void* d,const void* s,size_t n) { flush_(); return memcpy(d,s,n); } void* __tsan_memset(void* d,int c,size_t n) { flush_(); return memset(d,c,n); } void* __tsan_memmove(void* d,const void* s,size_t n) { flush_(); return memmove(d,s,n); }
#define AT(b,T) T __tsan_atomic##b##_load(const volatile T* a,int) { return *a; } void __tsan_atomic##b##_store(volatile T* a,T v,int) { *a=v; } T __tsan_atomic##b##_fetch_add(volatile T* a,T v,int) { T o=*a; *a=o+v; return o; } T __tsan_atomic##b##_exchange(volatile T* a,T v,int) { T o=*a; *a=v; return o; } int __tsan_atomic##b##_compare_exchange_strong(volatile T* a,T* c,T v,int,int) { if(*a==*c) { *a=v; return 1; } *c=*a; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile T* a,T* c,T v,int,int) { if(*a==*c) { *a=v; return 1; } *c=*a; return 0; } T __tsan_atomic##b##_compare_exchange_val(volatile T* a,T c,T v,int,int) { T o=*a; if(o==c) *a=v; return o; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
#endif

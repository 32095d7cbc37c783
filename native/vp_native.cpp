#define VP_NATIVE_MAIN
// Native backend of the harness primitives: replays a model produced by the symbolic executor.
#include "../harness/vp.h"
#include <cstdio>
#include <csignal>
#include <unistd.h>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <malloc.h>
#include <sys/mman.h>
#include <fstream>
#include <sstream>
#include <iomanip>
static std::vector<std::pair<std::string,double>> model; static size_t pos; static std::map<std::string,int> cfgs; static bool loaded=false; static bool quiet=false; static std::map<std::string,int> cnt;
static std::vector<double> outs; static FILE* outf=nullptr;
static void load() {
	if(loaded) return; loaded=true;
	if(const char* c=getenv("VP_CFG")) { std::istringstream s(c); std::string kv; while(s>>kv) { size_t p=kv.find('='); cfgs[kv.substr(0,p)]=atoi(kv.c_str()+p+1); } }
	if(const char* m=getenv("VP_MODEL")) { std::ifstream f(m); std::string n,v; while(f>>n>>v) model.push_back({n,strtod(v.c_str(),nullptr)}); }
	if(const char* o=getenv("VP_OUT")) outf=fopen(o,"w");
}
static double next(const char* name) { load(); if(pos>=model.size()) { fprintf(stderr,"VPMODEL: exhausted at %s\n",name); exit(66); }
	std::string k=model[pos].first; size_t h=k.find('#'); if(h!=std::string::npos) k=k.substr(0,h); if(k!=name) { fprintf(stderr,"VPMODEL: expected %s, model has %s\n",name,model[pos].first.c_str()); exit(66); }
	return model[pos++].second; }
static void fail(const char* msg) { fflush(stdout); fprintf(stderr,"VPFAIL %s\n",msg); fflush(stderr); _Exit(77); }
extern "C" {
int vp_int(const char* n,int lo,int hi) { return (int)next(n); }
double vp_real(const char* n) { return next(n); }
int vp_pick(const char* n,int lo,int hi) { return (int)next(n); }
void vp_assume(int c) { if(!c) { fprintf(stderr,"VPASSUME violated\n"); _Exit(65); } }
void vp_assume_nz(double x) { if(x==0) { fprintf(stderr,"VPASSUME violated\n"); _Exit(65); } }
void vp_assert(int c,const char* m) { if(!c) fail(m); }
void vp_assert_eq(double a,double b,const char* m) { double d=std::fabs(a-b), s=1+std::fabs(a)+std::fabs(b); if(!(d<=1e-7*s)) { fprintf(stderr,"%.17g vs %.17g\n",a,b); if(!std::isfinite(a)||!std::isfinite(b)) { fprintf(stderr,"VPNONFINITE\n"); _Exit(!std::isfinite(a)&&!std::isfinite(b)?67:68); } fail(m); } }
int vp_cfg(const char* n,int def) { load(); auto it=cfgs.find(n); return it==cfgs.end()?def:it->second; }
void vp_cover(const char*) {}
void vp_out(double x) { load(); if(outf) { fprintf(outf,"%.17g\n",x); fflush(outf); } } void vp_outi(int x) { load(); if(outf) { fprintf(outf,"%d\n",x); fflush(outf); } }
void vp_expect_abort(int on) { signal(SIGABRT,on?[](int){ _exit(0); }:SIG_DFL); } void vp_strict_div(int) {} void vp_async(int,int) {} void vp_race_ok(int) {} 
#ifndef VP_FIXEDCHK
void vp_fixed(int) {}
#endif
int vp_fixed_checks() { return 1; }
extern void omp_set_num_threads(int); extern int omp_get_max_threads(); void vp_threads(int n) { load(); if(!getenv("VP_ONE")) omp_set_num_threads(n); }
int vp_heap_live();
int vp_native() { return 1; } int vp_concrete(int x) { return x; } void vp_freeze(const void* p,int on) { if(!p||((size_t)p&4095)||!vp_cfg("pages",0)) return; size_t n=(malloc_usable_size((void*)p)/4096)*4096; if(n) mprotect((void*)p,n,on?PROT_READ:PROT_READ|PROT_WRITE); }
int vp_eq_bits(const double* a,const double* b,size_t n) { for(size_t i=0;i<n;i++) if(!(a[i]==b[i])) return 0; return 1; }
static std::string text; static bool first=true;
void vp_line() { text+="\n"; } static void tok(const std::string& s) { if(text.size()&&text.back()!='\n') text+=" "; text+=s; } void vp_tok_s(const char* s) { tok(s); } void vp_tok_i(int i) { tok(std::to_string(i)); } void vp_tok_r(double r) { std::ostringstream o; o<<std::setprecision(17)<<r; tok(o.str()); }
void vp_write_file(const char* fn) { FILE* f=fopen(fn,"w"); size_t p=text.size()&&text[0]=='\n'?1:0; fwrite(text.data()+p,1,text.size()-p,f); fputc('\n',f); fclose(f); }
void vp_clear_file() { text.clear(); }
}
// allocation counting for the leak checks
#include <new>
#include <cstdlib>
#ifdef VP_COUNT_HEAP
static long live=0; int vp_heap_live() { return (int)live; }
#else
extern "C" int vp_heap_live() { return 0; }
#endif
int main() { load(); extern void vp_entry(); vp_entry(); fprintf(stderr,"VPOK\n"); return 0; }

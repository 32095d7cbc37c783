#include "mat.h"
#include <vector>
#include "../src/helper_algorithms.hpp"
#include "../src/blas/blas1.hpp"
#include <utils/prefix_sum.hpp>
template<int bs> static void sorting(int n) {
	const int big=vp_cfg("big",0); int N=big?n:vp_concrete(vp_int("N",0,n)); int fam=big?vp_pick("fam",0,3):0; int* col=iarr(N); double* val=darr(N*bs*bs); std::vector<int> c0(N); std::vector<double> v0(N*bs*bs);
	for(int i=0;i<N;i++) { if(big) { static const int step[]={1,-1,7,11}; int s=step[fam]; col[i]=3*(s<0?N-i:s==11?(2*i<N?2*i:2*(N-i)-1):(i*s)%N)+2; } else col[i]=vp_int("col",0,vp_cfg("maxcol",1000000)); if(!big&&vp_cfg("distinct",1)) for(int j=0;j<i;j++) vp_assume(col[i]!=col[j]); c0[i]=col[i]; for(int k=0;k<bs*bs;k++) { val[i*bs*bs+k]=vp_real("v"); v0[i*bs*bs+k]=val[i*bs*bs+k]; } }
	internal::sortBlockInnerDimension<double,int,bs>(N,col,val);
	for(int i=0;i+1<N;i++) vp_assert(col[i]<col[i+1],"the columns ascend");
	for(int i=0;i<N;i++) { int found=0; for(int j=0;j<N;j++) if(c0[j]==col[i]) { found++; for(int k=0;k<bs*bs;k++) vp_assert_eq(val[i*bs*bs+k],v0[j*bs*bs+k],"each block moves with its column"); } vp_assert(found==1,"the columns are those given"); vp_outi(col[i]); }
	free(col); free(val);
}
static void scans(int n) {
	int N=vp_cfg("big",0)?n:vp_concrete(vp_int("N",0,n)); int lim=1000000;
	{ std::vector<int> v(N),s(N); device_vector<int> d(N); int t=0; for(int i=0;i<N;i++) { v[i]=vp_int("v",-lim,lim); d[i]=v[i]; t+=v[i]; s[i]=t; }
	const std::vector<int> w(v); std::vector<int> r=internal::inclusive_scan(w); internal::inclusive_scan(v); internal::inclusive_scan(d); vp_assert((int)r.size()==N&&(int)v.size()==N&&(int)d.size()==N,"the length stays");
	for(int i=0;i<N;i++) { vp_assert(v[i]==s[i],"a running total is exact"); vp_assert(r[i]==s[i],"the copying scan gives the running totals"); vp_assert(d[i]==s[i],"a running total in aligned storage is exact"); vp_outi(v[i]); } }
}
static void prefix(int n,int T) {
	int N=vp_cfg("big",0)?n-vp_pick("less",0,vp_cfg("big",0)):vp_concrete(vp_int("N",0,n)); vp_threads(vp_concrete(vp_int("T",1,T))); int* c=iarr(N); std::vector<int> v(N); for(int i=0;i<N;i++) { c[i]=vp_int("v",-1000000,1000000); v[i]=c[i]; }
	prefix_sum(c,N); int t=0; for(int i=0;i<N;i++) { vp_assert(c[i]==t,"the prefix sum holds the total of all earlier entries"); t+=v[i]; vp_outi(c[i]); }
	free(c);
}
static void search(int n) {
	const int big=vp_cfg("big",0); int N=big?n:vp_concrete(vp_int("N",0,n)); int* a=iarr(N); for(int i=0;i<N;i++) { if(big) a[i]=i*i+3*i; else { a[i]=vp_int("a",0,1000000); if(i) vp_assume(a[i]>a[i-1]); } } int ind=vp_int("ind",-1,1000001);
	int lo=big?vp_pick("lo",0,1)*N/3:vp_concrete(vp_int("lo",0,N)), hi=big?N-vp_pick("hi",0,1)*N/4:vp_concrete(vp_int("hi",0,N)); vp_assume(lo<=hi); int pos=-7; internal::inner_search<int>(a,lo,hi,ind,&pos);
	int want=-1; for(int i=lo;i<hi;i++) if(a[i]==ind) want=i; if(want>=0) vp_assert(pos==want,"the position of a present index is found"); else vp_assert(pos<lo||pos>=hi,"an absent index has no position"); vp_outi(pos); free(a);
}
static void norm(int n) {
	int N=vp_concrete(vp_int("N",1,n)); { device_vector<double> d(N); for(int i=0;i<N;i++) d[i]=vp_real("d"); double r=maxnorm(d); bool hit=false; for(int i=0;i<N;i++) { double x=d[i]<0?-d[i]:d[i]; vp_assert(r>=x,"no entry exceeds the norm"); hit=hit||r==x; } vp_assert(hit,"the norm is the magnitude of an entry"); vp_out(r); }
}
void vp_entry() { int n=vp_cfg("n",3),T=vp_cfg("threads",1); vp_threads(T);
	switch(vp_cfg("mode",0)) { case 0: { int bs=vp_cfg("bs",1); if(bs==1) sorting<1>(n); else if(bs==2) sorting<2>(n); else if(bs==5) sorting<5>(n); else if(bs==7) sorting<7>(n); else sorting<4>(n); break; } case 1: scans(n); break; case 2: prefix(n,T); break; case 3: search(n); break; default: norm(n); }
	vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end"); }

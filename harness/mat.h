// Symbolic (block) sparse-row matrices for the harnesses.  Every array is an exactly sized separate
// allocation so that any access outside it is visible.
#pragma once
#include "vp.h"
#include <srmatrixdefs.hpp>
using namespace blasted;
// (in a native replay with cfg pages: whole pages, so that a write to a frozen array traps)
static inline void* vpalloc(size_t b) { if(vp_native()&&vp_cfg("pages",0)) { void* p=nullptr; if(posix_memalign(&p,4096,(b/4096+1)*4096)) abort(); return p; } return malloc(b); }
static inline int* iarr(int n) { return (int*)vpalloc(sizeof(int)*(n>0?n:0)); }
static inline double* darr(int n) { return (double*)vpalloc(sizeof(double)*(n>0?n:0)); }
struct TM {
	int n, bs; int nnz; int *ptr, *col, *diag; double* val;
	CRawBSRMatrix<double,int> craw() const { return CRawBSRMatrix<double,int>(ptr,col,val,diag,ptr+1,n,nnz,nnz); }
	RawBSRMatrix<double,int> raw() const { return RawBSRMatrix<double,int>(ptr,col,val,diag,ptr+1,n,nnz,nnz); }
	SRMatrixStorage<const double,const int> view() const { return SRMatrixStorage<const double,const int>(ptr,col,val,diag,n>0?ptr+1:nullptr,n,nnz,nnz,bs); }
	SRMatrixStorage<double,int> mview() const { return SRMatrixStorage<double,int>(ptr,col,val,diag,n>0?ptr+1:nullptr,n,nnz,nnz,bs); }
	int pos(int i,int j) const { for(int k=ptr[i];k<ptr[i+1];k++) if(col[k]==j) return k; return -1; }
	// entry (r,c) of stored block k
	double ent(int k,int r,int c,bool rowmajor) const { return val[k*bs*bs+(rowmajor?r*bs+c:c*bs+r)]; }
	void freeze(int on) const { vp_freeze(ptr,on); vp_freeze(col,on); vp_freeze(val,on); vp_freeze(diag,on); }
	void destroy() { free(ptr); free(col); free(val); free(diag); }
};
enum { P_DIAG=1 /*all diagonal blocks present*/, P_SYM=2 /*symmetric pattern*/, P_LOWER=4, P_UPPER=8, P_FULL=16, P_TRI=32 /* tridiagonal band */, P_BIG=64 /* one fixed large pattern, cfg family */ };
// fixed pattern families for sizes at which all patterns cannot be covered
static inline bool famentry(int fam,int n,int i,int j) {
	switch(fam) {
	case 0: return i-j<=1&&j-i<=1;                                  // tridiagonal
	case 1: return i==j||i==n-1||j==n-1;                            // arrow: long last row and column
	case 2: return i==j||i==0||j==0;                                // arrow from the first row
	case 3: return i==j||((i*7+j*5+(i^j))%6==0);                    // scattered, not symmetric
	case 4: return i==j||(i-j<=6&&j-i<=6&&(i+j)%3!=1);              // wide band, symmetric
	case 5: return (i%3!=1)&&(i==j||(i*3+j)%4==0||i==n/2);          // rows without entries, one full row
	case 6: return i==j||(j<i&&i%4==3)||(i<j&&j%4==3);              // long and short rows alternate, symmetric
	default: return true; }
}
// any pattern with n block-rows; values arbitrary
static inline TM mkpat(int n,int bs,int flags) {
	TM m; m.n=n; m.bs=bs; m.ptr=iarr(n+1); m.diag=iarr(n); int cnt=0; const bool big=flags&P_BIG; const int fam=vp_cfg("family",0);
	// (the banded families only look at their band, so that thousands of rows are affordable)
	const int w = big&&fam==0?1 : big&&fam==4?6 : n-1, W=2*w+1; bool* a=(bool*)malloc(n*W);
	auto at=[=](int i,int j)->bool& { return a[i*W+j-i+w]; };
	for(int i=0;i<n;i++) for(int j=i>w?i-w:0;j<n&&j<=i+w;j++) {
		bool b;
		if(i==j&&(flags&P_DIAG)) b=true;
		else if((flags&P_LOWER)&&j>i) b=false; else if((flags&P_UPPER)&&j<i) b=false;
		else if((flags&P_TRI)&&(i-j>1||j-i>1)) b=false;
		else if(flags&P_FULL) b=true;
		else if((flags&P_SYM)&&j<i) b=at(j,i);
		else if(big) b=famentry(fam,n,i,j);
		else b=vp_concrete(vp_int("s",0,1))!=0;
		at(i,j)=b; cnt+=b; }
	vp_assume(cnt>=1); // element access in the library assumes at least one stored entry
	m.nnz=cnt; m.col=iarr(cnt); m.val=darr(cnt*bs*bs); int k=0;
	for(int i=0;i<n;i++) { m.ptr[i]=k; for(int j=i>w?i-w:0;j<n&&j<=i+w;j++) if(at(i,j)) { m.col[k]=j; if(i==j) m.diag[i]=k; k++; } if(!at(i,i)) m.diag[i]=-1; }
	m.ptr[n]=k; free(a);
	return m;
}
// values: arbitrary reals; with cfg param=P, arbitrary at P positions and fixed (diagonally heavy) elsewhere
static inline void fillv(TM& m,const char* nm="v") {
	const int P=vp_cfg("param",-1), N=m.nnz*m.bs*m.bs, b2=m.bs*m.bs; if(P<0) { for(int k=0;k<N;k++) m.val[k]=vp_real(nm); return; }
	for(int i=0;i<m.n;i++) for(int k=m.ptr[i];k<m.ptr[i+1];k++) for(int q=0;q<b2;q++) { int h=(k*b2+q)*29%11-5; m.val[k*b2+q]= m.col[k]==i&&q%(m.bs+1)==0? (double)(vp_cfg("diagv",16)<<((i+q)%2)) : (h?h:3)*0.25*vp_cfg("offm",1); }
	for(int p=0;p<P;p++) m.val[(int)((long)(2*p+1)*N/(2*P))]=vp_real(nm);
}
// chunk size: every value up to maxchunk (default n+1), or the one given by cfg chunk
static inline int pickchunk(int n) { int c=vp_cfg("chunk",0); return c>0?c:vp_concrete(vp_int("chunk",1,vp_cfg("maxchunk",n+1))); }
static inline TM mkmat(int n,int bs,int flags) { TM m=mkpat(n,bs,flags); fillv(m); return m; }
static inline double* mkvec(int n,const char* nm) { double* x=darr(n); for(int i=0;i<n;i++) x[i]=vp_real(nm); return x; }
// reference product row: sum_k A(i,k) x(k)
static inline double refrow(const TM& m,bool rm,int bi,int r,const double* x) { double s=0; for(int k=m.ptr[bi];k<m.ptr[bi+1];k++) for(int c=0;c<m.bs;c++) s+=m.ent(k,r,c,rm)*x[m.col[k]*m.bs+c]; return s; }

#include "mat.h"
#include <blockmatrices.hpp>
// a dense matrix of the stored values; ops are mirrored on it
template<int bs> struct Dense { double d[64][64]; };
// every value, or with cfg big the ends and the middle of the range
static int few(const char* nm,int lo,int hi) { if(!vp_cfg("big",0)) return vp_concrete(vp_int(nm,lo,hi)); int k=vp_pick(nm,0,2); return k==0?lo:k==1?hi:(lo+hi)/2; }
template<int bs> static void ops(BSRMatrix<double,int,bs>& A,const TM& m,Dense<bs>& D,int nops) {
	const int n=m.n; int lo=vp_cfg("firstop",0), hi=vp_cfg("lastop",5);
	for(int s=0;s<nops;s++) {
		int op=vp_pick("op",lo,hi); // case split, so that loops keep concrete bounds
		if(op==0) { A.setAllZero(); for(int i=0;i<n*bs;i++) for(int j=0;j<n*bs;j++) D.d[i][j]=0; }
		else if(op==1) { A.setDiagZero(); for(int i=0;i<n;i++) for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) D.d[i*bs+r][i*bs+c]=0; }
		else if(op==2) { double f=vp_real("f"); A.scaleAll(f); for(int i=0;i<n*bs;i++) for(int j=0;j<n*bs;j++) D.d[i][j]*=f; }
		else if(op==5) { // diagonal update
			int w=1,i0; if(bs==1) { w=few("w",1,n); i0=few("i",0,n-w); for(int r=i0;r<i0+w;r++) for(int c=i0;c<i0+w;c++) vp_assume(m.pos(r,c)>=0); } else i0=few("i",0,n-1);
			int L=bs==1?w:bs; double* buf=darr(L*L); for(int k=0;k<L*L;k++) buf[k]=vp_real("u"); vp_freeze(buf,1);
			A.updateDiagBlock(i0*bs,buf,L); for(int r=0;r<L;r++) for(int c=0;c<L;c++) D.d[i0*bs+r][i0*bs+c]+=buf[r*L+c]; vp_freeze(buf,0); free(buf); }
		else if(bs==1) { // rectangular segment whose entries are all stored
			int p=few("rows",1,vp_cfg("maxrows",n)), q=few("cols",1,n), i0=few("i",0,n-p), j0=few("j",0,n-q);
			for(int r=0;r<p;r++) for(int c=0;c<q;c++) vp_assume(m.pos(i0+r,j0+c)>=0);
			double* buf=darr(p*q); for(int k=0;k<p*q;k++) buf[k]=vp_real("u"); vp_freeze(buf,1);
			if(op==3) A.submitBlock(i0,j0,buf,p,q); else A.updateBlock(i0,j0,buf,p,q);
			for(int r=0;r<p;r++) for(int c=0;c<q;c++) { double& e=D.d[i0+r][j0+c]; e= op==3? buf[r*q+c]: e+buf[r*q+c]; } vp_freeze(buf,0); free(buf); }
		else { int i=few("i",0,n-1), j=few("j",0,n-1); // also a block that is not stored: then nothing happens
			double* buf=darr(bs*bs); for(int k=0;k<bs*bs;k++) buf[k]=vp_real("u"); vp_freeze(buf,1);
			if(op==3) A.submitBlock(i*bs,j*bs,buf,vp_int("dummy",-1,9),vp_int("dummy",-1,9)); else A.updateBlock(i*bs,j*bs,buf,vp_int("dummy",-1,9),vp_int("dummy",-1,9));
			if(m.pos(i,j)>=0) for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) { double& e=D.d[i*bs+r][j*bs+c]; e= op==3? buf[r*bs+c]: e+buf[r*bs+c]; } vp_freeze(buf,0); free(buf); }
	}
}
template<int bs> static void observe(BSRMatrix<double,int,bs>& A,const Dense<bs>& D,int n,const char* msg) {
	const int N=n*bs; vp_assert(A.dim()==N,"dim() is the number of scalar rows"); double* x=darr(N); double* y=darr(N);
	for(int j=0;j<N;j++) { for(int i=0;i<N;i++) { x[i]= i==j; y[i]=7; } A.apply(x,y); for(int i=0;i<N;i++) { vp_assert_eq(y[i],D.d[i][j],msg); vp_out(y[i]); } }
	free(x); free(y);
}
static double myabs(double x) { return x<0?-x:x; }
template<int bs> static void diagq(BSRMatrix<double,int,bs>&,const Dense<bs>&,int) {}
template<> void diagq<1>(BSRMatrix<double,int,1>& A,const Dense<1>& D,int n) {
	double prod=1,sum=0,mn=myabs(D.d[0][0]),mx=myabs(D.d[0][0]); int nz=0,first=-1;
	for(int i=0;i<n;i++) { double a=myabs(D.d[i][i]); vp_assume((a==0)|(a>1e-6)); } // away from the threshold of what counts as zero
	for(int i=0;i<n;i++) { double v=D.d[i][i],a=myabs(v); prod*=v; sum+=a; if(a<mn) mn=a; if(a>mx) mx=a; if(a==0) { nz++; if(first<0) first=i; } }
	vp_assert_eq(A.getDiagonalProduct(),prod,"product of the diagonal"); vp_assert_eq(A.getDiagonalAbsSum(),sum,"sum of the magnitudes of the diagonal");
	vp_assert((int)A.getNumZeroDiagonals()==nz,"number of zero diagonal entries"); vp_assert(A.zeroDiagonalRow()==first,"first row with a zero diagonal entry");
	vp_assert_eq(A.getAbsMaxDiagonalEntry(),mx,"largest magnitude on the diagonal"); vp_assert_eq(A.getAbsMinDiagonalEntry(),mn,"smallest magnitude on the diagonal");
}
template<int bs> static void run() {
	int n=vp_cfg("n",2), how=vp_cfg("how",0), nops=vp_cfg("ops",2); vp_threads(vp_cfg("threads",1));
	TM m=mkpat(n,bs,P_DIAG|vp_cfg("pat",0)); fillv(m); Dense<bs> D; for(int i=0;i<n*bs;i++) for(int j=0;j<n*bs;j++) D.d[i][j]=0;
	vp_freeze(m.ptr,1); vp_freeze(m.col,1);
	auto fill=[&]() { for(int i=0;i<n;i++) for(int k=m.ptr[i];k<m.ptr[i+1];k++) for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) D.d[i*bs+r][m.col[k]*bs+c]=m.val[k*bs*bs+r*bs+c]; };
	auto finish=[&](BSRMatrix<double,int,bs>& A) { ops<bs>(A,m,D,nops); observe<bs>(A,D,n,"the assembled matrix holds the values of the dense matrix"); if(vp_cfg("diag",0)) diagq<bs>(A,D,n); };
	if(how==2) { fill(); BSRMatrix<double,int,bs> A(n,m.ptr,m.col,m.val,m.diag); finish(A); // wraps: the outer arrays are the matrix
		for(int i=0;i<n;i++) for(int k=m.ptr[i];k<m.ptr[i+1];k++) for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) vp_assert_eq(m.val[k*bs*bs+r*bs+c],D.d[i*bs+r][m.col[k]*bs+c],"a wrapped array holds the assembled values"); }
	else if(how==0) { BSRMatrix<double,int,bs> A; A.setStructure(n,m.col,m.ptr); A.setAllZero(); finish(A); }
	else if(how==1) { BSRMatrix<double,int,bs> A(n,m.col,m.ptr); A.setAllZero(); finish(A); }
	else if(how==3) { // values submitted one block at a time into unset storage
		BSRMatrix<double,int,bs> A; A.setStructure(n,m.col,m.ptr); fill(); for(int i=n-1;i>=0;i--) for(int k=m.ptr[i];k<m.ptr[i+1];k++) A.submitBlock(i*bs,m.col[k]*bs,m.val+k*bs*bs,bs,bs); finish(A); }
	else if(how==5) { // another pattern of the same size first (often with as many blocks)
		TM w=mkpat(n,bs,vp_cfg("oldpat",vp_cfg("pat",0))); BSRMatrix<double,int,bs> A; A.setStructure(n,w.col,w.ptr); A.setAllZero(); w.destroy(); A.setStructure(n,m.col,m.ptr); A.setAllZero(); finish(A); }
	else { // changed structure of an object that already held another one
		BSRMatrix<double,int,bs> A; int p1[2]={0,1},c1[1]={0}; A.setStructure(1,c1,p1); A.setAllZero(); A.setStructure(n,m.col,m.ptr); A.setAllZero(); finish(A); }
	vp_freeze(m.ptr,0); vp_freeze(m.col,0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
// several threads add blocks at the same time
template<int bs> static void conc() {
	int n=vp_cfg("n",2); vp_threads(2); TM m=mkpat(n,bs,P_FULL|P_DIAG); Dense<bs> D; for(int i=0;i<n*bs;i++) for(int j=0;j<n*bs;j++) D.d[i][j]=0;
	BSRMatrix<double,int,bs> A; A.setStructure(n,m.col,m.ptr); A.setAllZero();
	double* u=mkvec(3*bs*bs,"u"); const int w=bs; int i=vp_concrete(vp_int("i",0,n-1)), j=vp_concrete(vp_int("j",0,n-1)), i2=vp_concrete(vp_int("i",0,n-1));
#pragma omp parallel for schedule(static,1)
	for(int t=0;t<3;t++) { if(t==1) A.updateDiagBlock(i2*bs,u+t*bs*bs,w); else A.updateBlock(i*bs,j*bs,u+t*bs*bs,w,w); }
	for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) { D.d[i*bs+r][j*bs+c]+=u[r*bs+c]+u[2*bs*bs+r*bs+c]; D.d[i2*bs+r][i2*bs+c]+=u[bs*bs+r*bs+c]; }
	observe<bs>(A,D,n,"concurrent additions all take effect"); free(u); m.destroy(); vp_cover("end");
}
void vp_entry() { int bs=vp_cfg("bs",1); if(vp_cfg("conc",0)) { if(bs==1) conc<1>(); else if(bs==2) conc<2>(); else conc<3>(); } else if(bs==1) run<1>(); else if(bs==2) run<2>(); else if(bs==3) run<3>(); else run<7>(); }

#include "mat.h"
#include <blockmatrices.hpp>
template<class V> static void run(V& A,const TM& m,bool rm) {
	const int N=m.n*m.bs; double* x=mkvec(N,"x"); double* y=darr(N);
	m.freeze(1); vp_freeze(x,1);
	A.apply(x,y);
	for(int i=0;i<N;i++) { vp_assert_eq(y[i],refrow(m,rm,i/m.bs,i%m.bs,x),"apply computes y=Ax"); vp_out(y[i]); }
	double a=vp_real("a"),b=vp_real("b"); double* yy=mkvec(N,"y"); double* z=darr(N); double* yc=darr(N); for(int i=0;i<N;i++) yc[i]=yy[i];
	int alias=vp_concrete(vp_int("alias",0,1)); double* zz=alias?yy:z; if(!alias) vp_freeze(yy,1);
	A.gemv3(a,x,b,yy,zz);
	for(int i=0;i<N;i++) { vp_assert_eq(zz[i],a*refrow(m,rm,i/m.bs,i%m.bs,x)+b*yc[i],"gemv3 computes z=aAx+by"); vp_out(zz[i]); }
	vp_assert(A.dim()==N,"dim() is the number of scalar rows");
	vp_freeze(yy,0);
	free(x); free(y); free(yy); free(z); free(yc);
}
void vp_entry() {
	int which=vp_cfg("which",0), n=vp_cfg("n",2), bs=vp_cfg("bs",1); vp_threads(vp_cfg("threads",1));
	TM m=mkmat(n,bs,vp_cfg("pat",0));
	if(which==0) { CSRMatrixView<double,int> A(n,m.ptr,m.col,m.val,m.diag); run(A,m,true); }
	else if(which==1&&bs==2) { BSRMatrixView<double,int,2,RowMajor> A(n,m.ptr,m.col,m.val,m.diag); run(A,m,true); }
	else if(which==2&&bs==2) { BSRMatrixView<double,int,2,ColMajor> A(n,m.ptr,m.col,m.val,m.diag); run(A,m,false); }
	else if(which==1&&bs==3) { BSRMatrixView<double,int,3,RowMajor> A(n,m.ptr,m.col,m.val,m.diag); run(A,m,true); }
	else if(which==2&&bs==3) { BSRMatrixView<double,int,3,ColMajor> A(n,m.ptr,m.col,m.val,m.diag); run(A,m,false); }
	else if(which==1&&bs==4) { BSRMatrixView<double,int,4,RowMajor> A(n,m.ptr,m.col,m.val,m.diag); run(A,m,true); }
	else if(which==2&&bs==4) { BSRMatrixView<double,int,4,ColMajor> A(n,m.ptr,m.col,m.val,m.diag); run(A,m,false); }
	else if(which==2&&bs==5) { BSRMatrixView<double,int,5,ColMajor> A(n,m.ptr,m.col,m.val,m.diag); run(A,m,false); }
	else if(which==1&&bs==7) { BSRMatrixView<double,int,7,RowMajor> A(n,m.ptr,m.col,m.val,m.diag); run(A,m,true); }
	else if(which==2&&bs==7) { BSRMatrixView<double,int,7,ColMajor> A(n,m.ptr,m.col,m.val,m.diag); run(A,m,false); }
	else if(which==3) { BSRMatrix<double,int,1> A(SRMatrixStorage<double,int>(m.mview())); run(A,m,true); }
	else if(which==4&&bs==3) { BSRMatrix<double,int,3> A(SRMatrixStorage<double,int>(m.mview())); run(A,m,true); }
	else if(which==4&&bs==7) { BSRMatrix<double,int,7> A(SRMatrixStorage<double,int>(m.mview())); run(A,m,true); }
	else vp_assert(0,"bad configuration");
	m.freeze(0); m.destroy();
	vp_assert(vp_heap_live()==0,"no memory is leaked");
	vp_cover("end");
}

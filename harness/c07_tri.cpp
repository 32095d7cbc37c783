#include "mat.h"
#include <blockmatrices.hpp>
// kind 0: lower, 1: upper, 2: upper view of the lower view, 3: lower view of the upper view (both are the diagonal)
static inline bool in(int kind,int i,int j) { return kind==0?j<=i:kind==1?j>=i:i==j; }
static inline double tri(const TM& m,bool rm,int kind,int bi,int r,const double* x) { double s=0; for(int k=m.ptr[bi];k<m.ptr[bi+1];k++) if(in(kind,bi,m.col[k])) for(int c=0;c<m.bs;c++) s+=m.ent(k,r,c,rm)*x[m.col[k]*m.bs+c]; return s; }
template<class V> static void product(V& A,const TM& m,bool rm,int kind) {
	const int N=m.n*m.bs; double* x=mkvec(N,"x"); double* y=darr(N); vp_freeze(x,1);
	A.apply(x,y); for(int i=0;i<N;i++) { vp_assert_eq(y[i],tri(m,rm,kind,i/m.bs,i%m.bs,x),"apply multiplies by the triangle"); vp_out(y[i]); }
	double a=vp_real("a"),b=vp_real("b"); double* yy=mkvec(N,"y"); double* z=darr(N); vp_freeze(yy,1);
	A.gemv3(a,x,b,yy,z); for(int i=0;i<N;i++) vp_assert_eq(z[i],a*tri(m,rm,kind,i/m.bs,i%m.bs,x)+b*yy[i],"gemv3 uses the triangle");
	vp_assert(A.dim()==N,"dim() is the number of scalar rows");
	vp_freeze(x,0); vp_freeze(yy,0); free(x); free(y); free(yy); free(z);
}
template<class S> static void structure(const S& v,const TM& m,int kind) {
	vp_assert(v.nbrows==m.n&&v.nbstored==m.nnz,"the view has the size of the matrix"); int cnt=0;
	for(int i=0;i<m.n;i++) { int k=v.browptr[i];
		for(int q=m.ptr[i];q<m.ptr[i+1];q++) if(in(kind,i,m.col[q])) { vp_assert(k<v.browendptr[i],"every block of the triangle is in the view"); vp_assert(v.bcolind[k]==m.col[q]&&k==q,"the view lists the triangle's blocks in order"); cnt++; k++; }
		vp_assert(k==v.browendptr[i],"no other block is in the view"); vp_assert(v.diagind[i]==m.diag[i],"diagonal positions stay the same"); vp_outi(v.browptr[i]); vp_outi(v.browendptr[i]); }
	vp_assert(v.nnzb==cnt,"the number of blocks is that of the triangle");
}
template<int bs,StorageOptions st> static void prod(SRMatrixStorage<const double,const int>&& v,const TM& m,int kind) {
	if(bs==1) { CSRMatrixView<double,int> A(std::move(v)); product(A,m,true,kind); } else { BSRMatrixView<double,int,bs==1?3:bs,st> A(std::move(v)); product(A,m,st==RowMajor,kind); }
}
template<int bs,StorageOptions st> static void run() {
	int n=vp_cfg("n",3), kind=vp_pick("kind",0,3); TM m=mkmat(n,bs,P_DIAG|vp_cfg("pat",0)); m.freeze(1);
	if(vp_cfg("raw",0)) {
		CRawBSRMatrix<double,int> c=m.craw(), t= kind==0||kind==2?getLowerTriangularView(c):getUpperTriangularView(c); structure(t,m,kind==0||kind==2?0:1);
		vp_assert(t.vals==m.val&&t.bcolind==m.col&&t.diagind==m.diag,"a view shares the values");
		if(kind>=2) { CRawBSRMatrix<double,int> u= kind==2?getUpperTriangularView(t):getLowerTriangularView(t); structure(u,m,kind); alignedDestroyRawBSRMatrixTriangularView(reinterpret_cast<RawBSRMatrix<double,int>&>(u)); structure(t,m,kind==2?0:1); }
		alignedDestroyRawBSRMatrixTriangularView(reinterpret_cast<RawBSRMatrix<double,int>&>(t));
		vp_assert(c.nbrows==n&&c.nnzb==m.nnz&&c.browptr==m.ptr,"the matrix is left alone");
	} else {
		SRMatrixStorage<const double,const int> s=m.view();
		{ SRMatrixStorage<const double,const int> t= kind==0||kind==2?getLowerTriangularView(std::move(s)):getUpperTriangularView(std::move(s)); structure(t,m,kind==0||kind==2?0:1);
		  vp_assert(&t.vals[0]==m.val&&&t.bcolind[0]==m.col&&&t.diagind[0]==m.diag,"a view shares the values");
		  if(kind>=2) { SRMatrixStorage<const double,const int> u= kind==2?getUpperTriangularView(std::move(t)):getLowerTriangularView(std::move(t)); structure(u,m,kind); prod<bs,st>(std::move(u),m,kind); structure(t,m,kind==2?0:1); }
		  else prod<bs,st>(std::move(t),m,kind); }
		vp_assert(s.nbrows==n&&s.nnzb==m.nnz&&s.browptr.size()==n+1&&s.vals.size()==m.nnz*bs*bs,"releasing a view leaves the matrix intact"); for(int i=0;i<n;i++) vp_assert(s.browptr[i]==m.ptr[i]&&s.browendptr[i]==m.ptr[i+1],"releasing a view leaves the matrix intact");
	}
	m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
void vp_entry() { vp_threads(vp_cfg("threads",1)); int bs=vp_cfg("bs",1),rm=vp_cfg("rm",0); if(bs==1) run<1,ColMajor>(); else if(bs==2&&rm) run<2,RowMajor>(); else if(bs==2) run<2,ColMajor>(); else if(bs==3&&rm) run<3,RowMajor>(); else if(bs==3) run<3,ColMajor>(); else run<4,ColMajor>(); }

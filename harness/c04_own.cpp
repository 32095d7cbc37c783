#include "mat.h"
#include <blockmatrices.hpp>
#include <stdexcept>
template<class A> static void eqi(const A& a,const int* b,int n,const char* msg) { for(int i=0;i<n;i++) vp_assert(a[i]==b[i],msg); }
template<class A> static void eqd(const A& a,const double* b,int n,const char* msg) { for(int i=0;i<n;i++) { vp_assert_eq(a[i],b[i],msg); vp_out(a[i]); } }
template<int bs> static void same(const BSRMatrix<double,int,bs>& A,const BSRMatrix<double,int,bs>& B,bool expect,const char* msg) { std::array<bool,5> e=A.isEqual(B,0); vp_assert((e[0]&&e[1]&&e[2]&&e[3]&&e[4])==expect,msg); }
// the product with every unit vector shows every stored value
template<int bs> static void observe(const BSRMatrix<double,int,bs>& A,const TM& m,double f,const char* msg) {
	const int N=m.n*bs; vp_assert(A.dim()==N,"dim() is the number of scalar rows"); double* x=darr(N); double* y=darr(N);
	for(int j=0;j<N;j++) { for(int i=0;i<N;i++) { x[i]= i==j; y[i]=7; } A.apply(x,y); for(int i=0;i<N;i++) { vp_assert_eq(y[i],f*refrow(m,true,i/bs,i%bs,x),msg); vp_out(y[i]); } }
	free(x); free(y);
}
template<int bs> static RawBSRMatrix<double,int> aligned(const TM& m) {
	RawBSRMatrix<double,int> r; auto a=[](size_t b) { return blasted::aligned_alloc(CACHE_LINE_LEN,b); };
	r.browptr=(int*)a((m.n+1)*sizeof(int)); r.bcolind=(int*)a(m.nnz*sizeof(int)); r.vals=(double*)a(m.nnz*bs*bs*sizeof(double)); r.diagind=(int*)a(m.n*sizeof(int)); r.browendptr=r.browptr+1; r.nbrows=m.n; r.nnzb=r.nbstored=m.nnz;
	for(int i=0;i<=m.n;i++) r.browptr[i]=m.ptr[i]; for(int k=0;k<m.nnz;k++) r.bcolind[k]=m.col[k]; for(int k=0;k<m.nnz*bs*bs;k++) r.vals[k]=m.val[k]; for(int i=0;i<m.n;i++) r.diagind[i]=m.diag[i]; return r;
}
template<int bs> static SRMatrixStorage<double,int> storage(const TM& m) {
	ArrayView<int> p(m.n+1),c(m.nnz),d(m.n); ArrayView<double> v(m.nnz*bs*bs); for(int i=0;i<=m.n;i++) p[i]=m.ptr[i]; for(int k=0;k<m.nnz;k++) c[k]=m.col[k]; for(int k=0;k<m.nnz*bs*bs;k++) v[k]=m.val[k]; for(int i=0;i<m.n;i++) d[i]=m.diag[i];
	ArrayView<int> e(&p[1],m.n); return SRMatrixStorage<double,int>(std::move(p),std::move(c),std::move(v),std::move(d),std::move(e),m.n,m.nnz,m.nnz);
}
static void checkst(const SRMatrixStorage<const double,const int>& s,const TM& m,const char* msg) {
	vp_assert(s.nbrows==m.n&&s.nnzb==m.nnz&&s.nbstored==m.nnz,"the sizes are carried over"); vp_assert(s.browptr.size()==m.n+1&&s.bcolind.size()==m.nnz&&s.vals.size()==m.nnz*m.bs*m.bs&&s.diagind.size()==m.n&&s.browendptr.size()==m.n,"the array lengths are carried over");
	eqi(s.browptr,m.ptr,m.n+1,msg); eqi(s.browendptr,m.ptr+1,m.n,msg); eqi(s.bcolind,m.col,m.nnz,msg); eqi(s.diagind,m.diag,m.n,msg); eqd(s.vals,m.val,m.nnz*m.bs*m.bs,msg);
}
template<int bs> static void copies(int n) {
	TM m=mkmat(n,bs,vp_cfg("pat",P_DIAG)); m.freeze(1); double f=vp_real("f"); const int how=vp_pick("how",0,4);
	TM w=m; w.val=darr(m.nnz*bs*bs); for(int k=0;k<m.nnz*bs*bs;k++) w.val[k]=m.val[k];
	BSRMatrix<double,int,bs>* A;
	if(how==0) A=new BSRMatrix<double,int,bs>(n,w.ptr,w.col,w.val,w.diag);
	else if(how==1) { auto r=aligned<bs>(m); A=new BSRMatrix<double,int,bs>(r); vp_assert(r.browptr==nullptr&&r.bcolind==nullptr&&r.vals==nullptr&&r.diagind==nullptr&&r.browendptr==nullptr&&r.nbrows==0&&r.nnzb==0&&r.nbstored==0,"a raw matrix handed over is nulled"); }
	else if(how==2) A=new BSRMatrix<double,int,bs>(storage<bs>(m));
	else if(how==3) A=new BSRMatrix<double,int,bs>(w.mview());
	else { A=new BSRMatrix<double,int,bs>(); A->setStructure(n,m.col,m.ptr); for(int i=0;i<n;i++) for(int k=m.ptr[i];k<m.ptr[i+1];k++) A->submitBlock(i*bs,m.col[k]*bs,m.val+k*bs*bs,bs,bs); }
	BSRMatrix<double,int,bs>* B=new BSRMatrix<double,int,bs>(*A); same(*A,*B,true,"a copy equals the original"); same(*A,*A,true,"a matrix equals itself");
	{ const SRMatrixStorage<double,int>& st=A->getRawSRMatrix(); const SRMatrixStorage<double,int>& sb=B->getRawSRMatrix(); vp_assert(st.nbrows==n&&st.nnzb==m.nnz&&st.nbstored==m.nnz&&sb.nbrows==n&&sb.nnzb==m.nnz&&sb.nbstored==m.nnz,"the sizes of a matrix and its copy"); vp_assert(st.browptr.size()==n+1&&sb.browptr.size()==n+1&&sb.bcolind.size()==m.nnz&&sb.vals.size()==m.nnz*bs*bs&&sb.diagind.size()==n&&sb.browendptr.size()==n,"the array lengths of a matrix and its copy");
	  eqi(sb.browptr,m.ptr,n+1,"row starts are copied"); eqi(sb.browendptr,m.ptr+1,n,"row ends are copied"); eqi(sb.bcolind,m.col,m.nnz,"columns are copied"); eqi(sb.diagind,m.diag,n,"diagonal positions are copied"); eqd(sb.vals,m.val,m.nnz*bs*bs,"values are copied"); eqd(st.vals,m.val,m.nnz*bs*bs,"copying leaves the original alone"); }
	const int first=vp_pick("first",0,1);
	if(first==0) { B->scaleAll(f); observe<bs>(*A,m,1,"changing a copy leaves the original alone"); delete A; observe<bs>(*B,m,f,"a copy has its own storage"); eqi(B->getRawSRMatrix().browendptr,m.ptr+1,n,"a copy has its own row ends"); delete B; }
	else { A->scaleAll(f); observe<bs>(*B,m,1,"changing the original leaves a copy alone"); delete B; observe<bs>(*A,m,f,"the original survives its copy"); eqi(A->getRawSRMatrix().browendptr,m.ptr+1,n,"the original keeps its row ends"); delete A; }
	if(how==0||how==3) eqd(w.val,m.val,0,""); // wrapped arrays still accessible
	if((how==0||how==3)) for(int k=0;k<m.nnz*bs*bs;k++) vp_assert_eq(w.val[k],(first==1?f:1)*m.val[k],"wrapped arrays hold what was done to the matrix");
	free(w.val); m.freeze(0); m.destroy();
}
template<int bs> static void raws(int n) {
	TM m=mkmat(n,bs,vp_cfg("pat",0)); m.freeze(1); CRawBSRMatrix<double,int> c=m.craw(); RawBSRMatrix<double,int> r=copyRawBSRMatrix<double,int,bs>(c);
	vp_assert(r.nbrows==n&&r.nnzb==m.nnz&&r.nbstored==m.nnz,"the sizes are copied"); eqi(r.browptr,m.ptr,n+1,"row starts are copied"); eqi(r.browendptr,m.ptr+1,n,"row ends are copied"); eqi(r.bcolind,m.col,m.nnz,"columns are copied"); for(int i=0;i<n;i++) vp_assert(r.diagind[i]==m.diag[i],"diagonal positions are copied"); eqd(r.vals,m.val,m.nnz*bs*bs,"values are copied");
	for(int k=0;k<m.nnz*bs*bs;k++) r.vals[k]=0; // the original is read-only: the copy must be separate
	alignedDestroyRawBSRMatrix(r); m.freeze(0); m.destroy();
}
// C: containers moved, shared and wrapped
template<int bs> static void moves(int n) {
	TM m=mkmat(n,bs,vp_cfg("pat",P_DIAG)); m.freeze(1); const int how=vp_pick("how",0,5);
	if(how==0) { auto s=storage<bs>(m); SRMatrixStorage<double,int> t(std::move(s)); auto c=move_to_const(std::move(t)); checkst(c,m,"a moved matrix keeps its contents"); vp_assert(t.nbrows==0&&t.nnzb==0&&t.nbstored==0&&t.browptr.size()==0&&t.vals.size()==0&&s.vals.size()==0&&s.bcolind.size()==0,"a matrix moved from is empty"); }
	else if(how==1) { auto c=move_to_const(m.mview()); checkst(c,m,"a moved wrapper keeps its contents"); SRMatrixStorage<const double,const int> d(std::move(c)); checkst(d,m,"a moved wrapper keeps its contents"); }
	else if(how==2) { auto s=storage<bs>(m); { auto c=share_with_const(s,bs); checkst(c,m,"a shared matrix shows the contents"); vp_assert(&c.vals[0]==&s.vals[0]&&&c.browptr[0]==&s.browptr[0]&&&c.bcolind[0]==&s.bcolind[0]&&&c.diagind[0]==&s.diagind[0],"a shared matrix uses the same arrays"); } auto c=move_to_const(std::move(s)); checkst(c,m,"the owner keeps its contents when a share ends"); }
	else if(how==3) { auto s=move_to_const(storage<bs>(m)); CRawBSRMatrix<double,int> r=createRawView(std::move(s)); vp_assert(r.nbrows==n&&r.nnzb==m.nnz&&r.nbstored==m.nnz,"the sizes are carried over"); vp_assert(r.vals==&s.vals[0]&&r.browptr==&s.browptr[0]&&r.bcolind==&s.bcolind[0]&&r.diagind==&s.diagind[0]&&r.browendptr==&s.browendptr[0],"a raw view shows the arrays"); checkst(s,m,"a raw view leaves the matrix alone"); }
	else if(how==4) { SRMatrixStorage<double,int> e; SRMatrixStorage<double,int> e2(std::move(e)); vp_assert(e2.nbrows==0&&e2.nnzb==0&&e2.nbstored==0&&e2.vals.size()==0,"an empty matrix is empty"); RawBSRMatrix<double,int> r; vp_assert(r.nbrows==0&&r.nnzb==0&&r.nbstored==0,"an empty raw matrix is empty"); alignedDestroyRawBSRMatrix(r); }
	else if(bs==1) { CSRMatrixView<double,int> v(move_to_const(storage<bs>(m))); checkst(v.getSRStorage(),m,"a view that takes a matrix over keeps its contents"); }
	else { BSRMatrixView<double,int,bs==1?3:bs,ColMajor> v(move_to_const(storage<bs>(m))); checkst(v.getSRStorage(),m,"a view that takes a matrix over keeps its contents"); }
	m.freeze(0); m.destroy();
}
// A: sequences of operations on array views; a model tracks contents and ownership
static void arrays() {
	const int K=vp_cfg("ops",3); double* ext=mkvec(2,"e"); double ex0=ext[0],ex1=ext[1];
	ArrayView<double>* a=new ArrayView<double>(); const double* cur=nullptr; double val[4]; int len=0; bool set=true; bool isext=false; double ev[2]={ex0,ex1};
	for(int s=0;s<K;s++) {
		int op=vp_pick("op",0,6);
		if(op==0) { int n=vp_concrete(vp_int("n",1,3)); a->resize(n); len=n; isext=false; for(int i=0;i<n;i++) { val[i]=vp_real("v"); (*a)[i]=val[i]; } }
		else if(op==1) { int n=vp_concrete(vp_int("n",0,2)); a->wrap(ext,n); len=n; isext=true; }
		else if(op==2) { ArrayView<double>* b=new ArrayView<double>(std::move(*a)); vp_assert(a->size()==0,"an array moved from is empty"); delete a; a=b; }
		else if(op==3) { int n=vp_concrete(vp_int("n",1,2)); double* d=(double*)blasted::aligned_alloc(CACHE_LINE_LEN,n*sizeof(double)); for(int i=0;i<n;i++) { val[i]=vp_real("v"); d[i]=val[i]; } a->take_control(d,n); len=n; isext=false; }
		else if(op==4) { ArrayView<const double> c=move_to_const(std::move(*a)); vp_assert(a->size()==0,"an array moved from is empty"); vp_assert(c.size()==len,"a moved array keeps its length"); for(int i=0;i<len;i++) vp_assert_eq(c[i],isext?ev[i]:val[i],"a moved array keeps its contents"); len=0; }
		else if(op==5) { delete a; int n=vp_concrete(vp_int("n",1,2)); int o=vp_pick("own",0,1); double* d=o?(double*)blasted::aligned_alloc(CACHE_LINE_LEN,n*sizeof(double)):ext; a=new ArrayView<double>(d,n,o!=0); len=n; isext=!o; if(o) for(int i=0;i<n;i++) { val[i]=vp_real("v"); d[i]=val[i]; } }
		else { delete a; a=new ArrayView<double>(2); len=2; isext=false; for(int i=0;i<2;i++) { val[i]=vp_real("v"); (*a)[i]=val[i]; } }
		vp_assert(a->size()==len,"the length is the one asked for"); if(isext&&len>0) { vp_assert(&(*a)[0]==ext,"a wrapped array is the external one"); double t=vp_real("w"); int i=vp_concrete(vp_int("at",0,len-1)); (*a)[i]=t; ev[i]=t; }
		for(int i=0;i<len;i++) { const ArrayView<double>& ca=*a; vp_assert_eq(ca[i],isext?ev[i]:val[i],"the contents are kept"); vp_out(ca[i]); }
	}
	delete a; vp_assert_eq(ext[0],ev[0],"an external array keeps what was written through its wrapper"); vp_assert_eq(ext[1],ev[1],"an external array keeps what was written through its wrapper"); free(ext);
}
// E: equality flags
template<int bs> static void equal(int n) {
	int n2=vp_pick("n2",1,n); TM a=mkmat(n,bs,P_DIAG), b=mkmat(n2,bs,P_DIAG); double tol=vp_real("tol"); vp_assume(tol>=0);
	BSRMatrix<double,int,bs> A(n,a.ptr,a.col,a.val,a.diag), B(n2,b.ptr,b.col,b.val,b.diag);
	std::array<bool,5> e=A.isEqual(B,tol), r=B.isEqual(A,tol); bool c0=n==n2,c1=true,c2=true,c3=true,c4=true;
	if(!c0) vp_assert(!e[0],"a different number of rows is reported");
	else if(a.nnz!=b.nnz) { vp_assert(e[0],"the same number of rows is reported"); vp_assert(!e[1],"a different number of entries is reported"); }
	else {
		for(int i=0;i<n;i++) { c1=c1&&a.ptr[i]==b.ptr[i]; c4=c4&&a.diag[i]==b.diag[i]; }
		for(int k=0;k<a.nnz;k++) c2=c2&&a.col[k]==b.col[k];
		for(int k=0;k<a.nnz*bs*bs;k++) { double d=a.val[k]-b.val[k]; if(d>tol||-d>tol) c3=false; }
		vp_assert(e[0],"the same number of rows is reported"); vp_assert(e[1]==c1,"row starts compare as they are"); vp_assert(e[2]==c2,"column indices compare as they are"); vp_assert(e[3]==c3,"values compare within the tolerance"); vp_assert(e[4]==c4,"diagonal positions compare as they are"); }
	for(int i=0;i<5;i++) { vp_assert(e[i]==r[i],"the comparison is symmetric"); vp_outi(e[i]); }
	a.destroy(); b.destroy();
}
template<int bs> static void run() {
	int n=vp_cfg("n",2); switch(vp_cfg("mode",0)) { case 0: copies<bs>(n); break; case 2: moves<bs>(n); break; default: equal<bs>(n); }
}
void vp_entry() { int bs=vp_cfg("bs",1),n=vp_cfg("n",2); vp_threads(vp_cfg("threads",1));
	if(vp_cfg("mode",0)==3) arrays(); else if(vp_cfg("mode",0)==1) { if(bs==1) raws<1>(n); else if(bs==2) raws<2>(n); else raws<4>(n); }
	else if(bs==1) run<1>(); else if(bs==2) run<2>(); else run<3>();
	vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end"); }

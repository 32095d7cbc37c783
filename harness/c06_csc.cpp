#include "mat.h"
#include <scmatrixdefs.hpp>
#include <stdexcept>
#include "../src/adjacency.hpp"
#include <srmatrixdefs.hpp>
namespace blasted { template<typename scalar,typename index,int bs,StorageOptions st> void bcsc_gemv3(const CRawBSCMatrix<scalar,index>* const mat,const scalar a,const scalar* const __restrict xx,const scalar b,const scalar* const yy,scalar* const zz); }
static inline bool has(const TM& m,int i,int j) { return m.pos(i,j)>=0; }
template<int bs> static void structure(const CRawBSCMatrix<double,int>& c,const TM& m,int base) {
	vp_assert(c.nbcols==m.n,"the number of columns is right"); int k=0;
	for(int j=0;j<m.n;j++) { vp_assert(c.bcolptr[j]==k+base,"column starts are right"); bool d=false;
		for(int i=0;i<m.n;i++) { int q=m.pos(i,j); if(q<0) continue; vp_assert(c.browind[k]==i+base,"rows ascend in each column and are those with a block"); if(i==j) { d=true; vp_assert(c.diagind[j]==k+base,"the diagonal position is right"); }
			for(int r=0;r<bs*bs;r++) { vp_assert_eq(c.vals[k*bs*bs+r],m.val[q*bs*bs+r],"each block keeps its value"); vp_out(c.vals[k*bs*bs+r]); } vp_outi(c.browind[k]); k++; }
		if(!d&&base==0) vp_assert(c.diagind[j]==-1,"a column without a diagonal block is marked"); }
	vp_assert(c.bcolptr[m.n]==k+base,"column starts are right");
}
template<int bs,StorageOptions st> static void gemv(const CRawBSCMatrix<double,int>& c,const TM& m) {
	const int N=m.n*bs; double* x=mkvec(N,"x"); double* y=mkvec(N,"y"); double* z=darr(N); double a=vp_real("a"),b=vp_real("b"); vp_freeze(x,1); vp_freeze(y,1);
	bcsc_gemv3<double,int,bs,st>(&c,a,x,b,y,z); for(int i=0;i<N;i++) { vp_assert_eq(z[i],a*refrow(m,st==RowMajor,i/bs,i%bs,x)+b*y[i],"the column-oriented product is z=aAx+by"); vp_out(z[i]); }
	vp_freeze(x,0); vp_freeze(y,0); free(x); free(y); free(z);
}
template<int bs> struct Gm { static void go(const CRawBSCMatrix<double,int>&,const TM&) {} };
template<> struct Gm<3> { static void go(const CRawBSCMatrix<double,int>& c,const TM& m) { gemv<3,ColMajor>(c,m); } };
template<> struct Gm<4> { static void go(const CRawBSCMatrix<double,int>& c,const TM& m) { gemv<4,ColMajor>(c,m); } };
template<> struct Gm<7> { static void go(const CRawBSCMatrix<double,int>& c,const TM& m) { gemv<7,RowMajor>(c,m); } };
template<int bs> static void conv(int n) {
	TM m=mkmat(n,bs,vp_cfg("pat",0)); m.freeze(1); CRawBSRMatrix<double,int> r=m.craw(); CRawBSCMatrix<double,int> c;
	convert_BSR_to_BSC<double,int,bs>(&r,&c); structure<bs>(c,m,0); if(vp_cfg("gemv",0)) Gm<bs>::go(c,m);
	vp_assert(r.nbrows==n&&r.nnzb==m.nnz,"the matrix is left alone"); alignedDestroyCRawBSCMatrix(c); m.freeze(0); m.destroy();
}
static void onebased(int n) { TM m=mkmat(n,1,vp_cfg("pat",0)); m.freeze(1); CRawBSRMatrix<double,int> r=m.craw(); CRawBSCMatrix<double,int> c=convert_BSR_to_BSC_1based<double,int,1>(&r); structure<1>(c,m,1); alignedDestroyCRawBSCMatrix(c); m.freeze(0); m.destroy(); }
static void adj(int n,int bs) {
	TM m=mkmat(n,bs,vp_cfg("pat",0)); m.freeze(1);
	{ SRMatrixStorage<double,int> s=m.mview(); ColumnAdjacency<double,int> ca(s); const std::vector<int>&p=ca.col_pointers(), &rows=ca.col_nonzero_rows(), &locs=ca.col_nonzero_locations();
	vp_assert((int)p.size()==n+1&&(int)rows.size()==m.nnz&&(int)locs.size()==m.nnz,"the lists have the right lengths"); int k=0;
	for(int j=0;j<n;j++) { vp_assert(p[j]==k,"each column's list starts where the previous one ends"); for(int i=0;i<n;i++) { int q=m.pos(i,j); if(q<0) continue; vp_assert(rows[k]==i,"a column lists exactly the rows with an entry in it"); vp_assert(locs[k]==q,"each entry's location is given"); vp_outi(locs[k]); k++; } }
	vp_assert(p[n]==k,"the last column's list ends the lists"); }
	m.freeze(0); m.destroy();
}
void vp_entry() { vp_threads(vp_cfg("threads",1)); int n=vp_cfg("n",3),bs=vp_cfg("bs",1),mode=vp_cfg("mode",0);
	if(mode==1) onebased(n); else if(mode==2) adj(n,bs); else if(bs==1) conv<1>(n); else if(bs==2) conv<2>(n); else if(bs==3) conv<3>(n); else if(bs==4) conv<4>(n); else if(bs==5) conv<5>(n); else conv<7>(n);
	vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end"); }

// Reference computations in exact block arithmetic, independent of the library's kernels.
#pragma once
#include "mat.h"
#include <Eigen/Core>
#include <Eigen/LU>
#include <vector>
template<int bs> using MB=Eigen::Matrix<double,bs,bs>;
template<int bs> using VB=Eigen::Matrix<double,bs,1>;
template<int bs> static MB<bs> blk(const TM& m,int k,bool rm) { MB<bs> b; for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) b(r,c)=m.ent(k,r,c,rm); return b; }
template<int bs> static VB<bs> seg(const double* x,int i) { VB<bs> v; for(int r=0;r<bs;r++) v(r)=x[i*bs+r]; return v; }
template<int bs> static void put(double* x,int i,const VB<bs>& v) { for(int r=0;r<bs;r++) x[i*bs+r]=v(r); }
// ILU factorization restricted to the pattern: row-wise elimination (IKJ)
template<int bs> struct RefILU { std::vector<std::vector<MB<bs>>> f; std::vector<std::vector<char>> in; int n;
	void init(int m) { n=m; f.assign(m,std::vector<MB<bs>>(m)); in.assign(m,std::vector<char>(m)); }
	void drop() { std::vector<std::vector<MB<bs>>>().swap(f); std::vector<std::vector<char>>().swap(in); } };
template<int bs> static void refilu(const TM& m,bool rm,RefILU<bs>& F) {
	F.init(m.n); for(int i=0;i<m.n;i++) for(int j=0;j<m.n;j++) { int k=m.pos(i,j); F.in[i][j]=k>=0; if(k>=0) F.f[i][j]=blk<bs>(m,k,rm); }
	for(int i=1;i<m.n;i++) for(int k=0;k<i;k++) if(F.in[i][k]) {
		F.f[i][k]=(F.f[i][k]*F.f[k][k].inverse()).eval();
		for(int j=k+1;j<m.n;j++) if(F.in[i][j]&&F.in[k][j]) F.f[i][j]-=F.f[i][k]*F.f[k][j]; }
}
template<int bs> static void refsolve(const RefILU<bs>& F,const double* r,double* z) {
	for(int i=0;i<F.n;i++) { VB<bs> s=seg<bs>(r,i); for(int k=0;k<i;k++) if(F.in[i][k]) s-=F.f[i][k]*seg<bs>(z,k); put<bs>(z,i,s); }
	for(int i=F.n-1;i>=0;i--) { VB<bs> s=seg<bs>(z,i); for(int k=i+1;k<F.n;k++) if(F.in[i][k]) s-=F.f[i][k]*seg<bs>(z,k); put<bs>(z,i,(F.f[i][i].inverse()*s).eval()); }
}
// (D+L) D^-1 (D+U) z = r
template<int bs> static void refsgs(const TM& m,bool rm,const double* r,double* z) {
	std::vector<double> y(m.n*bs);
	for(int i=0;i<m.n;i++) { VB<bs> s=seg<bs>(r,i); for(int k=m.ptr[i];k<m.ptr[i+1];k++) if(m.col[k]<i) s-=blk<bs>(m,k,rm)*seg<bs>(y.data(),m.col[k]); put<bs>(y.data(),i,(blk<bs>(m,m.pos(i,i),rm).inverse()*s).eval()); }
	for(int i=m.n-1;i>=0;i--) { VB<bs> s=VB<bs>::Zero(); for(int k=m.ptr[i];k<m.ptr[i+1];k++) if(m.col[k]>i) s+=blk<bs>(m,k,rm)*seg<bs>(z,m.col[k]); put<bs>(z,i,(seg<bs>(y.data(),i)-blk<bs>(m,m.pos(i,i),rm).inverse()*s).eval()); }
}
// one Gauss-Seidel / Jacobi row update from xin into xout
template<int bs> static void refrelax(const TM& m,bool rm,int i,const double* b,const double* xin,double* xout) {
	VB<bs> s=seg<bs>(b,i); for(int k=m.ptr[i];k<m.ptr[i+1];k++) if(m.col[k]!=i) s-=blk<bs>(m,k,rm)*seg<bs>(xin,m.col[k]);
	put<bs>(xout,i,(blk<bs>(m,m.pos(i,i),rm).inverse()*s).eval());
}
static inline void eqvec(const double* a,const double* b,int n,const char* msg) { for(int i=0;i<n;i++) vp_assert_eq(a[i],b[i],msg); }
static inline void outvec(const double* a,int n) { for(int i=0;i<n;i++) vp_out(a[i]); }

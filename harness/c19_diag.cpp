#include "prec.h"
#include <cmath>
// kind 0: asynchronous ILU, 1: level-scheduled ILU
template<int bs> static MB<bs> scaled(const TM& m,bool rm,int k,int i,int j,const double* s) { MB<bs> b=blk<bs>(m,k,rm); if(s) for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) b(r,c)*=s[i*bs+r]*s[j*bs+c]; return b; }
template<int bs> static double abssum(const MB<bs>& b) { double t=0; for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) t+=std::fabs(b(r,c)); return t; }
// sum over the stored blocks of |A - L U|
template<int bs> static double remainder(const TM& m,bool rm,const RefILU<bs>& F,const double* s) {
	double t=0; for(int i=0;i<m.n;i++) for(int q=m.ptr[i];q<m.ptr[i+1];q++) { int j=m.col[q]; MB<bs> d=scaled<bs>(m,rm,q,i,j,s); for(int k=0;k<i&&k<=j;k++) if(F.in[i][k]&&F.in[k][j]) d-=F.f[i][k]*F.f[k][j]; if(j>=i) d-=F.f[i][j]; t+=abssum<bs>(d); } return t;
}
template<int bs,StorageOptions st> static void run() {
	const bool rm=st==RowMajor; int n=vp_cfg("n",2), N=n*bs, sc=vp_cfg("scale",0), nb=vp_cfg("nb",1), kind=vp_cfg("kind",0); vp_threads(vp_cfg("threads",1));
	TM m=mkmat(n,bs,P_DIAG|vp_cfg("pat",0)|(kind?P_SYM:0)); if(sc) posdiag(m,rm); for(int i=0;i<n;i++) for(int r=0;r<bs;r++) vp_assume_nz(m.ent(m.diag[i],r,r,rm)); m.freeze(1); double* s=nullptr; if(sc) { s=darr(N); for(int i=0;i<N;i++) s[i]=1/std::sqrt(m.ent(m.diag[i/bs],i%bs,i%bs,rm)); }
	int fi=vp_cfg("finit",-1); if(fi<0) fi=vp_concrete(vp_int("finit",nb?0:1,2));
	Prec* p= kind?Mk<bs,st>::lilu(m.view(),nb,sc,1,(FactInit)fi,true,true):Mk<bs,st>::ilu(m.view(),nb,1,sc,1,(FactInit)fi,INIT_A_ZERO,true,true,true);
	PrecInfo pi=p->compute();
	RefILU<bs> I; I.init(n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) { int q=m.pos(i,j); I.in[i][j]=q>=0; if(q<0) continue; I.f[i][j]= fi==INIT_F_ZERO?MB<bs>(MB<bs>::Zero()):scaled<bs>(m,rm,q,i,j,s); if(fi==INIT_F_SGS&&j<i) { int d=m.pos(j,j); I.f[i][j]=(I.f[i][j]*scaled<bs>(m,rm,d,j,j,s).inverse()).eval(); } }
	vp_assert_eq(pi.prec_rem_initial_norm(),remainder<bs>(m,rm,I,s),"the initial remainder is that of the initial factors"); vp_out(pi.prec_rem_initial_norm());
	RefILU<bs> F=I;
	if(nb>0) { TM w=m; w.val=darr(m.nnz*bs*bs); for(int i=0;i<n;i++) for(int q=m.ptr[i];q<m.ptr[i+1];q++) { MB<bs> b=scaled<bs>(m,rm,q,i,m.col[q],s); for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) w.val[q*bs*bs+(rm?r*bs+c:c*bs+r)]=b(r,c); } refilu<bs>(w,rm,F); free(w.val); vp_assert_eq(pi.prec_remainder_norm(),0,"the remainder of the exact factors is zero"); }
	else vp_assert_eq(pi.prec_remainder_norm(),remainder<bs>(m,rm,F,s),"the remainder is that of the factors");
	double la=0,ua=0,lm=0,um=0;
	if(vp_cfg("dd",1)) { for(int i=0;i<n;i++) for(int r=0;r<bs;r++) { double l=0,u=0; for(int j=0;j<n;j++) if(F.in[i][j]) for(int c=0;c<bs;c++) { if(j<i) l+=std::fabs(F.f[i][j](r,c)); else if(j>i||c!=r) u+=std::fabs(F.f[i][j](r,c)); } l=1-l; u=1-u/std::fabs(F.f[i][i](r,r)); la+=l; ua+=u; if((i==0&&r==0)||l<lm) lm=l; if((i==0&&r==0)||u<um) um=u; }
	la/=N; ua/=N; vp_assert_eq(pi.lower_avg_diag_dom(),la,"average diagonal dominance of the lower factor"); vp_assert_eq(pi.upper_avg_diag_dom(),ua,"average diagonal dominance of the upper factor");
	if(vp_cfg("mins",1)) { vp_assert_eq(pi.lower_min_diag_dom(),lm,"minimum diagonal dominance of the lower factor"); vp_assert_eq(pi.upper_min_diag_dom(),um,"minimum diagonal dominance of the upper factor"); }
	vp_out(pi.lower_avg_diag_dom()); vp_out(pi.upper_avg_diag_dom()); }
	I.drop(); F.drop(); free(s); delete p; m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
void vp_entry() { DISPATCH(run); }

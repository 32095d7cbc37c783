#include "prec.h"
#include "../src/sai.hpp"
// mode 0: complete pattern, 1: incomplete pattern, 2: incomplete approximate inverse, 3: complete approximate inverse
static bool dense(const TM& m,int j,int k) { return m.pos(j,k)>=0; }
static void pattern(const TM& m,const LeftSAIPattern<int>& sp,bool full,bool out) {
	const int n=m.n; vp_assert((int)sp.sairowptr.size()==n+1&&(int)sp.nVars.size()==n&&(int)sp.nEqns.size()==n&&(int)sp.localCentralRow.size()==n,"one system is described per row");
	int col=0,ent=0; vp_assert(sp.sairowptr[0]==0,"the first system starts at the first column");
	for(int i=0;i<n;i++) {
		int K[48],nk=0,loc[48]; for(int k=0;k<n;k++) { bool in=false; if(full) { for(int j=0;j<n;j++) in=in||(dense(m,i,j)&&dense(m,j,k)); } else in=dense(m,i,k); loc[k]=-1; if(in) { loc[k]=nk; K[nk++]=k; } } (void)K;
		int nv=m.ptr[i+1]-m.ptr[i]; vp_assert(sp.nVars[i]==nv,"the variables of a system are the entries of its row"); vp_assert(sp.nEqns[i]==nk,"the equations of a system are the columns its pattern reaches"); vp_assert(sp.localCentralRow[i]==loc[i],"the diagonal equation is located"); if(out) { vp_outi(sp.nEqns[i]); vp_outi(sp.localCentralRow[i]); }
		for(int j=0;j<n;j++) if(dense(m,i,j)) { vp_assert(sp.bcolptr[col]==ent,"the columns of a system start where the previous one ends"); col++;
			for(int k=0;k<n;k++) { int q=m.pos(j,k); if(q<0||loc[k]<0) continue; vp_assert(sp.bpos[ent]==q,"a column of a system holds exactly the entries of that matrix row"); vp_assert(sp.browind[ent]==loc[k],"each entry is in the equation of its column"); if(out) vp_outi(sp.browind[ent]); ent++; } }
		vp_assert(sp.sairowptr[i+1]==col,"each system's columns follow the previous one's"); }
	vp_assert(sp.bcolptr[col]==ent&&(int)sp.bcolptr.size()==col+1,"the columns end at the last entry"); vp_assert((int)sp.bpos.size()==ent&&(int)sp.browind.size()==ent,"nothing else is listed");
}
static double det(const double a[8][8],int n,int row,unsigned used) { if(row==n) return 1; double s=0; int sg=1; for(int c=0;c<n;c++) if(!(used>>c&1)) { s+=sg*a[row][c]*det(a,n,row+1,used|1u<<c); sg=-sg; } return s; }
// the local systems of the incomplete inverse are regular
template<int bs> static void regular(const TM& m) { for(int i=0;i<m.n;i++) { double a[8][8]; int N=0; for(int j=0;j<m.n;j++) if(dense(m,i,j)) { int M=0; for(int k=0;k<m.n;k++) if(dense(m,i,k)) { int q=m.pos(j,k); for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) a[N+r][M+c]=q<0?0:m.ent(q,r,c,false); M+=bs; } N+=bs; } vp_assume_nz(det(a,N,0,0)); } }
template<int bs> static void inverse(const TM& m,const LeftSAIPattern<int>& sp,bool full) {
	const int n=m.n,b2=bs*bs; SRMatrixStorage<const double,const int> A=m.view(); if(!full) regular<bs>(m); TM w=m; w.val=darr(m.nnz*b2); for(int i=0;i<m.nnz*b2;i++) w.val[i]=vp_real("w");
	{ SRMatrixStorage<double,int> S=w.mview(); compute_SAI<double,int,bs,ColMajor>(A,sp,vp_pick("chunk",1,vp_cfg("maxchunk",2)),full,S); }
	for(int i=0;i<m.nnz*b2;i++) vp_out(w.val[i]);
	// residual R(k)=sum_j M(i,j) A(j,k) - [i==k] over the equations; incomplete: zero; complete: orthogonal to the rows used
	for(int i=0;i<n;i++) { MB<bs> R[48]; bool eq[48];
		for(int k=0;k<n;k++) { eq[k]=false; R[k]=MB<bs>::Zero(); if(i==k) R[k]-=MB<bs>::Identity();
			for(int j=0;j<n;j++) if(dense(m,i,j)&&dense(m,j,k)) { eq[k]=true; R[k]+=blk<bs>(w,w.pos(i,j),false)*blk<bs>(m,m.pos(j,k),false); } }
		for(int k=0;k<n;k++) for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) {
			if(!full&&dense(m,i,k)) vp_assert_eq(R[k](r,c),0,"the incomplete inverse satisfies its equations"); }
		if(full) for(int j=0;j<n;j++) if(dense(m,i,j)) { MB<bs> g=MB<bs>::Zero(); for(int k=0;k<n;k++) if(dense(m,j,k)) g+=R[k]*blk<bs>(m,m.pos(j,k),false).transpose(); for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) vp_assert_eq(g(r,c),0,"the complete inverse satisfies the normal equations"); } (void)eq; }
	free(w.val);
}
template<int bs,StorageOptions st> static void run() {
	int n=vp_cfg("n",3),mode=vp_cfg("mode",0); vp_threads(vp_cfg("threads",1)); TM m=mkmat(n,bs,P_DIAG|vp_cfg("pat",0)); m.freeze(1);
	{ bool full=(mode==0||mode==3); LeftSAIPattern<int> sp=full?left_SAI_pattern<double,int>(m.view()):left_incomplete_SAI_pattern<double,int>(m.view()); pattern(m,sp,full,mode<2); if(mode>=2) inverse<bs==2?2:bs==4?4:1>(m,sp,full); }
	m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
void vp_entry() { DISPATCH(run); }

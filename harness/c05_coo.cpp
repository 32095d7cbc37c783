#include "coo.h"
#include <coomatrix.hpp>
// mode 0: conversion to (block) sparse rows through the file reader
template<int bs> static void check(const Coo& A,SRMatrixStorage<double,int>& s,bool rm) {
	const int n=A.n, nb=n/bs; vp_assert(s.nbrows==nb,"the number of block rows is right"); vp_assert(s.browptr.size()==nb+1&&s.diagind.size()==nb,"the row arrays have the right length"); vp_assert(s.browptr[0]==0,"row starts begin at zero");
	vp_assert(s.bcolind.size()==s.browptr[nb]&&s.vals.size()==s.browptr[nb]*bs*bs&&s.nnzb==s.browptr[nb]&&s.nbstored==s.nnzb,"the entry arrays have the right length");
	vp_assert(s.browendptr.size()==nb,"row ends are given for every row");
	for(int i=0;i<nb;i++) {
		vp_assert(s.browptr[i]<=s.browptr[i+1]&&s.browendptr[i]==s.browptr[i+1],"row starts and ends are consistent");
		bool diag=false; int k=s.browptr[i];
		for(int j=0;j<nb;j++) {
			bool any=false; for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) any=any||A.has[i*bs+r][j*bs+c];
			if(!any) continue;
			vp_assert(k<s.browptr[i+1],"every block with an entry is stored"); vp_assert(s.bcolind[k]==j,"columns of a row are ascending and exactly the non-empty ones");
			if(i==j) { diag=true; vp_assert(s.diagind[i]==k,"the diagonal position is right"); }
			for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) vp_assert_eq(s.vals[k*bs*bs+(rm?r*bs+c:c*bs+r)],A.v[i*bs+r][j*bs+c],"a converted entry has the value of the coordinate matrix");
			k++; }
		vp_assert(k==s.browptr[i+1],"no other block is stored"); if(!diag) vp_assert(s.diagind[i]==-1,"a row without a diagonal entry is marked"); }
	for(int k=0;k<s.vals.size();k++) vp_out(s.vals[k]); for(int k=0;k<s.bcolind.size();k++) vp_outi(s.bcolind[k]);
}
void vp_entry() {
	int n=vp_cfg("n",2), bs=vp_cfg("bs",1), which=vp_cfg("which",0); Coo A; unsigned long mask=vp_cfg("mask",-1);
	{ COOMatrix<double,int> M;
	if(vp_cfg("pre",0)) { // the object has read another matrix before
		coo_header(); const int e[5][2]={{3,3},{1,2},{2,2},{1,1},{3,1}}; vp_line(); vp_tok_i(3); vp_tok_i(3); vp_tok_i(5); for(int k=0;k<5;k++) { vp_line(); vp_tok_i(e[k][0]); vp_tok_i(e[k][1]); vp_tok_r(7.0+k); }
		vp_write_file("pre.mtx"); M.readMatrixMarket("pre.mtx"); vp_assert(M.numrows()==3&&M.numnonzeros()==5,"the first matrix is read"); vp_clear_file(); }
	coo_header(); coo_comments(1); coo_entries(A,n,mask,vp_cfg("maxnnz",16),true); coo_order(A,vp_cfg("perm",0)); coo_body(A); vp_write_file("m.mtx");
	{ M.readMatrixMarket("m.mtx");
	vp_assert(M.numrows()==n&&M.numcols()==n&&M.numnonzeros()==A.nnz,"the coordinate matrix has the size of the file");
	const std::vector<Entry<double,int>>& e=M.getEntries(); const std::vector<int>& rp=M.getRowPtrs(); int k=0; vp_assert((int)e.size()==A.nnz&&(int)rp.size()==n+1,"all entries are kept");
	for(int i=0;i<n;i++) { vp_assert(rp[i]==k,"row starts of the coordinate matrix"); for(int j=0;j<n;j++) if(A.has[i][j]) { vp_assert(e[k].rowind==i&&e[k].colind==j,"entries are sorted by row, then column"); vp_assert_eq(e[k].value,A.v[i][j],"an entry keeps its value"); k++; } }
	vp_assert(rp[n]==k,"row starts of the coordinate matrix");
	if(bs==1) { auto s= which==0?M.convertToCSR():getSRMatrixFromCOO<double,int,1>(M,"rowmajor"); check<1>(A,s,true); }
	else if(bs==2) { auto s=getSRMatrixFromCOO<double,int,2>(M,which?"colmajor":"rowmajor"); check<2>(A,s,!which); }
	else if(bs==3) { auto s=getSRMatrixFromCOO<double,int,3>(M,which?"colmajor":"rowmajor"); check<3>(A,s,!which); }
	if(vp_cfg("badorder",0)) { bool th=false; try { auto s=getSRMatrixFromCOO<double,int,3>(M,"columnmajor"); } catch(const std::runtime_error&) { th=true; } vp_assert(th,"an unknown storage order is refused"); }
	} }
	vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}

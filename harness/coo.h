// Coordinate files for the harnesses: any set of entries of an n x n matrix (every row non-empty), in any order.
#pragma once
#include "mat.h"
struct Coo { int n,nnz; bool has[48][48]; double v[48][48]; int r[700],c[700]; };
static inline void coo_header(const char* st="coordinate",const char* sc="real",const char* ty="general") { vp_line(); vp_tok_s("%%MatrixMarket"); vp_tok_s("matrix"); vp_tok_s(st); vp_tok_s(sc); vp_tok_s(ty); }
static inline void coo_comments(int k) { for(int i=0;i<k;i++) { vp_line(); vp_tok_s("%"); if(i%2) { vp_tok_s("3"); vp_tok_s("3"); } } }
// picks a set of positions; mask restricts which ones may appear (bit i*n+j), order rotates/reverses/permutes the listing
static inline void coo_entries(Coo& A,int n,unsigned long mask,int maxnnz,bool rowsfull) {
	A.n=n; A.nnz=0; const bool big=vp_cfg("pat",0)&P_BIG; for(int i=0;i<n;i++) { int rowc=0; for(int j=0;j<n;j++) { bool b=false; if(big) b=famentry(vp_cfg("family",0),n,i,j); else if(mask>>(i*n+j)&1) b=vp_concrete(vp_int("has",0,1))!=0; A.has[i][j]=b; A.v[i][j]=0; if(b) { A.r[A.nnz]=i; A.c[A.nnz]=j; A.nnz++; rowc++; } } if(rowsfull) vp_assume(rowc>=1); vp_assume(A.nnz<=maxnnz); }
	vp_assume(A.nnz>=1);
	for(int k=0;k<A.nnz;k++) A.v[A.r[k]][A.c[k]]=vp_real("v");
}
// permutes the listing: every permutation when full, else reversal / rotation
static inline void coo_order(Coo& A,int full) {
	if(full) { for(int k=A.nnz-1;k>0;k--) { int p=vp_concrete(vp_int("perm",0,k)); int t=A.r[k]; A.r[k]=A.r[p]; A.r[p]=t; t=A.c[k]; A.c[k]=A.c[p]; A.c[p]=t; } }
	else { int o=vp_concrete(vp_int("order",0,2)); if(o==1) for(int k=0;k<A.nnz/2;k++) { int q=A.nnz-1-k; int t=A.r[k]; A.r[k]=A.r[q]; A.r[q]=t; t=A.c[k]; A.c[k]=A.c[q]; A.c[q]=t; }
		if(o==2) { // by columns
			for(int a=0;a<A.nnz;a++) for(int b=a+1;b<A.nnz;b++) if(A.c[b]*48+A.r[b]<A.c[a]*48+A.r[a]) { int t=A.r[a]; A.r[a]=A.r[b]; A.r[b]=t; t=A.c[a]; A.c[a]=A.c[b]; A.c[b]=t; } } }
}
static inline void coo_body(const Coo& A,int upto=-1,int toks=3) {
	vp_line(); vp_tok_i(A.n); vp_tok_i(A.n); vp_tok_i(A.nnz);
	for(int k=0;k<A.nnz;k++) { if(upto>=0&&k>=upto) { if(k==upto&&toks>0) { vp_line(); vp_tok_i(A.r[k]+1); if(toks>1) vp_tok_i(A.c[k]+1); } break; } vp_line(); vp_tok_i(A.r[k]+1); vp_tok_i(A.c[k]+1); vp_tok_r(A.v[A.r[k]][A.c[k]]); }
}

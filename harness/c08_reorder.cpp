#include "prec.h"
#include <blockmatrices.hpp>
#include <reorderingscaling.hpp>
// an ordering whose permutations are given by the harness
template<int bs> struct Ord : public ReorderingScaling<double,int,bs> {
	int n; int *r,*c; int computed=0; Ord(int n_) : n(n_),r(nullptr),c(nullptr) {}
	void compute(const CRawBSRMatrix<double,int>& mat) { computed++; vp_assert(mat.nbrows==n,"the ordering is computed for the matrix"); this->setOrdering(r,c,n); }
	void scales(const double* rs,const double* cs) { if(rs) this->rowscale.assign(rs,rs+n); if(cs) this->colscale.assign(cs,cs+n); }
};
static int* perm(int n,const char* nm) { int* p=iarr(n); if(vp_cfg("bigperm",0)) { int k=vp_pick(nm,0,2); for(int i=0;i<n;i++) p[i]= k==0?n-1-i:k==1?(i*vp_cfg("bigperm",0)+3)%n:(i+n/2)%n; return p; } for(int i=0;i<n;i++) { p[i]=vp_concrete(vp_int(nm,0,n-1)); for(int j=0;j<i;j++) vp_assume(p[j]!=p[i]); } return p; }
static inline int at(const int* p,int i) { return p?p[i]:i; }
template<class A,class B,class C,class D,class E> static void isordered(const A& ptr,const B& end,const C& col,const D& val,const E& diag,const TM& m,bool rm,const int* rp,const int* cp,const double* rs,const double* cs,const char* msg) {
	const int bs=m.bs; int k=0; for(int i=0;i<m.n;i++) { vp_assert(ptr[i]==k,"row starts follow the ordering"); int oi=at(rp,i); bool dg=false;
		for(int j=0;j<m.n;j++) { int q=m.pos(oi,at(cp,j)); if(q<0) continue; vp_assert(k<m.nnz&&col[k]==j,"columns are renamed and ascend"); if(i==j) { dg=true; vp_assert(diag[i]==k,"diagonal positions follow the ordering"); }
			double f=(rs?rs[oi]:1)*(cs?cs[at(cp,j)]:1); for(int r=0;r<bs*bs;r++) { vp_assert_eq(val[k*bs*bs+r],f*m.val[q*bs*bs+r],msg); vp_out(val[k*bs*bs+r]); } k++; }
		if(!dg) vp_assert(diag[i]==-1,"a row without a diagonal block is marked"); vp_assert(end[i]==k,"row ends follow the ordering"); }
	vp_assert(ptr[m.n]==k,"row starts follow the ordering");
}
template<int bs> static void pick(Ord<bs>& o,int n) { int w=vp_pick("which",vp_cfg("wlo",0),3); if(w&1) o.r=perm(n,"rp"); if(w&2) o.c=perm(n,"cp"); }
template<int bs> static TM copyof(const TM& m) { TM w=m; w.ptr=iarr(m.n+1); w.col=iarr(m.nnz); w.diag=iarr(m.n); w.val=darr(m.nnz*bs*bs); for(int i=0;i<=m.n;i++) w.ptr[i]=m.ptr[i]; for(int k=0;k<m.nnz;k++) w.col[k]=m.col[k]; for(int i=0;i<m.n;i++) w.diag[i]=m.diag[i]; for(int k=0;k<m.nnz*bs*bs;k++) w.val[k]=m.val[k]; return w; }
template<int bs> static void matrix(int n) {
	TM m=mkmat(n,bs,vp_cfg("pat",0)), w=copyof<bs>(m); Ord<bs>* o=new Ord<bs>(n); pick(*o,n); m.freeze(1);
	RawBSRMatrix<double,int> r=w.raw(); o->compute(w.craw()); vp_assert(o->isRowReordering()==(o->r!=nullptr),"a row ordering is reported when there is one");
	const int inv=vp_pick("inv",0,1);
	if(inv==0) { o->applyOrdering(r,FORWARD); isordered(r.browptr,r.browendptr,r.bcolind,r.vals,r.diagind,m,false,o->r,o->c,nullptr,nullptr,"each block moves to its new position"); o->applyOrdering(r,INVERSE); }
	else { o->applyOrdering(r,INVERSE); o->applyOrdering(r,FORWARD); }
	isordered(r.browptr,r.browendptr,r.bcolind,r.vals,r.diagind,m,false,nullptr,nullptr,nullptr,nullptr,"the other direction restores each block");
	free(o->r); free(o->c); delete o; m.freeze(0); m.destroy(); w.destroy();
}
template<int bs> static void vectors(int n) {
	const int N=n*bs; Ord<bs>* o=new Ord<bs>(n); pick(*o,n); o->setOrdering(o->r,o->c,n); double* v=mkvec(N,"v"); double* w=darr(N); for(int i=0;i<N;i++) w[i]=v[i];
	RSApplyDir d=vp_pick("dir",0,1)?COLUMN:ROW; const int inv=vp_pick("inv",0,1); const int* p= d==ROW?o->r:o->c; o->applyOrdering(v,inv?INVERSE:FORWARD,d);
	for(int i=0;i<n;i++) for(int k=0;k<bs;k++) { if(inv) vp_assert_eq(v[at(p,i)*bs+k],w[i*bs+k],"the inverse moves entry i to position p[i]"); else vp_assert_eq(v[i*bs+k],w[at(p,i)*bs+k],"entry i of the ordered vector is entry p[i] of the original"); vp_out(v[i*bs+k]); }
	o->applyOrdering(v,inv?FORWARD:INVERSE,d); eqvec(v,w,N,"the other direction restores the vector"); free(o->r); free(o->c); delete o; free(v); free(w);
}
template<int bs> static void scaling(int n) {
	const int N=n*bs; TM m=mkmat(n,bs,vp_cfg("pat",0)), w=copyof<bs>(m); Ord<bs>* o=new Ord<bs>(n); const int which=vp_pick("which",0,3); double* rs= which&1?mkvec(n,"r"):nullptr; double* cs= which&2?mkvec(n,"c"):nullptr; o->scales(rs,cs); m.freeze(1);
	for(int i=0;i<n;i++) { if(rs) vp_assume_nz(rs[i]); if(cs) vp_assume_nz(cs[i]); }
	RawBSRMatrix<double,int> r=w.raw(); const int inv=vp_pick("inv",0,1);
	if(inv==0) { o->applyScaling(r,FORWARD); isordered(r.browptr,r.browendptr,r.bcolind,r.vals,r.diagind,m,false,nullptr,nullptr,rs,cs,"block (i,j) is scaled by row factor i and column factor j"); o->applyScaling(r,INVERSE); }
	else { o->applyScaling(r,INVERSE); o->applyScaling(r,FORWARD); }
	isordered(r.browptr,r.browendptr,r.bcolind,r.vals,r.diagind,m,false,nullptr,nullptr,nullptr,nullptr,"the other direction restores each block");
	double* v=mkvec(N,"v"); double* u=darr(N); for(int i=0;i<N;i++) u[i]=v[i]; RSApplyDir d=vp_pick("dir",0,1)?COLUMN:ROW; const double* s= d==ROW?rs:cs;
	o->applyScaling(v,FORWARD,d); for(int i=0;i<N;i++) { vp_assert_eq(v[i],u[i]*(s?s[i/bs]:1),"entry i of the scaled vector is scaled by factor i"); vp_out(v[i]); } o->applyScaling(v,INVERSE,d); eqvec(v,u,N,"the other direction restores the vector");
	free(v); free(u); free(rs); free(cs); delete o; m.freeze(0); m.destroy(); w.destroy();
}
template<int bs> static void both(int n) {
	TM m=mkmat(n,bs,P_DIAG|vp_cfg("pat",0)), w=copyof<bs>(m); Ord<bs>* o=new Ord<bs>(n); pick(*o,n); const int which=vp_pick("scales",0,3); double* rs= which&1?mkvec(n,"r"):nullptr; double* cs= which&2?mkvec(n,"c"):nullptr; o->scales(rs,cs);
	for(int i=0;i<n;i++) { if(rs) vp_assume_nz(rs[i]); if(cs) vp_assume_nz(cs[i]); }
	{ BSRMatrix<double,int,bs> A(w.mview()); A.computeOrderingScaling(*o); vp_assert(o->computed==1,"the ordering is computed once"); const SRMatrixStorage<double,int>& s=A.getRawSRMatrix();
	A.reorderScale(*o,FORWARD); isordered(s.browptr,s.browendptr,s.bcolind,s.vals,s.diagind,m,false,o->r,o->c,rs,cs,"the matrix is scaled, then ordered");
	A.reorderScale(*o,INVERSE); isordered(s.browptr,s.browendptr,s.bcolind,s.vals,s.diagind,m,false,nullptr,nullptr,nullptr,nullptr,"the inverse restores the matrix"); }
	free(rs); free(cs); free(o->r); free(o->c); delete o; m.destroy(); w.destroy();
}
static void ilu(int n) {
	TM m=mkmat(n,1,vp_cfg("pat",0)); Ord<1>* o=new Ord<1>(n); pick(*o,n); TM B; B.n=n; B.bs=1; B.nnz=m.nnz; B.ptr=iarr(n+1); B.diag=iarr(n); B.col=iarr(m.nnz); B.val=darr(m.nnz); int k=0;
	for(int i=0;i<n;i++) { B.ptr[i]=k; B.diag[i]=-1; for(int j=0;j<n;j++) { int q=m.pos(at(o->r,i),at(o->c,j)); if(q<0) continue; if(i==j) B.diag[i]=k; B.col[k]=j; B.val[k]=m.val[q]; k++; } } B.ptr[n]=k;
	for(int i=0;i<n;i++) { vp_assume(B.diag[i]>=0); vp_assume(B.val[B.diag[i]]>0); }
	m.freeze(1); double* b=mkvec(n,"b"); double* bp=darr(n); double* x=mkvec(n,"x"); double* y=darr(n); double* e=darr(n); vp_freeze(b,1); int T=vp_cfg("threads",1);
	int fi=vp_cfg("finit",1); if(fi<0) fi=vp_concrete(vp_int("finit",0,3));
	Prec* p=new ReorderedAsyncILU0_SRPreconditioner<double,int>(m.view(),o,vp_cfg("nb",1),vp_cfg("na",1),vp_concrete(vp_int("chunk",1,vp_cfg("maxchunk",2))),(FactInit)fi,INIT_A_ZERO,T==1,T==1);
	for(int rep=0;rep<vp_cfg("rep",1);rep++) {
		if(rep) { m.freeze(0); fillv(m,"w"); m.freeze(1); for(int i=0,kk=0;i<n;i++) for(int j=0;j<n;j++) { int q=m.pos(at(o->r,i),at(o->c,j)); if(q>=0) B.val[kk++]=m.val[q]; } for(int i=0;i<n;i++) vp_assume(B.val[B.diag[i]]>0); }
		p->compute(); p->apply(b,x);
		RefILU<1> F; refilu<1>(B,true,F); for(int i=0;i<n;i++) bp[i]=b[at(o->r,i)]; refsolve<1>(F,bp,y); for(int i=0;i<n;i++) e[at(o->c,i)]=y[i];
		eqvec(x,e,n,"the reordered system is solved with its incomplete factors and mapped back"); }
	outvec(x,n); vp_assert(p->dim()==n,"dim() is the number of rows"); delete p; vp_freeze(b,0); free(b); free(bp); free(x); free(y); free(e); free(o->r); free(o->c); delete o; m.freeze(0); m.destroy(); B.destroy();
}
template<int bs> static void run(int n) { switch(vp_cfg("mode",0)) { case 0: matrix<bs>(n); break; case 1: vectors<bs>(n); break; default: scaling<bs>(n); } }
void vp_entry() { vp_threads(vp_cfg("threads",1)); int n=vp_cfg("n",3),bs=vp_cfg("bs",1),mode=vp_cfg("mode",0);
	if(mode==4) ilu(n); else if(mode==3) { if(bs==1) both<1>(n); else if(bs==2) both<2>(n); else both<7>(n); }
	else if(bs==1) run<1>(n); else if(bs==2) run<2>(n); else run<4>(n);
	vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end"); }

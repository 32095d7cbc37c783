#include "prec.h"
#include <blockmatrices.hpp>
#include <reorderingscaling.hpp>
#include <solverfactory.hpp>
// kinds: 0 Jacobi 1 SGS 2 ILU 3 level SGS 4 level ILU 5 chaotic GS 6 column backward GS 7 none 8 reordered ILU 9 matrix views 10 triangular views
struct Ord : public ReorderingScaling<double,int,1> { int n; int p[64]; Ord(int n_) : n(n_) {} void compute(const CRawBSRMatrix<double,int>&) { this->setOrdering(p,p,n); } };
template<int bs,StorageOptions st> static Prec* make(int kind,SRC&& m,int nb,int na,int sc,int ch,int fi,int ai,bool tf,bool ta,bool info,Ord* o) {
	switch(kind) {
	case 0: return Mk<bs,st>::jacobi(std::move(m));
	case 1: return Mk<bs,st>::sgs(std::move(m),na,(ApplyInit)ai,ch);
	case 2: return Mk<bs,st>::ilu(std::move(m),nb,na,sc,ch,(FactInit)fi,(ApplyInit)ai,tf,ta,info);
	case 3: return Mk<bs,st>::lsgs(std::move(m));
	case 4: return Mk<bs,st>::lilu(std::move(m),nb,sc,ch,(FactInit)fi,tf,info);
	case 5: return Mk<bs,st>::chaotic(std::move(m),na,ch);
	case 6: return new CSC_BGS_Preconditioner<double,int>(std::move(m),na,ch);
	case 8: return new ReorderedAsyncILU0_SRPreconditioner<double,int>(std::move(m),o,nb,na,ch,(FactInit)fi,(ApplyInit)ai,tf,ta);
	default: return new NoPreconditioner<double,int>(std::move(m),bs);
	}
}
template<int bs,StorageOptions st> static void run() {
	const bool rm=st==RowMajor; int n=vp_cfg("n",2), N=n*bs, T=vp_cfg("threads",1), kind=vp_cfg("kind",0); vp_threads(T); vp_race_ok(1);
	const bool ilu=kind==2, lilu=kind==4, re=kind==8;
	int sc=(ilu||lilu)?vp_pick("scale",0,1):0, nb=(ilu||lilu||re)?vp_pick("nb",1,vp_cfg("maxsweeps",2)):1, na=(ilu||re||kind==1||kind==5||kind==6)?vp_pick("na",1,vp_cfg("maxsweeps",2)):1, ch=vp_pick("chunk",1,2);
	int fi=(ilu||lilu||re)?vp_pick("finit",T==1?0:1,2):0, ai=(ilu||re)?vp_pick("ainit",0,1):kind==1?vp_pick("ainit",0,2):0; bool tf=true,ta=true,info=false; if(ilu) { tf=vp_pick("tf",0,1); ta=vp_pick("ta",0,1); } if(lilu) tf=vp_pick("tf",0,1); if(ilu||lilu) info=vp_pick("info",0,1);
	TM m=mkmat(n,bs,P_DIAG|(kind==3||kind==4?P_SYM:0)|vp_cfg("pat",0)); if(sc) posdiag(m,rm); for(int i=0;i<n;i++) for(int r=0;r<bs;r++) vp_assume_nz(m.ent(m.diag[i],r,r,rm));
	double* b=mkvec(N,"b"); double* x=mkvec(N,"x"); double* v0=darr(m.nnz*bs*bs); for(int i=0;i<m.nnz*bs*bs;i++) v0[i]=m.val[i]; double* b0=darr(N); for(int i=0;i<N;i++) b0[i]=b[i];
	int *p0=iarr(n+1), *c0=iarr(m.nnz), *d0=iarr(n); for(int i=0;i<=n;i++) p0[i]=m.ptr[i]; for(int i=0;i<m.nnz;i++) c0[i]=m.col[i]; for(int i=0;i<n;i++) d0[i]=m.diag[i];
	m.freeze(1); vp_freeze(b,1);
	if(kind<9) {
		Ord* o=nullptr; if(re) { o=new Ord(n); for(int i=0;i<n;i++) o->p[i]=n-1-i; }
		Prec* p=make<bs,st>(kind,m.view(),nb,na,sc,ch,fi,ai,tf,ta,info,o); p->compute(); p->apply(b,x);
		if(p->relaxationAvailable()) { SolveParams<double> sp{0,0,0,false,vp_pick("its",0,2)}; p->setApplyParams(sp); p->apply_relax(b,x); }
		if(vp_cfg("again",0)) { p->compute(); p->apply(b,x); }
		outvec(x,N); delete p; delete o;
	} else if(bs==1) {
		if(kind==9) { CSRMatrixView<double,int> A(m.view()); A.apply(b,x); A.gemv3(vp_real("al"),b,vp_real("be"),b,x); }
		else { int up=vp_pick("upper",0,1); CSRMatrixView<double,int> A(up?getUpperTriangularView(m.view()):getLowerTriangularView(m.view())); A.apply(b,x); A.gemv3(vp_real("al"),b,vp_real("be"),b,x); }
		outvec(x,N);
	} else {
		if(kind==9) { BSRMatrixView<double,int,bs==1?2:bs,st> A(m.view()); A.apply(b,x); A.gemv3(vp_real("al"),b,vp_real("be"),b,x); }
		else { int up=vp_pick("upper",0,1); BSRMatrixView<double,int,bs==1?2:bs,st> A(up?getUpperTriangularView(m.view()):getLowerTriangularView(m.view())); A.apply(b,x); A.gemv3(vp_real("al"),b,vp_real("be"),b,x); }
		outvec(x,N);
	}
	m.freeze(0); vp_freeze(b,0);
	for(int i=0;i<N;i++) vp_assert_eq(b[i],b0[i],"the input vector is as before"); for(int i=0;i<m.nnz*bs*bs;i++) vp_assert_eq(m.val[i],v0[i],"the matrix values are as before");
	for(int i=0;i<=n;i++) vp_assert(m.ptr[i]==p0[i],"the row pointers are as before"); for(int i=0;i<m.nnz;i++) vp_assert(m.col[i]==c0[i],"the column indices are as before"); for(int i=0;i<n;i++) vp_assert(m.diag[i]==d0[i],"the diagonal positions are as before");
	free(b); free(x); free(v0); free(b0); free(p0); free(c0); free(d0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
void vp_entry() { DISPATCH(run); }

#include "prec.h"
#include <async_ilu_factor.hpp>
#include <ilu_pattern.hpp>
// mode 0: one thread; 1: several threads with serial factorization and application requested;
// 2: several threads, further asynchronous sweeps started from the fixed point
template<int bs,StorageOptions st> static void run() {
	const bool rm=st==RowMajor; int n=vp_cfg("n",2), mode=vp_cfg("mode",0), N=n*bs, T=vp_cfg("threads",1), nb=vp_cfg("nb",1), na=vp_cfg("na",1), sc=vp_cfg("scale",0); vp_threads(T);
	TM m=mkmat(n,bs,P_DIAG|vp_cfg("pat",0)); if(sc) posdiag(m,rm); m.freeze(1);
	int chunk=pickchunk(n);
	int fi=vp_cfg("finit",-1); if(fi<0) fi=vp_concrete(vp_int("finit",0,3)); int ai=vp_cfg("ainit",-1); if(ai<0) ai=vp_concrete(vp_int("ainit",0,1));
	double* b=mkvec(N,"b"); double* x=mkvec(N,"x"); double* e=darr(N); vp_freeze(b,1);
	Prec* p=Mk<bs,st>::ilu(m.view(),nb,na,sc,chunk,(FactInit)fi,(ApplyInit)ai,mode!=1,mode!=1,false); vp_assert(p->dim()==N,"dim() is the number of scalar rows");
	vp_assert(!p->relaxationAvailable(),"no relaxation is offered");
	if(mode==2) vp_fixed(2);
	p->compute(); p->apply(b,x); vp_fixed(0);
	{ RefILU<bs> F; refilu<bs>(m,rm,F); refsolve<bs>(F,b,e); }
	eqvec(x,e,N,"apply solves with the incomplete factors on the pattern of A"); outvec(x,N);
	if(vp_cfg("twice",0)) { p->apply(b,x); eqvec(x,e,N,"a second application gives the same result"); }
	delete p; vp_freeze(b,0); free(b); free(x); free(e); m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
// the factorization functions called directly: the factors themselves
static void factors() {
	int n=vp_cfg("n",2), nb=vp_cfg("nb",1), fn=vp_pick("fn",0,1); TM m=mkmat(n,1,P_DIAG|vp_cfg("pat",0)); m.freeze(1); CRawBSRMatrix<double,int> a=m.craw(); int chunk=pickchunk(n); const bool thr=vp_pick("threaded",0,1);
	FactInit fi=(FactInit)vp_pick("finit",nb?1:0,2); double* f=darr(m.nnz); ILUPositions<int> pl=compute_ILU_positions_CSR_CSR(&a);
	if(fn==0) scalar_ilu0_factorize_noscale<double,int>(&a,pl,nb,chunk,thr,fi,f); else scalar_ilu0_factorize<double,int>(&a,pl,nb,chunk,thr,fi,false,f,nullptr);
	RefILU<1> F; refilu<1>(m,false,F);
	for(int i=0;i<n;i++) for(int k=m.ptr[i];k<m.ptr[i+1];k++) { int j=m.col[k]; double v=m.val[k];
		double e= nb ? F.f[i][j](0,0) : fi==INIT_F_ZERO ? 0 : fi==INIT_F_ORIGINAL ? v : j<i ? v/m.val[m.diag[j]] : v;
		vp_assert_eq(f[k],e,nb?"the factors are those of the incomplete factorization":"the initial factors are those requested"); }
	outvec(f,m.nnz); free(f); m.freeze(0); m.destroy(); vp_cover("end");
}
void vp_entry() { if(vp_cfg("mode",0)==3) factors(); else DISPATCH(run); }

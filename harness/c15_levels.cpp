#include "prec.h"
// kind 0: level-scheduled SGS apply, 1: its relaxation, 2: level-scheduled ILU
template<int bs,StorageOptions st> static void run() {
	const bool rm=st==RowMajor; int n=vp_cfg("n",3), kind=vp_cfg("kind",0), N=n*bs, T=vp_cfg("threads",2), sc=vp_cfg("scale",0), tf=vp_cfg("tf",0); vp_threads(T);
	TM m=mkmat(n,bs,P_DIAG|P_SYM|vp_cfg("pat",0)); if(sc) posdiag(m,rm); m.freeze(1);
	double* b=mkvec(N,"b"); double* x=mkvec(N,"x"); double* e=darr(N); for(int i=0;i<N;i++) e[i]=x[i]; vp_freeze(b,1);
	Prec* p= kind<2?Mk<bs,st>::lsgs(m.view()):Mk<bs,st>::lilu(m.view(),vp_cfg("nb",1),sc,1,(FactInit)vp_cfg("finit",INIT_F_ORIGINAL),tf,false);
	if(tf) vp_fixed(2);
	p->compute(); vp_fixed(0); vp_race_ok(0);
	if(kind==1) { int its=vp_cfg("its",1); SolveParams<double> sp{0,0,0,false,its}; p->setApplyParams(sp); p->apply_relax(b,x);
		for(int s=0;s<its;s++) { for(int i=0;i<n;i++) refrelax<bs>(m,rm,i,b,e,e); for(int i=n-1;i>=0;i--) refrelax<bs>(m,rm,i,b,e,e); }
		eqvec(x,e,N,"level-scheduled relaxation equals sequential symmetric Gauss-Seidel");
	} else { p->apply(b,x);
		if(kind==0) refsgs<bs>(m,rm,b,e); else { RefILU<bs> F; refilu<bs>(m,rm,F); refsolve<bs>(F,b,e); }
		eqvec(x,e,N,"level-scheduled application equals the sequential one");
		double* x2=mkvec(N,"y"); p->apply(b,x2); eqvec(x2,e,N,"a second application gives the same result"); free(x2); }
	outvec(x,N); delete p; vp_freeze(b,0); free(b); free(x); free(e); m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
void vp_entry() { DISPATCH(run); }

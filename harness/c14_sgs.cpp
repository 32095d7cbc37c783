#include "prec.h"
template<int bs,StorageOptions st> static void run() {
	const bool rm=st==RowMajor; int n=vp_cfg("n",2), mode=vp_cfg("mode",0), N=n*bs, T=vp_cfg("threads",1), sw=vp_cfg("sweeps",1); vp_threads(T);
	TM m=mkmat(n,bs,P_DIAG|vp_cfg("pat",0)); m.freeze(1);
	int chunk=pickchunk(n); ApplyInit ai= mode==0?(ApplyInit)(vp_cfg("ainit",-1)>=0?vp_cfg("ainit",-1):vp_concrete(vp_int("ainit",0,2))):INIT_A_NONE;
	double* b=mkvec(N,"b"); double* x=mkvec(N,"x"); double* e=darr(N); for(int i=0;i<N;i++) e[i]=x[i];
	if(mode==4) { // start at a solution of A x = b
		for(int i=0;i<N;i++) b[i]=refrow(m,rm,i/bs,i%bs,x); }
	vp_freeze(b,1);
	Prec* p=Mk<bs,st>::sgs(m.view(),sw,ai,chunk); vp_assert(p->dim()==N,"dim() is the number of scalar rows"); p->compute();
	if(mode==0||mode==1) {
		if(mode==1) vp_fixed(2);
		p->apply(b,x); vp_fixed(0);
		refsgs<bs>(m,rm,b,e); eqvec(x,e,N,"apply solves (D+L)D^-1(D+U)z=r");
		// once more, on top of the previous state
		if(vp_cfg("twice",0)) { p->apply(b,x); eqvec(x,e,N,"a second application gives the same result"); }
	} else {
		int its=vp_cfg("its",1); SolveParams<double> sp{0,0,0,false,its}; p->setApplyParams(sp);
		if(mode==4) vp_fixed(1); else if(mode==3) vp_fixed(100);
		p->apply_relax(b,x); vp_fixed(0);
		if(mode!=4) for(int s=0;s<its;s++) { for(int i=0;i<n;i++) refrelax<bs>(m,rm,i,b,e,e); for(int i=n-1;i>=0;i--) refrelax<bs>(m,rm,i,b,e,e); }
		eqvec(x,e,N,mode==4?"the exact solution is left unchanged by the relaxation":"relaxation performs symmetric Gauss-Seidel iterations");
	}
	outvec(x,N); delete p; vp_freeze(b,0); free(b); free(x); free(e); m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
void vp_entry() { DISPATCH(run); }

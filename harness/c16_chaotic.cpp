#include "prec.h"
template<int bs,StorageOptions st> static void run() {
	const bool rm=st==RowMajor; int n=vp_cfg("n",2), mode=vp_cfg("mode",0), N=n*bs, T=vp_cfg("threads",1), sw=vp_cfg("sweeps",1), relax=vp_cfg("relax",0); vp_threads(T);
	TM m=mkmat(n,bs,P_DIAG|vp_cfg("pat",0)); m.freeze(1);
	int chunk=pickchunk(n);
	double* b=mkvec(N,"b"); double* x=mkvec(N,"x"); double* e=darr(N); for(int i=0;i<N;i++) e[i]=x[i];
	if(mode==1) for(int i=0;i<N;i++) b[i]=refrow(m,rm,i/bs,i%bs,x);
	vp_freeze(b,1);
	Prec* p=Mk<bs,st>::chaotic(m.view(),relax?7:sw,chunk); vp_assert(p->dim()==N,"dim() is the number of scalar rows"); p->compute();
	SolveParams<double> sp{0,0,0,false,relax?sw:7}; p->setApplyParams(sp);
	if(mode==1) vp_fixed(1);
	if(relax) p->apply_relax(b,x); else p->apply(b,x);
	vp_fixed(0);
	if(mode==0) for(int s=0;s<sw;s++) for(int i=0;i<n;i++) refrelax<bs>(m,rm,i,b,e,e);
	eqvec(x,e,N,mode==1?"the exact solution is left unchanged by the relaxation":"one thread performs Gauss-Seidel sweeps");
	outvec(x,N); delete p; vp_freeze(b,0); free(b); free(x); free(e); m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
void vp_entry() { DISPATCH(run); }

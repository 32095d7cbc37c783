#include "prec.h"
template<int bs,StorageOptions st> static void run() {
	const bool rm=st==RowMajor; int n=vp_cfg("n",2), mode=vp_cfg("mode",0), N=n*bs; vp_threads(vp_cfg("threads",1));
	TM m=mkmat(n,bs,P_DIAG|vp_cfg("pat",0)); m.freeze(1);
	Prec* p=Mk<bs,st>::jacobi(m.view()); vp_assert(p->dim()==N,"dim() is the number of scalar rows"); vp_assert(p->relaxationAvailable(),"relaxation is available");
	p->compute();
	double* b=mkvec(N,"b"); vp_freeze(b,1); double* x=mkvec(N,"x"); double* e=darr(N); for(int i=0;i<N;i++) e[i]=x[i];
	if(mode==0) {
		p->apply(b,x); for(int i=0;i<n;i++) put<bs>(e,i,(blk<bs>(m,m.diag[i],rm).inverse()*seg<bs>(b,i)).eval());
		eqvec(x,e,N,"apply computes the product with the inverse of the diagonal (blocks)");
	} else {
		int its=vp_cfg("its",1); bool ct=mode==2; double rt=0,at=0,dt=0; if(ct) { rt=vp_real("rtol"); at=vp_real("atol"); dt=vp_real("dtol"); }
		SolveParams<double> sp{rt,at,dt,ct,its}; p->setApplyParams(sp); p->apply_relax(b,x);
		double* w=darr(N); double ref=1;
		for(int s=0;s<its;s++) {
			for(int i=0;i<n;i++) refrelax<bs>(m,rm,i,b,e,w);
			double d=0; for(int i=0;i<N;i++) { double q=w[i]-e[i]; d+=q*q; e[i]=w[i]; }
			if(ct) { d=__builtin_sqrt(d); if(s==0) ref=d; if(d<at||d/ref<rt||d/ref>dt) break; }
		}
		free(w); eqvec(x,e,N,"relaxation performs Jacobi iterations until the update meets the tolerances");
	}
	outvec(x,N); delete p; vp_freeze(b,0); free(b); free(x); free(e); m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
void vp_entry() { DISPATCH(run); }

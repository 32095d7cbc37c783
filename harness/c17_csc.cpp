#include "prec.h"
void vp_entry() {
	int n=vp_cfg("n",3), T=vp_cfg("threads",1), sw=vp_cfg("sweeps",1); vp_threads(T); if(T>1) vp_fixed(100);
	TM m=mkmat(n,1,P_DIAG|vp_cfg("pat",0)); m.freeze(1); int chunk=pickchunk(n);
	double* b=mkvec(n,"b"); double* x=mkvec(n,"x"); double* e=darr(n); vp_freeze(b,1);
	CSC_BGS_Preconditioner<double,int>* p=new CSC_BGS_Preconditioner<double,int>(m.view(),sw,chunk);
	p->compute();
	for(int rep=0;rep<vp_cfg("rep",1);rep++) {
	if(rep) { m.freeze(0); fillv(m,"w"); m.freeze(1); p->compute(); }
	p->apply(b,x);
	for(int i=n-1;i>=0;i--) { double s=b[i]; for(int k=m.ptr[i];k<m.ptr[i+1];k++) if(m.col[k]>i) s-=m.val[k]*e[m.col[k]]; e[i]=s/m.val[m.diag[i]]; }
	eqvec(x,e,n,"apply solves (D+U)z=r"); }
	int thrown=0; try { p->apply_relax(b,x); } catch(const std::runtime_error&) { thrown=1; } vp_assert(thrown,"relaxation is rejected");
	outvec(x,n); delete p; vp_freeze(b,0); free(b); free(x); free(e); m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}

#include "prec.h"
// kinds: 0 Jacobi 1 SGS 2 ILU 3 level SGS 4 level ILU 5 chaotic GS 6 column backward GS 7 none
struct Opt { int kind,sc,nb,na,ch,fi,ai,tf,ta; };
template<int bs,StorageOptions st> static Prec* make(SRC&& m,const Opt& o) {
	switch(o.kind) {
	case 0: return Mk<bs,st>::jacobi(std::move(m));
	case 1: return Mk<bs,st>::sgs(std::move(m),o.na,(ApplyInit)o.ai,o.ch);
	case 2: return Mk<bs,st>::ilu(std::move(m),o.nb,o.na,o.sc,o.ch,(FactInit)o.fi,(ApplyInit)o.ai,o.tf,o.ta,false);
	case 3: return Mk<bs,st>::lsgs(std::move(m));
	case 4: return Mk<bs,st>::lilu(std::move(m),o.nb,o.sc,o.ch,(FactInit)o.fi,o.tf,false);
	case 5: return Mk<bs,st>::chaotic(std::move(m),o.na,o.ch);
	case 6: return new CSC_BGS_Preconditioner<double,int>(std::move(m),o.na,o.ch);
	default: return new NoPreconditioner<double,int>(std::move(m),bs);
	}
}
template<int bs,StorageOptions st> static void run() {
	const bool rm=st==RowMajor; int n=vp_cfg("n",2), N=n*bs, T=vp_cfg("threads",1), adv=vp_cfg("adv",0), L=vp_cfg("ops",3); vp_threads(T);
	Opt o; o.kind=vp_cfg("kind",0); const bool ilu=o.kind==2, lilu=o.kind==4;
	o.sc=(ilu||lilu)?vp_pick("scale",0,1):0; o.nb=(ilu||lilu)?vp_pick("nb",1,vp_cfg("maxsweeps",2)):1; o.na=(ilu||o.kind==1||o.kind>=5)?vp_pick("na",1,vp_cfg("maxsweeps",2)):1; o.ch=adv?1:vp_pick("chunk",1,2);
	o.fi=(ilu||lilu)?vp_pick("finit",adv?1:0,T==1?3:2):0; o.ai=ilu?vp_pick("ainit",0,1):o.kind==1?vp_pick("ainit",0,adv?1:2):0; o.tf=T==1||adv?1:0; o.ta=o.tf; if(adv) vp_race_ok(1); // one schedule with rows out of order: what is read before it is computed comes from the initialisation
	TM m=mkmat(n,bs,P_DIAG|P_SYM|vp_cfg("pat",0));
	if(vp_cfg("diagblk",0)) for(int q=0;q<m.nnz*bs*bs;q++) if((q/bs)%bs!=q%bs) m.val[q]=0;
	m.freeze(1); double* b=darr(N); double* x=mkvec(N,"x"); double* y=darr(N);
	Prec* p=make<bs,st>(m.view(),o); if(o.sc) posdiag(m,rm); p->compute(); SolveParams<double> sp{0,0,0,false,vp_pick("its",0,2)}; p->setApplyParams(sp);
	const bool reads=o.kind==5; // its application starts from the given vector
	bool bset=false;
	for(int k=0;k<L;k++) {
		int op=vp_pick("op",0,p->relaxationAvailable()?3:2); vp_assume(k<L-1||op!=0); // the last step is observed
		if(op==0) { m.freeze(0); for(int i=0;i<m.nnz*bs*bs;i++) if(!vp_cfg("diagblk",0)||(i/bs)%bs==i%bs) m.val[i]=vp_real("w"); m.freeze(1); if(o.sc) posdiag(m,rm); p->compute(); continue; }
		if(op!=2||!bset) for(int i=0;i<N;i++) b[i]=vp_real("b"); // op 2: the same right-hand side once more
		bset=true;
		Prec* q=make<bs,st>(m.view(),o); q->setApplyParams(sp); q->compute(); double* z=darr(N);
		if(op==3||reads) for(int i=0;i<N;i++) z[i]=x[i]; // else the output of the fresh one is not even initialised
		vp_freeze(b,1);
		if(op==3) q->apply_relax(b,z); else q->apply(b,z);
		Prec* r=nullptr; TM m2; // another solver on another matrix, alive at the same time, must not matter
		if(vp_cfg("other",0)) { m2=mkmat(n,bs,P_FULL); if(o.sc) posdiag(m2,rm); r=make<bs,st>(m2.view(),o); r->compute(); r->setApplyParams(sp); double* w=mkvec(N,"w"); r->apply(b,w); free(w); }
		if(op==3) p->apply_relax(b,x); else p->apply(b,x);
		if(r) { delete r; m2.destroy(); vp_cover("other"); }
		vp_freeze(b,0);
		eqvec(x,z,N,op==3?"a relaxation equals that of a freshly built object":"an application equals that of a freshly built preconditioner"); outvec(x,N); free(z); delete q;
	}
	delete p; free(b); free(x); free(y); m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
void vp_entry() { DISPATCH(run); }

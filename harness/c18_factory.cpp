#include "prec.h"
#include <solverfactory.hpp>
#include <string>
static const char* NAMES[]={"jacobi","gs","sgs","ilu0","seqilu0","sfilu0","sapilu0","cscbgs","level_sgs","async_level_ilu0","none"};
static const BlastedSolverType TYPES[]={BLASTED_JACOBI,BLASTED_GS,BLASTED_SGS,BLASTED_ILU0,BLASTED_SEQILU0,BLASTED_SFILU0,BLASTED_SAPILU0,BLASTED_CSC_BGS,BLASTED_LEVEL_SGS,BLASTED_ASYNC_LEVEL_ILU0,BLASTED_NO_PREC};
static int slen(const char* s) { int k=0; while(s[k]) k++; return k; }
// the preconditioner the options describe, built directly from its class
template<int bs,StorageOptions st> static Prec* direct(SRC&& m,const AsyncSolverSettings& o) {
	const int nb=o.nbuildsweeps, na=o.napplysweeps, ch=o.thread_chunk_size;
	switch(o.prectype) {
	case BLASTED_JACOBI: return Mk<bs,st>::jacobi(std::move(m));
	case BLASTED_GS: return Mk<bs,st>::chaotic(std::move(m),na,ch);
	case BLASTED_SGS: return Mk<bs,st>::sgs(std::move(m),na,o.apply_inittype,ch);
	case BLASTED_ILU0: return Mk<bs,st>::ilu(std::move(m),nb,na,o.scale,ch,o.fact_inittype,o.apply_inittype,true,true,o.compute_precinfo);
	case BLASTED_SEQILU0: return Mk<bs,st>::ilu(std::move(m),nb,na,o.scale,ch,o.fact_inittype,o.apply_inittype,false,false,o.compute_precinfo);
	case BLASTED_SFILU0: return Mk<bs,st>::ilu(std::move(m),nb,na,o.scale,ch,o.fact_inittype,o.apply_inittype,false,true,o.compute_precinfo);
	case BLASTED_SAPILU0: return Mk<bs,st>::ilu(std::move(m),nb,na,o.scale,ch,o.fact_inittype,o.apply_inittype,true,false,o.compute_precinfo);
	case BLASTED_LEVEL_SGS: return Mk<bs,st>::lsgs(std::move(m));
	case BLASTED_ASYNC_LEVEL_ILU0: return Mk<bs,st>::lilu(std::move(m),nb,o.scale,ch,o.fact_inittype,true,o.compute_precinfo);
	case BLASTED_CSC_BGS: return new CSC_BGS_Preconditioner<double,int>(std::move(m),na,ch);
	default: return new NoPreconditioner<double,int>(std::move(m),bs);
	}
}
static void same(const double* a,const double* b,int N,const char* msg) { for(int i=0;i<N;i++) vp_assert_eq(a[i],b[i],msg); }
template<int bs,StorageOptions st> static void build() {
	const bool rm=st==RowMajor; int n=vp_cfg("n",2), N=n*bs, T=vp_cfg("threads",1), ty=vp_cfg("type",-1); vp_threads(T);
	if(ty<0) { ty=vp_pick("type",0,10); if(bs>1) vp_assume(TYPES[ty]!=BLASTED_CSC_BGS); }
	TM m=mkmat(n,bs,P_DIAG|P_SYM|vp_cfg("pat",0)); 
	AsyncSolverSettings o; o.prectype=TYPES[ty]; o.bs=bs; o.blockstorage= bs==1&&vp_cfg("anyst",1)?(vp_pick("storage",0,1)?RowMajor:ColMajor):st; o.relax=vp_pick("relax",0,1); o.thread_chunk_size=vp_pick("chunk",1,2);
	const BlastedSolverType t=o.prectype; const bool ilu=t==BLASTED_ILU0||t==BLASTED_SEQILU0||t==BLASTED_SFILU0||t==BLASTED_SAPILU0, lilu=t==BLASTED_ASYNC_LEVEL_ILU0;
	const int sm=vp_cfg("minsweeps",0), sM=vp_cfg("maxsweeps",2);
	o.scale= ilu||lilu?vp_pick("scale",0,vp_cfg("maxscale",1)):0; o.nbuildsweeps=ilu||lilu?vp_pick("nb",sm,sM):1; o.napplysweeps=ilu||t==BLASTED_SGS||t==BLASTED_GS||t==BLASTED_CSC_BGS?vp_pick("na",sm,sM):1;
	o.fact_inittype=ilu||lilu?(FactInit)vp_pick("finit",o.nbuildsweeps&&!vp_cfg("adv",0)?0:1,2):INIT_F_ORIGINAL; o.apply_inittype=ilu||t==BLASTED_SGS?(ApplyInit)vp_pick("ainit",0,1):INIT_A_ZERO; o.compute_precinfo=(ilu||lilu)&&vp_cfg("maxinfo",1)?vp_pick("info",0,1):0;
	if(bs==5) for(int q=0;q<m.nnz;q++) for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) if(r!=c&&!(r==0&&c==4)&&!(r==2&&c==1)) m.val[q*bs*bs+(rm?r*bs+c:c*bs+r)]=0;
	if(o.scale) posdiag(m,rm); for(int i=0;i<n;i++) for(int r=0;r<bs;r++) vp_assume_nz(m.ent(m.diag[i],r,r,rm));
	m.freeze(1);
	double* b=mkvec(N,"b"); double* x=mkvec(N,"x"); double* y=darr(N); for(int i=0;i<N;i++) y[i]=x[i];
	const bool adv=vp_cfg("adv",0); // one schedule with rows out of order, the same for both objects
	if(adv) vp_race_ok(1);
	if(T>1&&!adv) {
		// what is asked to be sequential must be free of races
		SRFactory<double,int>* F=new SRFactory<double,int>(); Prec* p=F->create_preconditioner(m.view(),o); delete F;
		bool sf=t==BLASTED_SEQILU0||t==BLASTED_SFILU0, sa=t==BLASTED_SEQILU0||t==BLASTED_SAPILU0||lilu||t==BLASTED_LEVEL_SGS||t==BLASTED_JACOBI||t==BLASTED_NO_PREC;
		vp_race_ok(!(sf||t==BLASTED_LEVEL_SGS||t==BLASTED_JACOBI||t==BLASTED_SGS||t==BLASTED_NO_PREC)); p->compute(); vp_race_ok(!sa); p->apply(b,x); vp_race_ok(0); delete p;
	} else {
		SRFactory<double,int>* F=new SRFactory<double,int>(); Prec* p=F->create_preconditioner(m.view(),o); delete F; Prec* q=direct<bs,st>(m.view(),o);
		vp_assert(p->dim()==q->dim()&&p->dim()==N,"the dimension is that of the matrix"); vp_assert(p->relaxationAvailable()==q->relaxationAvailable(),"relaxation is offered when the method has it");
		PrecInfo ip=p->compute(), iq=q->compute();
		if(o.compute_precinfo) for(int k=0;k<6;k++) vp_assert_eq(ip.f_info[k],iq.f_info[k],"the requested diagnostics are computed");
		p->apply(b,x); q->apply(b,y); same(x,y,N,"the application is that of the requested method and options"); if(t==BLASTED_NO_PREC) same(x,b,N,"no preconditioning copies the vector"); outvec(x,N);
		if(q->relaxationAvailable()&&vp_cfg("relaxed",1)) { SolveParams<double> sp{0,0,0,false,2}; p->setApplyParams(sp); q->setApplyParams(sp); p->apply_relax(b,x); q->apply_relax(b,y); same(x,y,N,"the relaxation is that of the requested method and options"); }
		delete p; delete q;
	}
	free(b); free(x); free(y); m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
static void names() {
	int L=vp_pick("length",0,vp_cfg("maxlen",18)); std::string s(L,'x'); int c[32]; const bool any=vp_cfg("any",1);
	// any bytes, or one documented name with any two of its characters replaced by anything
	if(any) for(int i=0;i<L;i++) { c[i]=vp_int("char",1,255); s[i]=(char)c[i]; }
	else { int k=vp_pick("name",0,10); vp_assume(slen(NAMES[k])==L); int u=vp_pick("pos",0,L-1); for(int i=0;i<L;i++) { c[i]=NAMES[k][i]; if(i==u) c[i]=vp_int("char",1,255); s[i]=(char)c[i]; } }
	int is[11], anyname=0; for(int k=0;k<11;k++) { is[k]= slen(NAMES[k])==L; for(int i=0;i<L&&i<slen(NAMES[k]);i++) is[k]&=c[i]==NAMES[k][i]; anyname|=is[k]; }
	SRFactory<double,int>* F=new SRFactory<double,int>(); bool thrown=false; BlastedSolverType t=BLASTED_EXTERNAL;
	try { t=F->solverTypeFromString(s); } catch(const std::invalid_argument&) { thrown=true; }
	if(thrown) { vp_assert(!anyname,"a documented name is accepted"); vp_cover("rejected"); }
	else { vp_assert(anyname,"an unknown name is rejected"); for(int k=0;k<11;k++) vp_assert(!is[k]||t==TYPES[k],"a documented name selects its method"); vp_cover("accepted"); }
	delete F;
	static const char* FI[]={"init_zero","init_original","init_sgs","init_none"}; static const char* AI[]={"init_zero","init_jacobi","init_none"};
	int isf[4],isa[3],anyf=0,anya=0;
	for(int k=0;k<4;k++) { isf[k]=slen(FI[k])==L; for(int i=0;i<L&&i<slen(FI[k]);i++) isf[k]&=c[i]==FI[k][i]; anyf|=isf[k]; }
	for(int k=0;k<3;k++) { isa[k]=slen(AI[k])==L; for(int i=0;i<L&&i<slen(AI[k]);i++) isa[k]&=c[i]==AI[k][i]; anya|=isa[k]; }
	thrown=false; FactInit fi=INIT_F_NONE; try { fi=getFactInitFromString(s); } catch(const std::invalid_argument&) { thrown=true; }
	vp_assert(thrown==!anyf,"exactly the documented factor initialisations are accepted"); for(int k=0;k<4;k++) vp_assert(thrown||!isf[k]||fi==(FactInit)k,"a factor initialisation selects itself");
	thrown=false; ApplyInit ai=INIT_A_NONE; try { ai=getApplyInitFromString(s); } catch(const std::invalid_argument&) { thrown=true; }
	vp_assert(thrown==!anya,"exactly the documented apply initialisations are accepted"); for(int k=0;k<3;k++) vp_assert(thrown||!isa[k]||ai==(ApplyInit)k,"an apply initialisation selects itself");  vp_cover("end");
}
static void support() {
	TM m=mkmat(1,8,P_DIAG|P_SYM); AsyncSolverSettings o; int ty=vp_pick("type",0,11); o.prectype= ty==11?BLASTED_EXTERNAL:TYPES[ty]; o.bs=vp_concrete(vp_int("bs",-1,8)); int so=vp_pick("storage",0,1); o.blockstorage=so?RowMajor:ColMajor; o.relax=0; o.thread_chunk_size=1; o.scale=vp_pick("scale",0,1); o.nbuildsweeps=1; o.napplysweeps=1; o.fact_inittype=INIT_F_ORIGINAL; o.apply_inittype=INIT_A_ZERO; o.compute_precinfo=vp_pick("info",0,1);
	const BlastedSolverType t=o.prectype; bool ok= t!=BLASTED_EXTERNAL&&(o.bs==1||(t!=BLASTED_CSC_BGS&&(o.bs==4||(o.bs==5&&!so))));
	SRFactory<double,int>* F=new SRFactory<double,int>(); Prec* p=nullptr; bool thrown=false;
	try { p=F->create_preconditioner(m.view(),o); } catch(const std::invalid_argument&) { thrown=true; }
	if(ok) { vp_assert(!thrown,"a supported combination is built"); if(p) vp_assert(p->dim()==o.bs,"the object has the requested block size"); vp_cover("built"); }
	else { vp_assert(thrown,"an unsupported combination is refused"); vp_cover("refused"); }
	delete p; delete F; m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
void vp_entry() {
	int mode=vp_cfg("mode",1), bs=vp_cfg("bs",1), rm=vp_cfg("rm",0);
	if(mode==0) names(); else if(mode==2) support();
	else if(bs==1) build<1,ColMajor>(); else if(bs==4&&rm) build<4,RowMajor>(); else if(bs==4) build<4,ColMajor>(); else build<5,ColMajor>();
}

// The PETSc interface, compiled against native/petsc and run over harness/petsc_stub.h.
#include "prec.h"
#include <solverfactory.hpp>
#include <blasted_petsc.cpp>
#include "petsc_stub.h"
static const char* NAMES[]={"jacobi","gs","sgs","ilu0","seqilu0","sfilu0","sapilu0","cscbgs","level_sgs","async_level_ilu0","none"};
static const BlastedSolverType TYPES[]={BLASTED_JACOBI,BLASTED_GS,BLASTED_SGS,BLASTED_ILU0,BLASTED_SEQILU0,BLASTED_SFILU0,BLASTED_SAPILU0,BLASTED_CSC_BGS,BLASTED_LEVEL_SGS,BLASTED_ASYNC_LEVEL_ILU0,BLASTED_NO_PREC};
static const char* FI[]={"init_zero","init_original","init_sgs","init_none"}; static const char* AI[]={"init_zero","init_jacobi","init_none"};
static const char* ON[]={"-blasted_pc_type","-blasted_async_sweeps","-blasted_use_symmetric_scaling","-blasted_async_fact_init_type","-blasted_async_apply_init_type","-blasted_thread_chunk_size","-blasted_compute_preconditioner_info"};
static const int OK[]={2,3,1,2,2,0,1};
static void options() { for(int k=0;k<NOPT;k++) { opts[k].name=ON[k]; opts[k].kind=OK[k]; opts[k].s=""; opts[k].n=1; opts[k].set=true; } opts[O_SWEEPS].n=2; }
// a preconditioner that records how it is used
struct Rec: public SRPreconditioner<double,int> {
	int N; bool rel; mutable int ncomp,napp,nrel; mutable const double *r,*z;
	Rec(SRC&& m,int N_,bool rl): SRPreconditioner<double,int>(std::move(m)),N(N_),rel(rl),ncomp(0),napp(0),nrel(0) {}
	int dim() const { return N; } bool relaxationAvailable() const { return rel; } PrecInfo compute() { ncomp++; PrecInfo i; for(int k=0;k<6;k++) i.f_info[k]=ncomp*10+k; return i; }
	void apply(const double* const a,double* const __restrict b) const { napp++; for(int i=0;i<N;i++) b[i]=a[N-1-i]*2; }
	void apply_relax(const double* const a,double* const __restrict b) const { nrel++; for(int k=0;k<solveparams.maxits;k++) for(int i=0;i<N;i++) b[i]=b[i]+a[i]; }
	const SolveParams<double>& sp() const { return solveparams; }
};
static AsyncSolverSettings got; static int ncreate=0; static Rec* last=nullptr; static const int *gptr,*gcol,*gdiag,*gend; static const double* gval; static int gn,gz; static bool relax_avail=true; static void* used[8]; 
struct RecFactory: public FactoryBase<double,int> {
	SRPreconditioner<double,int>* create_preconditioner(SRC&& m,const SolverSettings& s) const {
		got=dynamic_cast<const AsyncSolverSettings&>(s); if(ncreate<8) used[ncreate]=(void*)this; ncreate++; gptr=&m.browptr[0]; gcol=&m.bcolind[0]; gdiag=&m.diagind[0]; gend=&m.browendptr[0]; gval=&m.vals[0]; gn=m.nbrows; gz=m.nnzb;
		last=new Rec(std::move(m),gn*s.bs,relax_avail); return last; }
	BlastedSolverType solverTypeFromString(const std::string p) const { SRFactory<double,int> f; return f.solverTypeFromString(p); }
};
static bool needs(int t) { return t!=BLASTED_JACOBI&&t!=BLASTED_LEVEL_SGS&&t!=BLASTED_NO_PREC; }
static bool needsf(int t) { return t==BLASTED_ILU0||t==BLASTED_SAPILU0||t==BLASTED_ASYNC_LEVEL_ILU0; }
// what the options ask for; false when the combination is refused
static bool expected(AsyncSolverSettings& e,bool scale,int fi,int ai) {
	int nb=opts[O_SWEEPS].v[0], na=opts[O_SWEEPS].v[1]; const BlastedSolverType t=e.prectype; const bool ilu=t==BLASTED_ILU0||t==BLASTED_SFILU0||t==BLASTED_SAPILU0; const bool sb=nb==BLASTED_SEQUENTIAL_SYMBOL, sa=na==BLASTED_SEQUENTIAL_SYMBOL;
	if(needs(t)&&t!=BLASTED_SEQILU0&&(sb||sa)) {
		if(!ilu&&!(t==BLASTED_ASYNC_LEVEL_ILU0&&sb&&sa)) return false;
		bool tb= !(sb||t==BLASTED_SFILU0), ta= !(sa||t==BLASTED_SAPILU0); if(t==BLASTED_ASYNC_LEVEL_ILU0) tb=ta=false;
		e.prectype= tb?BLASTED_SAPILU0:ta?BLASTED_SFILU0:BLASTED_SEQILU0; if(!tb) nb=1; if(!ta) na=1;
	}
	e.nbuildsweeps=nb; e.napplysweeps=na; e.scale=needsf(t)?scale:false; e.fact_inittype= needsf(e.prectype)?(FactInit)fi:INIT_F_NONE; e.apply_inittype=(ApplyInit)ai; return true;
}
static _p_Mat mkpmat(TM& m,MatData& d,const char* type) { d.i=m.ptr; d.j=m.col; d.a=m.val; d.diag=nullptr; d.marked=m.diag; d.nb=m.n; _p_Mat A; A.type=type; A.data=&d; A.n=m.n*m.bs; A.bs=m.bs; return A; }
static int pcsetup(PC p,bool& thrown) { thrown=false; try { return PCSetUp(p); } catch(const std::exception&) { thrown=true; } return -1; }
// options to settings
static void settings() {
	const int bs=vp_cfg("bs",1); TM m=mkmat(2,bs,P_FULL); MatData d; _p_Mat A=mkpmat(m,d,bs==1&&!vp_cfg("baij",0)?MATSEQAIJ:MATSEQBAIJ);
	options(); int ty=vp_cfg("type",-1); if(ty<0) ty=vp_pick("type",0,10); AsyncSolverSettings e; e.prectype=TYPES[ty]; opts[O_TYPE].s=NAMES[ty];
	const bool nd=needs(TYPES[ty]), nf=needsf(TYPES[ty]); const int miss=vp_cfg("missing",0)?vp_pick("missing",-1,NOPT-1):-1;
	const bool small=vp_cfg("small",0); opts[O_SWEEPS].v[0]=small?3-4*vp_pick("nb",0,1):vp_int("nb",-1,1000); opts[O_SWEEPS].v[1]=small?2-3*vp_pick("na",0,1):vp_int("na",-1,1000); int scale=vp_int("scale",0,1), chunk=vp_int("chunk",1,1000000), info=small?1:vp_pick("info",0,2), fi=nf?vp_pick("finit",0,3):0, ai=nd?vp_pick("ainit",0,2):0;
	opts[O_SCALE].v[0]=scale; opts[O_CHUNK].v[0]=chunk; opts[O_INFO].set=info<2; opts[O_INFO].v[0]=info==1; opts[O_FINIT].s=FI[fi]; opts[O_AINIT].s=AI[ai];
	bool bad=false; if(miss>=0) { opts[miss].set=false; if(miss==O_SWEEPS&&vp_pick("one",0,1)) { opts[miss].set=true; opts[miss].n=1; } bad= miss==O_TYPE||(nd&&(miss==O_SWEEPS||miss==O_AINIT||miss==O_CHUNK))||(nf&&(miss==O_SCALE||miss==O_FINIT)); if(miss==O_INFO) info=2; }
	int wrong=vp_cfg("wrong",0)?vp_pick("wrong",0,4):0; static const char* W[]={"","ilu","init_zeros","INIT_ZERO","a_name_longer_than_the_buffer_it_is_read_into"};
	if(wrong>0) { int w=vp_pick("where",0,2); const char* s=W[vp_pick("text",0,4)]; if(w==0) { opts[O_TYPE].s=s; bad=true; } else if(w==1) { opts[O_FINIT].s=s; bad=nf&&opts[O_SWEEPS].v[0]!=-1; } else { opts[O_AINIT].s=s; bad=nd; } }
	relax_avail=small||vp_pick("relaxes",0,1);
	RecFactory* F=new RecFactory; Blasted_data_list L=newBlastedDataList(); KSP k=mkksp(PCSHELL,&A,0);
	vp_assert(blasted::setup_blasted_stack_ext(k,*F,&L)==0,"a shell preconditioner is set up"); vp_assert(L.size==1&&L.ctxlist&&k->pc->ctx==(void*)L.ctxlist,"the shell gets a context of the list");
	bool thrown; vp_expect_abort(bad); int r=pcsetup(k->pc,thrown); vp_expect_abort(0); const bool fine=expected(e,scale,fi,ai);
	if(bad) { vp_assert(thrown||r!=0,"a missing or wrong option is reported"); vp_cover("reported"); return; }
	vp_assert(!thrown==fine,"an unsupported request is refused, a supported one accepted"); if(thrown||!fine) { vp_cover("refused"); return; }
	vp_assert(r==0&&ncreate==1,"one preconditioner is built"); vp_assert(k->pc->named==1,"the preconditioner is named"); { const char* q="Blasted-"; int c=0; for(;q[c];c++) vp_assert(k->pc->name[c]==q[c],"the name says whose it is"); vp_assert(seq(k->pc->name+8,NAMES[ty]),"the name is the type's"); }
	vp_assert(got.prectype==e.prectype,"the solver type is the one the options ask for"); vp_assert(got.bs==bs&&got.blockstorage==ColMajor&&!got.relax,"block size and layout are the matrix's");
	vp_assert(got.compute_precinfo==(info==1),"diagnostics are computed when asked for");
	if(nd) { vp_assert(got.nbuildsweeps==e.nbuildsweeps,"build sweeps"); vp_assert(got.napplysweeps==e.napplysweeps,"apply sweeps"); vp_assert(got.thread_chunk_size==chunk,"thread chunk size"); vp_assert(got.apply_inittype==e.apply_inittype,"apply initialisation"); vp_assert(got.fact_inittype==e.fact_inittype,"factor initialisation"); vp_assert((bool)got.scale==(bool)e.scale,"scaling"); }
	vp_assert(gptr==m.ptr&&gcol==m.col&&gdiag==m.diag&&gend==m.ptr+1&&gval==m.val&&gn==m.n&&gz==m.nnz,"the preconditioner gets the matrix's arrays");
	vp_assert(last->ncomp==1,"the preconditioner is computed once per set-up"); vp_assert(!relax_avail==(k->pc->rich==nullptr),"relaxation is offered exactly when the method has it");
	r=pcsetup(k->pc,thrown); vp_assert(!thrown&&r==0&&ncreate==1&&last->ncomp==2,"a later set-up recomputes the same preconditioner");
	PrecInfoList* pl=(PrecInfoList*)L.ctxlist->infolist; vp_assert((pl!=nullptr)==(info==1),"diagnostics are kept when asked for"); if(pl) { vp_assert(pl->infolist.size()==2,"one record per set-up"); for(int q=0;q<6;q++) { vp_assert_eq(pl->infolist[0].f_info[q],10+q,"first record"); vp_assert_eq(pl->infolist[1].f_info[q],20+q,"second record"); } }
	const int N=2*bs; double* b=mkvec(N,"b"); double* x=mkvec(N,"x"); double* x0=darr(N); for(int i=0;i<N;i++) x0[i]=x[i]; _p_Vec vb={"seq",b,N,0,0}, vx={"seq",x,N,0,0};
	vp_assert(k->pc->apply&&k->pc->destroy,"apply and destroy callbacks are set"); vp_freeze(b,1);
	vp_assert(k->pc->apply(k->pc,&vb,&vx)==0&&last->napp==1&&last->nrel==0,"applying applies the preconditioner"); for(int i=0;i<N;i++) vp_assert_eq(x[i],b[N-1-i]*2,"the result is the preconditioner's");
	if(k->pc->rich) {
		for(int i=0;i<N;i++) x[i]=x0[i]; const bool gz0=vp_pick("guesszero",0,1); const int its=vp_pick("its",0,2); const double rt=vp_real("rtol"), at=vp_real("atol"), dt=vp_real("dtol"); int oi=-7; PCRichardsonConvergedReason rs=PCRICHARDSON_CONVERGED_RTOL;
		vp_assert(k->pc->rich(k->pc,&vb,&vx,&vx,rt,at,dt,its,gz0?PETSC_TRUE:PETSC_FALSE,&oi,&rs)==0,"relaxing succeeds"); vp_assert(oi==its&&rs==PCRICHARDSON_CONVERGED_ITS&&last->nrel==1,"the requested iterations are done and reported");
		vp_assert_eq(last->sp().rtol,rt,"relative tolerance is passed on"); vp_assert_eq(last->sp().atol,at,"absolute tolerance is passed on"); vp_assert_eq(last->sp().dtol,dt,"divergence tolerance is passed on"); vp_assert(last->sp().maxits==its&&!last->sp().ctol,"the iteration count is passed on, and no tolerance cuts the iterations short");
		for(int i=0;i<N;i++) vp_assert_eq(x[i],(gz0?0.0:x0[i])+its*b[i],"the relaxation starts from the guess, or from zero when told so"); vp_cover("relaxed"); }
	vp_assert(vb.out==0&&vb.outr==0&&vx.out==0&&vx.outr==0,"every vector array is given back"); vp_freeze(b,0);
	rmksp(k); destroyBlastedDataList(&L); vp_assert(L.size==0&&L.ctxlist==nullptr,"the list is empty"); delete F; free(b); free(x); free(x0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
// the real preconditioners behind the options
template<int bs> static void real() {
	const int n=vp_cfg("n",2), N=n*bs; TM m=mkmat(n,bs,P_DIAG|P_SYM|vp_cfg("pat",0)); MatData d; _p_Mat A=mkpmat(m,d,bs==1?MATSEQAIJ:MATSEQBAIJ);
	options(); int ty=vp_cfg("type",-1); if(ty<0) ty=vp_pick("type",0,10); AsyncSolverSettings e; e.prectype=TYPES[ty]; opts[O_TYPE].s=NAMES[ty]; const bool nd=needs(TYPES[ty]), nf=needsf(TYPES[ty]); if(bs>1) vp_assume(e.prectype!=BLASTED_CSC_BGS);
	static const int SW[]={-1,1,2}; opts[O_SWEEPS].v[0]=nd?SW[vp_pick("nb",0,2)]:1; opts[O_SWEEPS].v[1]=nd?SW[vp_pick("na",0,2)]:1; int scale=nf?vp_pick("scale",0,vp_cfg("maxscale",1)):0, chunk=nd?vp_pick("chunk",1,2):1, info=0, fi=nf?vp_pick("finit",0,2):0, ai=nd?vp_pick("ainit",0,1):0;
	if(nf) info=vp_pick("info",0,vp_cfg("maxinfo",1)); opts[O_SCALE].v[0]=scale; opts[O_CHUNK].v[0]=chunk; opts[O_INFO].v[0]=info; opts[O_FINIT].s=FI[fi]; opts[O_AINIT].s=AI[ai];
	vp_assume(expected(e,scale,fi,ai)); e.bs=bs; e.blockstorage=ColMajor; e.relax=false; e.thread_chunk_size=chunk; e.compute_precinfo=info; if(!nd) { e.nbuildsweeps=e.napplysweeps=1; e.scale=false; e.fact_inittype=INIT_F_NONE; e.apply_inittype=INIT_A_ZERO; }
	if(e.scale) posdiag(m,false); for(int i=0;i<n;i++) for(int r=0;r<bs;r++) vp_assume_nz(m.ent(m.diag[i],r,r,false)); m.freeze(1);
	double* b=mkvec(N,"b"); double* x=mkvec(N,"x"); double* y=darr(N); for(int i=0;i<N;i++) y[i]=x[i]; _p_Vec vb={"seq",b,N,0,0}, vx={"seq",x,N,0,0};
	Blasted_data_list L=newBlastedDataList(); KSP k=mkksp(PCSHELL,&A,0); vp_assert(setup_blasted_stack(k,&L)==0,"the stack is set up"); vp_assert(PCSetUp(k->pc)==0,"the preconditioner is set up");
	SRFactory<double,int>* F=new SRFactory<double,int>(); Prec* q=F->create_preconditioner(m.view(),e); delete F; q->compute();
	for(int rep=0;rep<2;rep++) {
		vp_assert(k->pc->apply(k->pc,&vb,&vx)==0,"applying succeeds"); q->apply(b,y); for(int i=0;i<N;i++) vp_assert_eq(x[i],y[i],"the application is that of the method and settings the options name"); 
		if(q->relaxationAvailable()) { int oi; PCRichardsonConvergedReason rs; vp_assert(k->pc->rich!=nullptr,"relaxation is offered"); if(k->pc->rich) { vp_assert(k->pc->rich(k->pc,&vb,&vx,&vx,0,0,0,1,PETSC_FALSE,&oi,&rs)==0,"relaxing succeeds"); SolveParams<double> sp{0,0,0,false,1}; q->setApplyParams(sp); q->apply_relax(b,y); for(int i=0;i<N;i++) vp_assert_eq(x[i],y[i],"the relaxation is that of the method and settings the options name"); } }
		else vp_assert(k->pc->rich==nullptr,"relaxation is not offered by a method without it");
		if(rep==0) { m.freeze(0); m.val[m.diag[0]*bs*bs]=vp_real("new"); if(e.scale) vp_assume(m.val[m.diag[0]*bs*bs]>0); else vp_assume_nz(m.val[m.diag[0]*bs*bs]); m.freeze(1); vp_assert(PCSetUp(k->pc)==0,"the preconditioner is set up again"); q->compute(); } }
	outvec(x,N); delete q; rmksp(k); destroyBlastedDataList(&L); free(b); free(x); free(y); m.freeze(0); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
// trees of solvers
static const char* KT[]={PCBJACOBI,PCASM,PCKSP,PCMG,PCGAMG,PCSHELL,"none"};
static KSP tree(int depth,Mat A,int& shells,bool& multi) {
	int t=depth?vp_pick("pc",0,6):vp_pick("leaf",5,6); if(t==5) shells++;
	int ns=t==3||t==4?vp_pick("levels",1,vp_cfg("levels",2)):t<2?vp_pick("blocks",1,vp_cfg("blocks",1)):t==2?1:0; if(t<2&&ns>1) multi=true;
	KSP k=mkksp(KT[t],A,ns); for(int i=0;i<ns;i++) k->pc->sub[i]=tree(depth-1,A,shells,multi); return k;
}
static void shellsof(KSP k,PC* out,int& c) { if(seq(k->pc->type,PCSHELL)) { if(c<16) out[c]=k->pc; c++; } for(int i=0;i<k->pc->nsub;i++) shellsof(k->pc->sub[i],out,c); }
static void stack() {
	TM m=mkmat(2,1,P_FULL); MatData d; static const char* MT[]={MATSEQAIJ,MATSEQBAIJ,MATSEQAIJMKL,MATSEQBAIJMKL,MATAIJ,MATMPIAIJ,MATBAIJ,MATMPIBAIJ}; int mt=vp_pick("mattype",0,vp_cfg("mattypes",0)); _p_Mat A=mkpmat(m,d,MT[mt]); const bool local=mt<4;
	options(); opts[O_TYPE].s=vp_pick("type",0,1)?"sgs":"jacobi"; opts[O_SWEEPS].v[0]=1; opts[O_SWEEPS].v[1]=2; opts[O_SCALE].v[0]=0; opts[O_CHUNK].v[0]=1; opts[O_INFO].v[0]=0; opts[O_FINIT].s=FI[1]; opts[O_AINIT].s=AI[0];
	int shells=0; bool multi=false; KSP k=tree(vp_cfg("depth",2),&A,shells,multi); const bool own=vp_pick("own",0,1); RecFactory* F=new RecFactory; Blasted_data_list L=newBlastedDataList(); vp_assert(L.size==0&&L.ctxlist==nullptr,"a new list is empty");
	int r= own?blasted::setup_blasted_stack_ext(k,*F,&L):setup_blasted_stack(k,&L);
	if(multi||(!local&&shells)) { if(!multi) vp_assert(r!=0,"a matrix that is not local is refused"); vp_cover("refused"); }
	else {
		vp_assert(r==0,"the stack is set up"); vp_assert(L.size==shells,"every shell of the tree gets a context"); PC ps[16]; int c=0; shellsof(k,ps,c); vp_assert(c==shells,"(shells counted)");
		for(int i=0;i<c&&i<16;i++) { bool in=false; for(Blasted_data* q=L.ctxlist;q;q=q->next) in|= (void*)q==ps[i]->ctx; vp_assert(in,"a shell's context is in the list"); for(int j=0;j<i;j++) vp_assert(ps[i]->ctx!=ps[j]->ctx,"every shell has a context of its own"); }
		for(int i=0;i<c&&i<16;i++) vp_assert(PCSetUp(ps[i])==0,"every shell can be set up"); vp_assert(ncreate==(own?shells:0),"the factory given is the one used"); for(int i=0;i<ncreate&&i<8;i++) vp_assert(used[i]==(void*)F,"(the factory)");
		double w[4]={0,0,0,0}; for(Blasted_data* q=L.ctxlist;q;q=q->next) { q->factorwalltime=vp_real("fw"); q->applywalltime=vp_real("aw"); q->factorcputime=vp_real("fc"); q->applycputime=vp_real("ac"); w[0]+=q->factorwalltime; w[1]+=q->applywalltime; w[2]+=q->factorcputime; w[3]+=q->applycputime; }
		for(int rep=0;rep<2;rep++) { computeTotalTimes(&L); vp_assert_eq(L.factorwalltime,w[0],"total factor wall time"); vp_assert_eq(L.applywalltime,w[1],"total apply wall time"); vp_assert_eq(L.factorcputime,w[2],"total factor CPU time"); vp_assert_eq(L.applycputime,w[3],"total apply CPU time"); }
		vp_cover("set up"); }
	rmksp(k,r==0&&!multi); destroyBlastedDataList(&L); vp_assert(L.size==0&&L.ctxlist==nullptr,"the list is empty"); delete F; m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end");
}
// matrices that are not accepted
static void refuse() {
	const int bs=vp_concrete(vp_int("bs",1,6)); TM m=mkmat(2,bs,0); MatData d; _p_Mat A=mkpmat(m,d,bs==1?MATSEQAIJ:MATSEQBAIJ); bool miss=m.diag[0]<0||m.diag[1]<0;
	options(); opts[O_TYPE].s="jacobi"; opts[O_INFO].set=false; Blasted_data_list L=newBlastedDataList(); KSP k=mkksp(PCSHELL,&A,0); vp_assert(setup_blasted_stack(k,&L)==0,"the stack is set up");
	bool thrown; for(int i=0;i<2;i++) if(m.diag[i]>=0) for(int r=0;r<bs;r++) vp_assume_nz(m.ent(m.diag[i],r,r,false));
	int r=pcsetup(k->pc,thrown); const bool ok=!miss&&(bs==1||bs==4||bs==5); vp_assert((!thrown&&r==0)==ok,"a matrix without full diagonal or with an unsupported block size is refused, any other accepted");
	if(ok) { vp_cover("accepted"); rmksp(k); destroyBlastedDataList(&L); m.destroy(); vp_assert(vp_heap_live()==0,"no memory is leaked"); vp_cover("end"); } else vp_cover("refused");
}
void vp_entry() { int mode=vp_cfg("mode",0); if(mode==0) settings(); else if(mode==1) { if(vp_cfg("bs",1)==1) real<1>(); else real<4>(); } else if(mode==2) stack(); else refuse(); }

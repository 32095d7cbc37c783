// behaviour of the PETSc calls that blasted_petsc.cpp makes: a serial PETSc with an option table
#pragma once
#include <petscksp.h>
#include <cstring>
#include <cstdarg>
struct Opt { const char* name; int kind; const char* s; int v[2]; int n; bool set; };   // kind 0 int, 1 bool, 2 string, 3 int array
enum { O_TYPE,O_SWEEPS,O_SCALE,O_FINIT,O_AINIT,O_CHUNK,O_INFO,NOPT };
static Opt opts[NOPT]; static int nrich=0, nsetup=0;
static bool seq(const char* a,const char* b) { int k=0; while(a[k]&&a[k]==b[k]) k++; return a[k]==b[k]; }
static Opt* find(const char* n,int kind,PetscBool* f) { for(int k=0;k<NOPT;k++) if(opts[k].set&&seq(opts[k].name,n)) { vp_assert(opts[k].kind==kind,"an option is read as what it is"); if(f) *f=PETSC_TRUE; return &opts[k]; } if(f) *f=PETSC_FALSE; return nullptr; }
extern "C" {
int MPI_Comm_size(MPI_Comm,int* s) { *s=1; return 0; } int MPI_Comm_rank(MPI_Comm,int* s) { *s=0; return 0; }
int PetscOptionsGetInt(PetscOptions,const char*,const char* n,PetscInt* v,PetscBool* f) { Opt* o=find(n,0,f); if(o) *v=o->v[0]; return 0; }
int PetscOptionsGetBool(PetscOptions,const char*,const char* n,PetscBool* v,PetscBool* f) { Opt* o=find(n,1,f); if(o) *v=o->v[0]?PETSC_TRUE:PETSC_FALSE; return 0; }
int PetscOptionsGetString(PetscOptions,const char*,const char* n,char* v,size_t len,PetscBool* f) { Opt* o=find(n,2,f); if(o) { size_t k=0; for(;k+1<len&&o->s[k];k++) v[k]=o->s[k]; v[k]=0; } return 0; }
int PetscOptionsGetIntArray(PetscOptions,const char*,const char* n,PetscInt* v,PetscInt* nm,PetscBool* f) { Opt* o=find(n,3,f); if(!o) { *nm=0; return 0; } int k=o->n<*nm?o->n:*nm; for(int i=0;i<k;i++) v[i]=o->v[i]; *nm=k; return 0; }
int PetscObjectTypeCompare(PetscObject o,const char* t,PetscBool* r) { *r=seq(o->type,t)?PETSC_TRUE:PETSC_FALSE; return 0; }
int PetscObjectTypeCompareAny(PetscObject o,PetscBool* r,const char* t,...) { va_list l; va_start(l,t); *r=PETSC_FALSE; for(;t&&*t;t=va_arg(l,const char*)) if(seq(o->type,t)) { *r=PETSC_TRUE; break; } va_end(l); return 0; }
int PetscOptionsGetReal(PetscOptions,const char*,const char* n,PetscReal* v,PetscBool* f) { Opt* o=find(n,0,f); if(o) *v=o->v[0]; return 0; }
int PetscOptionsHasName(PetscOptions,const char*,const char* n,PetscBool* f) { *f=PETSC_FALSE; for(int k=0;k<NOPT;k++) if(opts[k].set&&seq(opts[k].name,n)) *f=PETSC_TRUE; return 0; }
int PetscStrcmp(const char* a,const char* b,PetscBool* r) { *r= a&&b? (seq(a,b)?PETSC_TRUE:PETSC_FALSE) : (!a&&!b?PETSC_TRUE:PETSC_FALSE); return 0; }
int PetscPrintf(MPI_Comm,const char*,...) { return 0; }
int PCGetType(PC p,PCType* t) { *t=p->type; return 0; } int PCShellGetName(PC p,const char** n) { *n=p->name; return 0; }
int VecGetSize(Vec v,PetscInt* n) { *n=v->n; return 0; } int VecZeroEntries(Vec v) { for(int i=0;i<v->n;i++) v->a[i]=0; return 0; } int VecCopy(Vec x,Vec y) { for(int i=0;i<x->n;i++) y->a[i]=x->a[i]; return 0; }
int KSPGetPC(KSP k,PC* p) { *p=k->pc; return 0; } int KSPSetUp(KSP k) { k->isset=1; return 0; } int KSPGetOperators(KSP k,Mat* a,Mat* b) { if(a) *a=k->pc->pmat; if(b) *b=k->pc->pmat; return 0; }
int PCSetUp(PC p) { p->isset=1; if(seq(p->type,PCSHELL)&&p->setup) return p->setup(p); return 0; } int PCGetOperators(PC p,Mat* a,Mat* b) { if(a) *a=p->pmat; if(b) *b=p->pmat; return 0; }
int PCShellSetContext(PC p,void* c) { p->ctx=c; return 0; } int PCShellGetContext(PC p,void** c) { *c=p->ctx; return 0; }
int PCShellSetName(PC p,const char* n) { int k=0; for(;k<63&&n[k];k++) p->name[k]=n[k]; p->name[k]=0; p->named++; return 0; }
int PCShellSetSetUp(PC p,PetscErrorCode (*f)(PC)) { p->setup=f; return 0; } int PCShellSetApply(PC p,PetscErrorCode (*f)(PC,Vec,Vec)) { p->apply=f; return 0; } int PCShellSetDestroy(PC p,PetscErrorCode (*f)(PC)) { p->destroy=f; return 0; }
int PCShellSetApplyRichardson(PC p,PetscErrorCode (*f)(PC,Vec,Vec,Vec,PetscReal,PetscReal,PetscReal,PetscInt,PetscBool,PetscInt*,PCRichardsonConvergedReason*)) { p->rich=f; return 0; }
static int subs(PC p,const char* t,PetscInt* n,PetscInt* f,KSP** s) { if(!p->isset||!seq(p->type,t)) return PETSC_ERR_ARG_WRONGSTATE; if(n) *n=p->nsub; if(f) *f=0; *s=p->sub; return 0; }
int PCBJacobiGetSubKSP(PC p,PetscInt* n,PetscInt* f,KSP** s) { return subs(p,PCBJACOBI,n,f,s); } int PCASMGetSubKSP(PC p,PetscInt* n,PetscInt* f,KSP** s) { return subs(p,PCASM,n,f,s); }
int PCMGGetLevels(PC p,PetscInt* n) { *n=p->nsub; return 0; }
int PCMGGetSmoother(PC p,PetscInt l,KSP* s) { if(!p->isset||l<0||l>=p->nsub) return PETSC_ERR_ARG_WRONGSTATE; *s=p->sub[l]; return 0; } int PCMGGetSmootherUp(PC p,PetscInt l,KSP* s) { return PCMGGetSmoother(p,l,s); } int PCMGGetSmootherDown(PC p,PetscInt l,KSP* s) { return PCMGGetSmoother(p,l,s); } int PCMGGetCoarseSolve(PC p,KSP* s) { return PCMGGetSmoother(p,0,s); }
int PCKSPGetKSP(PC p,KSP* s) { KSP* q; int e=subs(p,PCKSP,nullptr,nullptr,&q); if(!e) *s=q[0]; return e; }
int MatGetOwnershipRange(Mat A,PetscInt* a,PetscInt* b) { *a=0; *b=A->n; return 0; } int MatGetLocalSize(Mat A,PetscInt* a,PetscInt* b) { *a=*b=A->n; return 0; } int MatGetSize(Mat A,PetscInt* a,PetscInt* b) { *a=*b=A->n; return 0; }
int MatGetBlockSize(Mat A,PetscInt* b) { *b=A->bs; return 0; } int MatGetType(Mat A,MatType* t) { *t=A->type; return 0; }
struct MatData { PetscInt *i,*j,*diag; MatScalar* a; PetscInt* marked; PetscInt nb; };   // begins like Mat_SeqAIJ and Mat_SeqBAIJ
int MatMissingDiagonal(Mat A,PetscBool* m,PetscInt* r) { MatData* d=(MatData*)A->data; *m=PETSC_FALSE; if(r) *r=-1; d->diag=d->marked; for(int k=0;k<d->nb;k++) if(d->marked[k]<0) { *m=PETSC_TRUE; if(r) *r=k; break; } return 0; }
int VecGetOwnershipRange(Vec v,PetscInt* a,PetscInt* b) { *a=0; *b=v->n; return 0; } int VecGetLocalSize(Vec v,PetscInt* n) { *n=v->n; return 0; }
int VecGetArray(Vec v,PetscScalar** a) { v->out++; *a=v->a; return 0; } int VecRestoreArray(Vec v,PetscScalar** a) { v->out--; *a=nullptr; return 0; }
int VecGetArrayRead(Vec v,const PetscScalar** a) { v->outr++; *a=v->a; return 0; } int VecRestoreArrayRead(Vec v,const PetscScalar** a) { v->outr--; *a=nullptr; return 0; }
int VecSet(Vec v,PetscScalar s) { for(int i=0;i<v->n;i++) v->a[i]=s; return 0; }
}
static KSP mkksp(const char* type,Mat A,int nsub) { KSP k=(KSP)malloc(sizeof(_p_KSP)); PC p=(PC)malloc(sizeof(_p_PC)); k->type="preonly"; k->pc=p; k->isset=0; p->type=type; p->pmat=A; p->sub=nsub?(KSP*)malloc(nsub*sizeof(KSP)):nullptr; p->nsub=nsub; p->isset=p->named=0; p->ctx=nullptr; p->setup=nullptr; p->apply=nullptr; p->destroy=nullptr; p->rich=nullptr; return k; }
// destruction as KSPDestroy does it: children, then the preconditioner's own callback
static void rmksp(KSP k,bool call=true) { PC p=k->pc; for(int i=0;i<p->nsub;i++) rmksp(p->sub[i],call); if(call&&p->destroy) vp_assert(p->destroy(p)==0,"the preconditioner is destroyed"); if(p->sub) free(p->sub); free(p); free(k); }

/* The part of PETSc's interface that /repo/src/blasted_petsc.cpp uses, so that the file can be compiled without PETSc.
   Declarations follow PETSc 3.13; the behaviour is in harness/petsc_stub.h. */
#ifndef VP_PETSCKSP_H
#define VP_PETSCKSP_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int PetscInt; typedef double PetscReal; typedef double PetscScalar; typedef double MatScalar; typedef int PetscErrorCode; typedef int PetscMPIInt;
typedef enum { PETSC_FALSE, PETSC_TRUE } PetscBool;
typedef int MPI_Comm;
#define PETSC_COMM_WORLD 1
#define PETSC_COMM_SELF 2
int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_rank(MPI_Comm,int*);
#define PETSC_ERR_SUP 56
#define PETSC_ERR_MEM 55
#define PETSC_ERR_ORDER 58
#define PETSC_ERR_ARG_SIZ 60
#define PETSC_ERR_ARG_WRONG 62
#define PETSC_ERR_ARG_OUTOFRANGE 63
#define PETSC_ERR_ARG_CORRUPT 64
#define PETSC_ERR_ARG_INCOMP 75
#define PETSC_ERR_PLIB 77
#define PETSC_ERR_USER 83
#define PETSC_ERR_ARG_NULL 85
#define PETSC_NULL NULL
#define PETSC_DEFAULT (-2)
#define PETSC_DECIDE (-1)
#define PETSC_UNUSED
#define PetscFunctionBegin do { } while(0)
#define PetscFunctionBeginUser do { } while(0)
#define PetscFunctionReturn(x) return x
#define PetscMin(a,b) (((a)<(b))?(a):(b))
#define PetscMax(a,b) (((a)<(b))?(b):(a))
#define PETSC_ERR_ARG_WRONGSTATE 73
#define PETSC_ERR_LIB 76
#define CHKERRQ(e) do { if(e) return (e); } while(0)
#define SETERRQ(c,e,s) return (e)
#define SETERRQ1(c,e,s,a) do { (void)(a); return (e); } while(0)
#define SETERRQ2(c,e,s,a,b) do { (void)(a); (void)(b); return (e); } while(0)
#define SETERRQ3(c,e,s,a,b,d) do { (void)(a); (void)(b); (void)(d); return (e); } while(0)
#define CHKERRV(e) do { if(e) return; } while(0)
typedef const char* PCType; typedef const char* KSPType; typedef const char* VecType; typedef const char* MatType;
#define PCBJACOBI "bjacobi"
#define PCASM "asm"
#define PCSHELL "shell"
#define PCMG "mg"
#define PCGAMG "gamg"
#define PCKSP "ksp"
#define MATBAIJ "baij"
#define MATSEQBAIJ "seqbaij"
#define MATMPIBAIJ "mpibaij"
#define MATBAIJMKL "baijmkl"
#define MATSEQBAIJMKL "seqbaijmkl"
#define MATMPIBAIJMKL "mpibaijmkl"
#define MATAIJ "aij"
#define MATSEQAIJ "seqaij"
#define MATMPIAIJ "mpiaij"
#define MATAIJMKL "aijmkl"
#define MATSEQAIJMKL "seqaijmkl"
#define MATMPIAIJMKL "mpiaijmkl"
typedef enum { PCRICHARDSON_CONVERGED_RTOL=2, PCRICHARDSON_CONVERGED_ATOL=3, PCRICHARDSON_CONVERGED_ITS=4, PCRICHARDSON_DIVERGED_DTOL=-4 } PCRichardsonConvergedReason;
struct _p_PetscObject { const char* type; }; typedef struct _p_PetscObject* PetscObject;
struct _p_Mat { const char* type; void* data; PetscInt n, bs; }; typedef struct _p_Mat* Mat;
struct _p_Vec { const char* type; PetscScalar* a; PetscInt n; int out, outr; }; typedef struct _p_Vec* Vec;
typedef struct _p_PC* PC; typedef struct _p_KSP* KSP;
struct _p_PC { const char* type; Mat pmat; KSP* sub; PetscInt nsub; int isset, named; void* ctx; char name[64];
	PetscErrorCode (*setup)(PC); PetscErrorCode (*apply)(PC,Vec,Vec); PetscErrorCode (*destroy)(PC);
	PetscErrorCode (*rich)(PC,Vec,Vec,Vec,PetscReal,PetscReal,PetscReal,PetscInt,PetscBool,PetscInt*,PCRichardsonConvergedReason*); };
struct _p_KSP { const char* type; PC pc; int isset; };
typedef struct _n_PetscOptions* PetscOptions;
PetscErrorCode PetscOptionsGetInt(PetscOptions,const char*,const char*,PetscInt*,PetscBool*);
PetscErrorCode PetscOptionsGetBool(PetscOptions,const char*,const char*,PetscBool*,PetscBool*);
PetscErrorCode PetscOptionsGetString(PetscOptions,const char*,const char*,char*,size_t,PetscBool*);
PetscErrorCode PetscOptionsGetIntArray(PetscOptions,const char*,const char*,PetscInt*,PetscInt*,PetscBool*);
PetscErrorCode PetscObjectTypeCompare(PetscObject,const char*,PetscBool*);
PetscErrorCode PetscOptionsGetReal(PetscOptions,const char*,const char*,PetscReal*,PetscBool*); PetscErrorCode PetscOptionsHasName(PetscOptions,const char*,const char*,PetscBool*);
PetscErrorCode PetscObjectTypeCompareAny(PetscObject,PetscBool*,const char*,...); PetscErrorCode PetscStrcmp(const char*,const char*,PetscBool*);
PetscErrorCode PetscPrintf(MPI_Comm,const char*,...);
PetscErrorCode PCGetType(PC,PCType*); PetscErrorCode PCShellGetName(PC,const char**); PetscErrorCode VecGetSize(Vec,PetscInt*); PetscErrorCode VecZeroEntries(Vec); PetscErrorCode VecCopy(Vec,Vec);
PetscErrorCode KSPGetPC(KSP,PC*); PetscErrorCode KSPSetUp(KSP); PetscErrorCode KSPGetOperators(KSP,Mat*,Mat*);
PetscErrorCode PCSetUp(PC); PetscErrorCode PCGetOperators(PC,Mat*,Mat*);
PetscErrorCode PCShellSetContext(PC,void*); PetscErrorCode PCShellSetName(PC,const char*);
#ifdef __cplusplus
PetscErrorCode PCShellGetContext(PC,void**);
#else
PetscErrorCode PCShellGetContext(PC,void*);
#endif
PetscErrorCode PCShellSetSetUp(PC,PetscErrorCode (*)(PC)); PetscErrorCode PCShellSetApply(PC,PetscErrorCode (*)(PC,Vec,Vec)); PetscErrorCode PCShellSetDestroy(PC,PetscErrorCode (*)(PC));
PetscErrorCode PCShellSetApplyRichardson(PC,PetscErrorCode (*)(PC,Vec,Vec,Vec,PetscReal,PetscReal,PetscReal,PetscInt,PetscBool,PetscInt*,PCRichardsonConvergedReason*));
PetscErrorCode PCBJacobiGetSubKSP(PC,PetscInt*,PetscInt*,KSP**); PetscErrorCode PCASMGetSubKSP(PC,PetscInt*,PetscInt*,KSP**);
PetscErrorCode PCMGGetLevels(PC,PetscInt*); PetscErrorCode PCMGGetSmoother(PC,PetscInt,KSP*); PetscErrorCode PCMGGetSmootherUp(PC,PetscInt,KSP*); PetscErrorCode PCMGGetSmootherDown(PC,PetscInt,KSP*); PetscErrorCode PCMGGetCoarseSolve(PC,KSP*);
PetscErrorCode PCKSPGetKSP(PC,KSP*);
PetscErrorCode MatGetOwnershipRange(Mat,PetscInt*,PetscInt*); PetscErrorCode MatGetLocalSize(Mat,PetscInt*,PetscInt*); PetscErrorCode MatGetSize(Mat,PetscInt*,PetscInt*);
PetscErrorCode MatGetBlockSize(Mat,PetscInt*); PetscErrorCode MatGetType(Mat,MatType*); PetscErrorCode MatMissingDiagonal(Mat,PetscBool*,PetscInt*);
PetscErrorCode VecGetOwnershipRange(Vec,PetscInt*,PetscInt*); PetscErrorCode VecGetArray(Vec,PetscScalar**); PetscErrorCode VecRestoreArray(Vec,PetscScalar**);
PetscErrorCode VecGetArrayRead(Vec,const PetscScalar**); PetscErrorCode VecRestoreArrayRead(Vec,const PetscScalar**); PetscErrorCode VecSet(Vec,PetscScalar); PetscErrorCode VecGetLocalSize(Vec,PetscInt*);
#ifdef __cplusplus
}
#endif
#endif

#ifndef VP_MPIBAIJ_H
#define VP_MPIBAIJ_H
#include <petscksp.h>
typedef struct { PetscInt *i, *j, *diag; MatScalar* a; } Mat_SeqBAIJ;
#endif

#ifndef VP_MPIAIJ_H
#define VP_MPIAIJ_H
#include <petscksp.h>
typedef struct { PetscInt *i, *j, *diag; MatScalar* a; } Mat_SeqAIJ;
#endif

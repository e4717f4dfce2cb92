// PETSc otherwise wraps the MPI calls of every later header in macros that count messages for its log
#ifndef PETSC_HAVE_BROKEN_RECURSIVE_MACRO
#define PETSC_HAVE_BROKEN_RECURSIVE_MACRO
#endif
// declarations the installed p4est lacks (pinned repository expects a newer one)
#include <p4est_search.h>
extern "C" void p4est_search_reorder(p4est_t *p4est, int skip_levels, void *reorder_fn,
    p4est_search_local_t pre_quadrant_fn, p4est_search_local_t post_quadrant_fn,
    p4est_search_local_t point_fn, sc_array_t *points);

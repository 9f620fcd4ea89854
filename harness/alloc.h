/*
 * malloc & co. as the harness's environment: every allocation may fail when
 * vp_alloc_mayfail is set, and live blocks are counted.  The code under test
 * is compiled with malloc, calloc, realloc, strdup and free renamed.
 */
#ifndef VP_ALLOC_H_
#define VP_ALLOC_H_
#include <stddef.h>
extern int vp_alloc_mayfail;	/* 1: any allocation may fail. */
extern int vp_alloc_failed;	/* Some allocation failed. */
extern int vp_alloc_live;	/* Blocks allocated and not freed. */
void * vp_malloc(size_t);
void * vp_calloc(size_t, size_t);
void * vp_realloc(void *, size_t);
void vp_free(void *);
char * vp_strdup(const char *);
#endif

/* The pool allocator as malloc and free (the real one is property P30). */
#ifndef MPOOL_H_
#define MPOOL_H_
#include <assert.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "ctassert.h"
#define MPOOL(name, type, size)						\
static inline type * mpool_##name##_malloc(void) { return ((type *)malloc(sizeof(type))); }	\
static inline void mpool_##name##_free(type * p) { free(p); }		\
struct mpool_##name##_dummy
#endif

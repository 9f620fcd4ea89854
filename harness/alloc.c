#include <stddef.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"

#ifdef VP_ALLOC_HOOK
int VP_ALLOC_HOOK(void);
#endif
#ifdef VP_FREE_HOOK
void VP_FREE_HOOK(void *);
#endif
int vp_alloc_mayfail;
int vp_alloc_failed;
int vp_alloc_live;

static int
fails(void)
{

#ifdef VP_ALLOC_HOOK
	/* The harness decides, with constants where it can. */
	if (VP_ALLOC_HOOK()) {
		vp_alloc_failed = 1;
		return (1);
	}
#endif
	if (vp_alloc_mayfail && vp_bool()) {
		vp_alloc_failed = 1;
		return (1);
	}
	return (0);
}

void *
vp_malloc(size_t n)
{
	void * p;

	if (fails())
		return (NULL);
	p = malloc(n);
	vp_alloc_live++;
	return (p);
}

void *
vp_calloc(size_t n, size_t m)
{
	void * p;

	if (fails())
		return (NULL);
	p = calloc(n, m);
	vp_alloc_live++;
	return (p);
}

void *
vp_realloc(void * q, size_t n)
{
	void * p;

	if (fails())
		return (NULL);
	p = realloc(q, n);
	if (q == NULL)
		vp_alloc_live++;
	return (p);
}

void
vp_free(void * p)
{

#ifdef VP_FREE_HOOK
	VP_FREE_HOOK(p);
#endif
	if (p != NULL)
		vp_alloc_live--;
	free(p);
}

#ifndef VP_NO_STRDUP
char *
vp_strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p = vp_malloc(n);

	if (p != NULL)
		memcpy(p, s, n);
	return (p);
}
#endif

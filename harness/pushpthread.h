/*
 * Thread clean-up handlers as plain calls: included before the real source, so
 * that cancellation runs what was registered.
 */
#include <pthread.h>
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
void vp_cleanup_push(void (*)(void *), void *);
void vp_cleanup_pop(int);
#define pthread_cleanup_push(f, a) vp_cleanup_push((f), (a))
#define pthread_cleanup_pop(e) vp_cleanup_pop(e)
#ifdef VP_BUFSIZ
#include <stdio.h>
#undef BUFSIZ
#define BUFSIZ VP_BUFSIZ
#endif

/*
 * vp.h: the interface between a harness, the symbolic engine (CBMC) and the
 * native replayer.
 *
 * Every symbolic input of a harness or stub comes from one of the vp_*()
 * functions below, so that the values on a CBMC counterexample, read in
 * execution order from the assignments to "vp_in", can be fed to the natively
 * compiled harness (same sources, gcc + ASan + UBSan).
 */
#ifndef VP_H_
#define VP_H_

#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_SYM

#define vp_assume(c) __CPROVER_assume(c)
#define vp_assert(c, msg) __CPROVER_assert((c), "VP: " msg)
#ifdef VP_NOWITNESS
#define vp_witness(msg) ((void)0)
#else
#define vp_witness(msg) __CPROVER_assert(0, "WITNESS: " msg)
#endif

/* The end of this path: nothing that follows is of interest. */
#define vp_done() __CPROVER_assume(0)

#else

#define vp_done() exit(0)
void vp_native_assume(int);
void vp_native_assert(int, const char *, const char *, int);
void vp_native_witness(const char *);
#define vp_assume(c) vp_native_assume(!!(c))
#define vp_assert(c, msg) vp_native_assert(!!(c), msg, __FILE__, __LINE__)
#define vp_witness(msg) vp_native_witness(msg)

#endif

uint64_t vp_u64(void);
uint32_t vp_u32(void);
uint16_t vp_u16(void);
uint8_t vp_u8(void);
int vp_int(void);
long vp_long(void);
size_t vp_size(void);
double vp_double(void);
int vp_bool(void);

/* An int / size_t in [lo, hi]. */
int vp_range(int, int);
size_t vp_srange(size_t, size_t);

/* Fill a buffer of a constant size with arbitrary bytes. */
void vp_fill(uint8_t *, size_t);

/* Fill an array object (not a pointer) with arbitrary bytes, all at once. */
#ifdef VP_SYM
#define vp_fillarr(a) do {						\
	struct { uint8_t b[sizeof(a)]; } vp_in;				\
	memcpy((a), vp_in.b, sizeof(a));			\
} while (0)
#else
#define vp_fillarr(a) vp_fill((uint8_t *)(a), sizeof(a))
#endif

#endif /* !VP_H_ */

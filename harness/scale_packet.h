/*
 * Included (with -include) ahead of the real sources: the packet format with a
 * smaller payload, so that multi-packet histories stay within the solver's
 * reach.  The code is the same; only the payload size differs.
 */
#ifdef SCALE
#include "proto_crypt.h"
#undef PCRYPT_MAXDSZ
#define PCRYPT_MAXDSZ SCALE
#endif
#ifdef SCALE_YH
#include "proto_crypt.h"
#undef PCRYPT_YH_LEN
#define PCRYPT_YH_LEN SCALE_YH
#endif

/* The AES instructions for the symbolic engine. */
#if !defined(VP_SYM) && !defined(VP_SIM_X86)
#include_next <wmmintrin.h>
#else
#ifndef VP_WMMINTRIN_H_
#define VP_WMMINTRIN_H_
#include <emmintrin.h>
__m128i vp_aesenc(__m128i, __m128i);
__m128i vp_aesenclast(__m128i, __m128i);
__m128i vp_aeskeygenassist(__m128i, int);
#define _mm_aesenc_si128(a, k) vp_aesenc((a), (k))
#define _mm_aesenclast_si128(a, k) vp_aesenclast((a), (k))
#define _mm_aeskeygenassist_si128(a, r) vp_aeskeygenassist((a), (r))
#endif
#endif

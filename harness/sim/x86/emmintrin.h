/*
 * SSE2 and friends for the symbolic engine: the intrinsics the code (or an
 * edit of it) may use, on a plain structure.  The native replayer uses the
 * real ones.
 */
#if !defined(VP_SYM) && !defined(VP_SIM_X86)
#include_next <emmintrin.h>
#else
#ifndef VP_EMMINTRIN_H_
#define VP_EMMINTRIN_H_
#include <stdint.h>
typedef struct { uint64_t q[2]; } __m128i;
typedef struct { uint64_t q[2]; } __m128d;

static inline uint64_t vp_ld64(const uint8_t * p) { int i; uint64_t r = 0; for (i = 7; i >= 0; i--) r = (r << 8) | p[i]; return (r); }
static inline void vp_st64(uint8_t * p, uint64_t v) { int i; for (i = 0; i < 8; i++) p[i] = (uint8_t)(v >> (8 * i)); }
#define VP_M(a, b) ((__m128i){{ (a), (b) }})
#define VP_W(x, i) ((uint32_t)((x).q[(i) / 2] >> (32 * ((i) % 2))))
#define VP_MW(a, b, c, d) VP_M((uint64_t)(a) | ((uint64_t)(b) << 32), (uint64_t)(c) | ((uint64_t)(d) << 32))
static inline __m128i _mm_loadu_si128(const void * p) { const uint8_t * b = p; return (VP_M(vp_ld64(b), vp_ld64(b + 8))); }
static inline __m128i _mm_load_si128(const void * p) { return (_mm_loadu_si128(p)); }
static inline __m128i _mm_lddqu_si128(const void * p) { return (_mm_loadu_si128(p)); }
static inline void _mm_storeu_si128(void * p, __m128i x) { uint8_t * b = p; vp_st64(b, x.q[0]); vp_st64(b + 8, x.q[1]); }
static inline void _mm_store_si128(void * p, __m128i x) { _mm_storeu_si128(p, x); }
static inline __m128i _mm_loadu_si64(const void * p) { return (VP_M(vp_ld64(p), 0)); }
static inline __m128i _mm_loadl_epi64(const void * p) { return (VP_M(vp_ld64(p), 0)); }
static inline void _mm_storel_epi64(void * p, __m128i x) { vp_st64(p, x.q[0]); }
static inline __m128i _mm_setzero_si128(void) { return (VP_M(0, 0)); }
static inline __m128i _mm_set_epi64x(int64_t h, int64_t l) { return (VP_M((uint64_t)l, (uint64_t)h)); }
static inline __m128i _mm_set1_epi64x(int64_t l) { return (VP_M((uint64_t)l, (uint64_t)l)); }
static inline __m128i _mm_cvtsi64_si128(int64_t l) { return (VP_M((uint64_t)l, 0)); }
static inline __m128i _mm_set_epi32(int d, int c, int b, int a) { return (VP_MW((uint32_t)a, (uint32_t)b, (uint32_t)c, (uint32_t)d)); }
static inline __m128i _mm_unpacklo_epi64(__m128i a, __m128i b) { return (VP_M(a.q[0], b.q[0])); }
static inline __m128i _mm_unpackhi_epi64(__m128i a, __m128i b) { return (VP_M(a.q[1], b.q[1])); }
static inline __m128i _mm_xor_si128(__m128i a, __m128i b) { return (VP_M(a.q[0] ^ b.q[0], a.q[1] ^ b.q[1])); }
static inline __m128i _mm_and_si128(__m128i a, __m128i b) { return (VP_M(a.q[0] & b.q[0], a.q[1] & b.q[1])); }
static inline __m128i _mm_or_si128(__m128i a, __m128i b) { return (VP_M(a.q[0] | b.q[0], a.q[1] | b.q[1])); }
static inline __m128i _mm_add_epi64(__m128i a, __m128i b) { return (VP_M(a.q[0] + b.q[0], a.q[1] + b.q[1])); }
static inline __m128i vp_slli(__m128i a, int n) { int s = 8 * (n % 8); if (n > 15) return (VP_M(0, 0)); if (n >= 8) return (VP_M(0, a.q[0] << s)); return (s == 0 ? a : VP_M(a.q[0] << s, (a.q[1] << s) | (a.q[0] >> (64 - s)))); }
static inline __m128i vp_srli(__m128i a, int n) { int s = 8 * (n % 8); if (n > 15) return (VP_M(0, 0)); if (n >= 8) return (VP_M(a.q[1] >> s, 0)); return (s == 0 ? a : VP_M((a.q[0] >> s) | (a.q[1] << (64 - s)), a.q[1] >> s)); }
#define _mm_slli_si128(a, n) vp_slli((a), (n))
#define _mm_srli_si128(a, n) vp_srli((a), (n))
#define _mm_bslli_si128(a, n) vp_slli((a), (n))
#define _mm_bsrli_si128(a, n) vp_srli((a), (n))
static inline __m128i vp_shuf32(__m128i a, int n) { return (VP_MW(VP_W(a, n & 3), VP_W(a, (n >> 2) & 3), VP_W(a, (n >> 4) & 3), VP_W(a, (n >> 6) & 3))); }
#define _mm_shuffle_epi32(a, n) vp_shuf32((a), (n))
static inline __m128d _mm_load_sd(const void * p) { __m128d r; r.q[0] = vp_ld64(p); r.q[1] = 0; return (r); }
static inline __m128i _mm_castpd_si128(__m128d a) { return (VP_M(a.q[0], a.q[1])); }

/* Lanes of 8, 16, 32 bits. */
typedef __m128i __m128;
#define _MM_SHUFFLE(a, b, c, d) (((a) << 6) | ((b) << 4) | ((c) << 2) | (d))
#define VP_B(x, i) ((uint8_t)((x).q[(i) / 8] >> (8 * ((i) % 8))))
#define VP_H(x, i) ((uint16_t)((x).q[(i) / 4] >> (16 * ((i) % 4))))
#define VP_LANES(name, n, w, T, get, expr) static inline __m128i name(__m128i a, __m128i b, int k) {	\
	uint64_t q[2] = { 0, 0 }; int i; T x, y;							\
	for (i = 0; i < n; i++) {									\
		x = get(a, i); y = get(b, i); (void)y; (void)k;						\
		q[i / (n / 2)] |= (uint64_t)(T)(expr) << (w * (i % (n / 2)));				\
	}												\
	return (VP_M(q[0], q[1]));									\
}
VP_LANES(vp_add32, 4, 32, uint32_t, VP_W, x + y)
VP_LANES(vp_sub32, 4, 32, uint32_t, VP_W, x - y)
VP_LANES(vp_sll32, 4, 32, uint32_t, VP_W, k > 31 ? 0 : x << k)
VP_LANES(vp_srl32, 4, 32, uint32_t, VP_W, k > 31 ? 0 : x >> k)
VP_LANES(vp_sll16, 8, 16, uint16_t, VP_H, k > 15 ? 0 : x << k)
VP_LANES(vp_srl16, 8, 16, uint16_t, VP_H, k > 15 ? 0 : x >> k)
VP_LANES(vp_shlo16, 8, 16, uint16_t, VP_H, i > 3 ? x : VP_H(a, (k >> (2 * i)) & 3))
VP_LANES(vp_shhi16, 8, 16, uint16_t, VP_H, i < 4 ? x : VP_H(a, 4 + ((k >> (2 * (i - 4))) & 3)))
#define _mm_add_epi32(a, b) vp_add32((a), (b), 0)
#define _mm_sub_epi32(a, b) vp_sub32((a), (b), 0)
#define _mm_slli_epi32(a, k) vp_sll32((a), (a), (k))
#define _mm_srli_epi32(a, k) vp_srl32((a), (a), (k))
#define _mm_slli_epi16(a, k) vp_sll16((a), (a), (k))
#define _mm_srli_epi16(a, k) vp_srl16((a), (a), (k))
#define _mm_shufflelo_epi16(a, k) vp_shlo16((a), (a), (k))
#define _mm_shufflehi_epi16(a, k) vp_shhi16((a), (a), (k))
static inline __m128i _mm_slli_epi64(__m128i a, int k) { return (k > 63 ? VP_M(0, 0) : VP_M(a.q[0] << k, a.q[1] << k)); }
static inline __m128i _mm_srli_epi64(__m128i a, int k) { return (k > 63 ? VP_M(0, 0) : VP_M(a.q[0] >> k, a.q[1] >> k)); }
static inline __m128i _mm_unpacklo_epi32(__m128i a, __m128i b) { return (VP_MW(VP_W(a, 0), VP_W(b, 0), VP_W(a, 1), VP_W(b, 1))); }
static inline __m128i _mm_unpackhi_epi32(__m128i a, __m128i b) { return (VP_MW(VP_W(a, 2), VP_W(b, 2), VP_W(a, 3), VP_W(b, 3))); }
static inline __m128i _mm_andnot_si128(__m128i a, __m128i b) { return (VP_M(~a.q[0] & b.q[0], ~a.q[1] & b.q[1])); }
static inline __m128i _mm_set1_epi32(int a) { return (_mm_set_epi32(a, a, a, a)); }
static inline __m128i _mm_setr_epi32(int a, int b, int c, int d) { return (_mm_set_epi32(d, c, b, a)); }
#define _mm_castsi128_ps(a) (a)
#define _mm_castps_si128(a) (a)
static inline __m128 _mm_move_ss(__m128 a, __m128 b) { return (VP_MW(VP_W(b, 0), VP_W(a, 1), VP_W(a, 2), VP_W(a, 3))); }
static inline __m128i
_mm_set_epi8(char p, char o, char n, char m, char l, char k, char j, char i, char h, char g, char f, char e, char d, char c, char b, char a)
{
	uint8_t x[16] = { (uint8_t)a, (uint8_t)b, (uint8_t)c, (uint8_t)d, (uint8_t)e, (uint8_t)f, (uint8_t)g, (uint8_t)h,
	    (uint8_t)i, (uint8_t)j, (uint8_t)k, (uint8_t)l, (uint8_t)m, (uint8_t)n, (uint8_t)o, (uint8_t)p };

	return (_mm_loadu_si128(x));
}
#endif
#endif

/* SSSE3 and SHA instructions for the symbolic engine. */
#if !defined(VP_SYM) && !defined(VP_SIM_X86)
#include_next <immintrin.h>
#else
#ifndef VP_IMMINTRIN_H_
#define VP_IMMINTRIN_H_
#include <wmmintrin.h>
static inline __m128i
_mm_shuffle_epi8(__m128i a, __m128i b)
{
	uint8_t x[16], y[16], z[16];
	int i;

	_mm_storeu_si128(x, a);
	_mm_storeu_si128(y, b);
	for (i = 0; i < 16; i++)
		z[i] = (y[i] & 0x80) ? 0 : x[y[i] & 15];
	return (_mm_loadu_si128(z));
}
static inline __m128i
vp_alignr(__m128i a, __m128i b, int n)
{
	uint8_t x[48], z[16];
	int i;

	_mm_storeu_si128(x, b);
	_mm_storeu_si128(x + 16, a);
	for (i = 0; i < 16; i++) {
		x[32 + i] = 0;
		z[i] = (n + i < 32) ? x[n + i] : 0;
	}
	return (_mm_loadu_si128(z));
}
#define _mm_alignr_epi8(a, b, n) vp_alignr((a), (b), (n))
#define _mm_blend_epi16(a, b, n) vp_blend16((a), (b), (n))
VP_LANES(vp_blend16, 8, 16, uint16_t, VP_H, (k >> i & 1) ? y : x)

/* The SHA instructions, as Intel documents them. */
#define VP_ROR(x, n) (((x) >> (n)) | ((x) << (32 - (n))))
static inline __m128i
_mm_sha256rnds2_epu32(__m128i s1, __m128i s2, __m128i k)
{
	uint32_t a = VP_W(s2, 3), b = VP_W(s2, 2), c = VP_W(s1, 3), d = VP_W(s1, 2);
	uint32_t e = VP_W(s2, 1), f = VP_W(s2, 0), g = VP_W(s1, 1), h = VP_W(s1, 0), t, u;
	int i;

	for (i = 0; i < 2; i++) {
		t = ((e & f) ^ (~e & g)) + (VP_ROR(e, 6) ^ VP_ROR(e, 11) ^ VP_ROR(e, 25)) + VP_W(k, i) + h;
		u = t + ((a & b) ^ (a & c) ^ (b & c)) + (VP_ROR(a, 2) ^ VP_ROR(a, 13) ^ VP_ROR(a, 22));
		h = g; g = f; f = e; e = t + d; d = c; c = b; b = a; a = u;
	}
	return (VP_MW(f, e, b, a));
}
#define VP_s0(x) (VP_ROR(x, 7) ^ VP_ROR(x, 18) ^ ((x) >> 3))
#define VP_s1(x) (VP_ROR(x, 17) ^ VP_ROR(x, 19) ^ ((x) >> 10))
static inline __m128i
_mm_sha256msg1_epu32(__m128i a, __m128i b)
{
	uint32_t w0 = VP_W(a, 0), w1 = VP_W(a, 1), w2 = VP_W(a, 2), w3 = VP_W(a, 3), w4 = VP_W(b, 0);

	return (VP_MW(w0 + VP_s0(w1), w1 + VP_s0(w2), w2 + VP_s0(w3), w3 + VP_s0(w4)));
}
static inline __m128i
_mm_sha256msg2_epu32(__m128i a, __m128i b)
{
	uint32_t w14 = VP_W(b, 2), w15 = VP_W(b, 3);
	uint32_t w16 = VP_W(a, 0) + VP_s1(w14), w17 = VP_W(a, 1) + VP_s1(w15);
	uint32_t w18 = VP_W(a, 2) + VP_s1(w16), w19 = VP_W(a, 3) + VP_s1(w17);

	return (VP_MW(w16, w17, w18, w19));
}
#endif
#endif

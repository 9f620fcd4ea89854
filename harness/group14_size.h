/* CBMC cannot size "extern const uint8_t x[]"; tell it. */
#include <stdint.h>
extern const uint8_t crypto_dh_group14[256];

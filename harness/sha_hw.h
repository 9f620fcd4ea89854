/* Select the accelerated variant (which is the harness) without self-test. */
#include "cpusupport.h"
#undef CPUSUPPORT_VALIDATE
#define CPUSUPPORT_VALIDATE(hwvar, success_value, cpusupport_checks, check) do {	\
	(hwvar) = (success_value);						\
	return;									\
} while (0)

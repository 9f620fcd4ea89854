/* For the symbolic engine: constant positions of aligned arrays. */
#ifdef VP_SYM
#include "align_ptr.h"
#undef ALIGN_PTR_INIT
#define ALIGN_PTR_INIT(name, alignsize) name = (void *)name##_buf
#endif

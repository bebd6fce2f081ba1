/* proof system */
#define POIK_BITS SZ
#include "poik.h"
#ifdef VCBMC   /* constant array sizes for buffers sized by strlen("literal") */
#define strlen(s) _Generic(&(s), char (*)[1]: 0, char (*)[2]: 1, char (*)[3]: 2, char (*)[4]: 3, char (*)[5]: 4, default: (strlen)(s))
#endif
#include "poik.c"
#undef strlen

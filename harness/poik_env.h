/* parameter set */
#ifndef SZ
#define SZ 434
#endif
#if SZ == 434
#include "P434/P434.c"
#elif SZ == 503
#include "P503/P503.c"
#elif SZ == 610
#include "P610/P610.c"
#elif SZ == 751
#include "P751/P751.c"
#endif

/* the real translation unit, with an optional override of the repetition count (bounding) */
#include "poik_env.h"
#include "poik_src.h"

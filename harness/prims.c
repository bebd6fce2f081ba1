/* constant-time word primitives of config.h: exact for all words (the integer encodings of P01-P03 rely on their meaning) */
#include "vh.h"
#include "poik_env.h"
void h_prims(void)
{
    digit_t x = nd64(), y = nd64();
    PROVE(is_digit_lessthan_ct(x, y) == (x < y), "less-than of two words");
    PROVE(is_digit_zero_ct(x) == (x == 0), "zero test of a word");
    PROVE(is_digit_nonzero_ct(x) == (x != 0), "nonzero test of a word");
    REACH("end");
}

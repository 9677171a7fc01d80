// Fuzzy floating-point comparison, bit-precise over all doubles
#include "sx.h"
#include <cstring>
#include <limits>
#include <vector>
#include <algorithm>
#include "util/fp_utils.hpp"
using namespace mocc;

static long bits(double d)
{
    long l;
    std::memcpy(&l, &d, 8);
    return l;
}
// position on the number line: consecutive doubles differ by one, +0 and -0
// coincide
static long ordinal(double d)
{
    long l = bits(d);
    return l < 0 ? std::numeric_limits<long>::min() - l : l;
}
static bool isfin(double d)
{
    return ((bits(d) >> 52) & 0x7ff) != 0x7ff;
}

extern "C" void sx_main()
{
    double a = sx_fp("a"), b = sx_fp("b");
    sx_assume(isfin(a) & isfin(b));
    long oa = ordinal(a), ob = ordinal(b);
    // distance without overflow: both ordinals are in +-2^63
    unsigned long d = oa > ob ? (unsigned long)oa - (unsigned long)ob
                              : (unsigned long)ob - (unsigned long)oa;
    int part = sx_param("PART", 0);
    if (part == 0) {
        bool e = fp_equiv_ulp(a, b);
        sx_check(e == (d < (unsigned long)ULP_FUZZ), "ulp equality is exactly nearness on the number line");
        sx_check(fp_equiv_ulp(b, a) == e, "ulp equality is symmetric");
        sx_reach(e ? "ulp equal" : "ulp different");
    }
    if (part == 1) {
        bool e         = fp_equiv(a, b);
        bool abs_close = std::abs(a - b) < REAL_FUZZ;
        bool ulp_close = d < (unsigned long)ULP_FUZZ;
        sx_check(e == (abs_close | ulp_close), "values are equivalent exactly when absolutely or ulp close");
        sx_reach(e ? "equiv" : "not equiv");
    }
    if (part == 2) {
        // scaled comparison: never orders a pair both ways, never contradicts <
        bool lt = fuzzy_lt(a, b);
        sx_check(!lt | (a < b), "fuzzy less-than implies less-than");
        // numbers well apart are told apart
        bool apart = (b > 0) & (a < 0.5 * b) | (b < 0) & (a < b + b);
        sx_check(!apart | lt, "numbers well apart are ordered");
        if (lt)
            sx_reach("lt");
    }
    if (part == 3) {
        bool e         = fp_equiv_saferel(a, b);
        bool abs_close = std::abs(a - b) < REAL_FUZZ;
        sx_check(!abs_close | e, "absolutely close values are equivalent");
        sx_check(!(((a < 0) != (b < 0)) & e) | abs_close, "values of different sign are not equivalent");
        sx_check(fp_equiv_abs(a, b) == abs_close, "absolute comparison");
        sx_check(!e | abs_close | (std::abs(a - b) < std::abs(a)), "values of different size are not equivalent");
        sx_check((d > 1) | e, "neighbours on the number line are equivalent");
        if (e)
            sx_reach("saferel");
    }
    if (part == 4) {
        bool e = fp_equiv(a, b);
        sx_check(fp_equiv(b, a) == e, "equivalence is symmetric");
        sx_reach("sym");
    }
}

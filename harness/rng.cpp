// Random number streams, bit-precise over every generator state
#include "sx.h"
#include <algorithm>
#include <vector>
#include "util/rng_lcg.hpp"
using namespace mocc;

extern "C" void sx_main()
{
    int part = sx_param("PART", 0);
    unsigned long seed = sx_u64("seed");
    // one step of the generator is a bijection on 64-bit words; naming the
    // state after the step instead of the one before covers the same states
    // and spares the solver an inversion
    if (part != 1 && part != 2)
        seed = (seed - 1) * 6459639395021075373ul;
    RNG_LCG r(seed);
    if (part == 0) {
        sx_fp("unused"); // selects bit-precise integer to double conversion
        double v = r.random();
        sx_check(v >= 0.0 && v < 1.0, "a random number is in [0,1)");
        sx_reach("random");
    }
    if (part == 1) {
        int n = sx_choose("n", sx_param("NMAX", 8) + 1);
        RNG_LCG q(seed);
        q.jump_ahead(n);
        for (int i = 0; i < n; i++)
            r();
        sx_check(r() == q(), "jumping ahead by n equals n steps");
        sx_reach("jump");
    }
    if (part == 2) {
        static const unsigned long A[] = {1, 10000, 4294967295ul, 4294967296ul, 10000ul * 429497ul, 1ul << 40,
                                          0x123456789abcdefl};
        unsigned long a = A[sx_choose("a", 7)], b = A[sx_choose("b", 7)];
        RNG_LCG q(seed);
        r.jump_ahead(a);
        r.jump_ahead(b);
        q.jump_ahead(a + b);
        sx_check(r() == q(), "two jumps equal one jump of their sum");
        sx_reach("jump2");
    }
    if (part == 3) {
        sx_fp("unused");
        static const int N[] = {1, 2, 3, 7, 1000003};
        int n = N[sx_choose("n", 5)];
        int i = r.random_int(n);
        sx_check(i >= 0 && i < n, "a random integer below n is in [0,n)");
        sx_reach("int");
    }
    if (part == 4) {
        sx_fp("unused");
        static const double L[][2] = {{0.0, 1.26}, {-3.5, 21.42}, {1.0, 2.0}, {1e-3, 1e6}};
        int k    = sx_choose("k", 4);
        double v = r.random(L[k][0], L[k][1]);
        sx_check(v >= L[k][0] && v <= L[k][1], "a random number stays within its bounds");
        double u = RNG_LCG(seed).random(L[k][1]);
        sx_check(u >= 0.0 && u < L[k][1], "a random number stays below its bound");
        sx_reach("bounds");
    }
    if (part == 5) {
        // last entry exactly one, or off by an ulp either way
        static const double C[] = {1.0, 1.0 - 1.1102230246251565e-16, 1.0 + 2.220446049250313e-16};
        int n    = 2 + sx_choose("n", sx_param("NMAX", 2));
        double c = C[sx_choose("c", 3)];
        std::vector<double> cdf;
        for (int i = 0; i < n; i++) {
            static const char *nms[] = {"c0", "c1", "c2", "c3", "c4"};
            double v = i == n - 1 ? c : sx_fp(nms[i]);
            if (i < n - 1)
                sx_assume(v >= (i ? cdf[i - 1] : 0.0) && v <= c);
            cdf.push_back(v);
        }
        int i = r.sample_cdf(cdf);
        if (!(i >= 0 && i < n)) {
            sx_fail("a sampled index is one of the outcomes");
            return;
        }
        sx_check(cdf[i] > (i ? cdf[i - 1] : 0.0), "a sampled outcome has positive probability");
        // the outcome is the one whose interval holds the random number
        if (c == 1.0) {
            double u = RNG_LCG(seed).random();
            sx_check(u < cdf[i] && u >= (i ? cdf[i - 1] : 0.0), "a sampled outcome's interval holds the random number");
        }
        sx_reach("cdf");
    }
}

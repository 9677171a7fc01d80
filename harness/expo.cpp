// The tabulated exponential of the characteristics sweep.
#include "common.hpp"
#include <iostream>
#include "core/exponential.hpp"
using namespace mocc;

template <int N> static void table(double lo, double hi, bool dflt)
{
    Exponential_Linear<N> *p = dflt ? new Exponential_Linear<N>() : new Exponential_Linear<N>(lo, hi);
    Exponential_Linear<N> &e = *p;
    sx_near(e.dx() * N, hi - lo, 1e-9, "the table spans its range");
    int parts = sx_param("PARTS", 1);
    for (int k = 0; k < parts; k++) {
        // a window of the range; the ends are included in the first and last
        double a = lo + (hi - lo) * sx_param("FROM", 0) / 1000.0, b = lo + (hi - lo) * sx_param("TO", 1000) / 1000.0;
        double v = sreal("v", a, b);
        double got = e.exp(v);
        // between the exact values at two neighbouring points
        int i = (v - lo) * (N / (hi - lo));
        if (i == N)
            i = N - 1;
        double h = (hi - lo) / N, x = lo + i * h, f0 = std::exp(lo + i * h), f1 = std::exp(lo + (i + 1) * h);
        sx_near(got, f0 + (f1 - f0) * ((v - x) / h), 1e-9 * f1, "interpolates between exact exponentials");
        sx_near(e[i], f0, 1e-12 * f0, "table value");
        sx_observe("exp", got);
    }
    sx_reach("table");
    delete p;
}
extern "C" void sx_main()
{
    switch (sx_param("PART", 0)) {
    case 0:
        table<10000>(-10.0, 0.0, true);
        break;
    case 1:
        table<7>(-5.3, 0.0, false);
        break;
    case 2:
        table<50>(0.0, 3.0, false);
        break;
    case 3: {
        // outside the range the library function answers
        Exponential_Linear<7> e(-5.3, -1.0);
        double v = sreal("v", -9.0, 2.0);
        sx_assume(v < -5.3 || v > -1.0);
        sx_near(e.exp(v), std::exp(v), 1e-12, "outside the table");
        Exponential s;
        sx_near(s.exp(v), std::exp(v), 1e-12, "library exponential");
        sx_reach("outside");
        break;
    }
    case 4: {
        // the reported error is the largest at the middles of the intervals
        Exponential_Linear<20> e(-4.0, 0.0);
        double h = 0.2, worst = 0, x = 0;
        for (int i = 0; i < 20; i++) {
            x = -4.0 + (i + 0.5) * h;
            double t = 0.5 * (std::exp(x - h / 2) + std::exp(x + h / 2)) / std::exp(x) - 1;
            worst = t > worst ? t : worst;
        }
        sx_near(e.max_error(), worst, 1e-9, "reported error");
        sx_near(sreal("v", 0, 1) * 0, 0, 0, "-");
        sx_reach("error");
    }
    }
}

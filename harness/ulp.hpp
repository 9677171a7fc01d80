// In exact arithmetic "within 200 units in the last place" is read as a
// relative difference below 100 machine epsilons; values between 100 and 200
// epsilons apart are decided the other way than the machine would, and every
// obligation is posed on both sides.  The bit pattern comparison itself is
// covered bit-precisely by the floating point comparison property.
#pragma once
#include <cmath>
#include <limits>
extern "C" __attribute__((used)) bool sx_ulp(double a, double b)
{
    double d = a < b ? b - a : a - b;
    double m = a < 0 ? -a : a;
    return d <= 100 * std::numeric_limits<double>::epsilon() * m;
}

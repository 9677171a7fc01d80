// Instrumentable versions of C library routines that read memory whose bytes
// may be symbolic.
#include <cstddef>
extern "C" {
__attribute__((used)) int sxl_memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i])
            return x[i] < y[i] ? -1 : 1;
    return 0;
}
__attribute__((used)) int sxl_bcmp(const void *a, const void *b, size_t n)
{
    return sxl_memcmp(a, b, n);
}
__attribute__((used)) size_t sxl_strlen(const char *s)
{
    size_t n = 0;
    while (s[n])
        n++;
    return n;
}
__attribute__((used)) void *sxl_memchr(const void *s, int c, size_t n)
{
    const unsigned char *x = (const unsigned char *)s;
    for (size_t i = 0; i < n; i++)
        if (x[i] == (unsigned char)c)
            return (void *)(x + i);
    return nullptr;
}
__attribute__((used)) int sxl_strcmp(const char *a, const char *b)
{
    while (*a && *a == *b) {
        a++;
        b++;
    }
    return (unsigned char)*a < (unsigned char)*b ? -1 : (unsigned char)*a > (unsigned char)*b;
}
// C locale classification
__attribute__((used)) int sxl_isspace(int c)
{
    return c == ' ' || (c >= 9 && c <= 13);
}
__attribute__((used)) int sxl_isdigit(int c)
{
    return c >= '0' && c <= '9';
}
__attribute__((used)) int sxl_tolower(int c)
{
    return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
__attribute__((used)) int sxl_toupper(int c)
{
    return c >= 'a' && c <= 'z' ? c - 32 : c;
}
}

// long double is compiled as double (-mlong-double-64): its math functions
// become the double ones
extern "C" {
double sin(double);
double cos(double);
double tan(double);
double acos(double);
double asin(double);
double atan(double);
double exp(double);
double log(double);
double sqrt(double);
double fabs(double);
double sinl(double x) { return sin(x); }
double cosl(double x) { return cos(x); }
double tanl(double x) { return tan(x); }
double acosl(double x) { return acos(x); }
double asinl(double x) { return asin(x); }
double atanl(double x) { return atan(x); }
double expl(double x) { return exp(x); }
double logl(double x) { return log(x); }
double sqrtl(double x) { return sqrt(x); }
double fabsl(double x) { return fabs(x); }
}

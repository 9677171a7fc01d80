// Native implementation of the harness interface: inputs come from a record
// written by the symbolic run; obligations are evaluated with the machine's
// own arithmetic.
#include <new>
#include <cstdlib>
#include <cstring>
#include "sx.h"
#include <csignal>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <string>
#include <unistd.h>

static std::map<std::string, std::string> In;
static int Out     = 1;
static int nfail   = 0;
static double Loose = 1.0;

static void say(const std::string &s)
{
    std::string t = s + "\n";
    if (write(Out, t.data(), t.size())) {
    }
}
// Inputs first read after the point where the counterexample was found are
// not part of it; any value will do.
static std::string get(const char *n, double dflt)
{
    auto it = In.find(n);
    if (it == In.end()) {
        char b[64];
        snprintf(b, sizeof b, "%.17g", dflt);
        return b;
    }
    return it->second;
}
extern "C" {
double sx_real(const char *n, double lo, double hi)
{
    double v = strtod(get(n, 0.5 * (lo + hi)).c_str(), nullptr);
    if (v < lo)
        v = lo;
    if (v > hi)
        v = hi;
    return v;
}
double sx_fp(const char *n)
{
    unsigned long b = strtoul(get(n, 0).c_str(), nullptr, 0);
    double d;
    memcpy(&d, &b, 8);
    return d;
}
long sx_int(const char *n, long lo, long)
{
    return (long)strtoul(get(n, lo).c_str(), nullptr, 0);
}
unsigned long sx_u64(const char *n)
{
    return strtoul(get(n, 0).c_str(), nullptr, 0);
}
int sx_choose(const char *n, int)
{
    return atoi(get(n, 0).c_str());
}
void sx_assume(int c)
{
    if (!c) {
        say("ASSUME-FAILED");
        _exit(nfail ? 3 : 5);
    }
}
void sx_fail(const char *l)
{
    nfail++;
    say(std::string("FAIL ") + l);
}
void sx_check(int c, const char *l)
{
    if (!c)
        sx_fail(l);
}
void sx_near(double a, double b, double tol, const char *l)
{
    if (!(std::fabs(a - b) <= tol * Loose)) {
        char buf[200];
        snprintf(buf, sizeof buf, "  values %.17g vs %.17g (tol %g)", a, b, tol);
        sx_fail(l);
        say(buf);
    }
}
void sx_le(double a, double b, double tol, const char *l)
{
    if (!(a <= b + tol * Loose)) {
        char buf[200];
        snprintf(buf, sizeof buf, "  values %.17g > %.17g (tol %g)", a, b, tol);
        sx_fail(l);
        say(buf);
    }
}
void sx_reach(const char *)
{
}
void sx_observe(const char *n, double v)
{
    char buf[300];
    snprintf(buf, sizeof buf, "OBS %s %.17g", n, v);
    say(buf);
}
long sx_param(const char *n, long d)
{
    std::string k = std::string("SXP_") + n;
    const char *v = getenv(k.c_str());
    return v ? atol(v) : d;
}
double sx_concrete(double v)
{
    return v;
}
void sx_fork_selects(int)
{
}
}
static void onsig(int s)
{
    char b[40];
    snprintf(b, sizeof b, "CRASH signal %d\n", s);
    if (write(Out, b, strlen(b))) {
    }
    _exit(3);
}
int main(int argc, char **argv)
{
    if (argc < 2)
        return 2;
    FILE *f = fopen(argv[1], "r");
    if (!f)
        return 2;
    char n[512], v[512];
    while (fscanf(f, "%511s %511s", n, v) == 2)
        In[n] = v;
    fclose(f);
    Out    = dup(1);
    int nl = open("/dev/null", O_WRONLY);
    dup2(nl, 1);
    if (!getenv("SX_STDERR"))
        dup2(nl, 2);
    signal(SIGSEGV, onsig);
    signal(SIGABRT, onsig);
    signal(SIGFPE, onsig);
    signal(SIGBUS, onsig);
    signal(SIGALRM, onsig);
    alarm(300);
    sx_main();
    say("END");
    _exit(nfail ? 3 : 0);
}

// Fresh memory is filled with a recognisable non-zero pattern, the same in
// symbolic and concrete runs, so that a result which depends on memory never
// written differs from the reference instead of passing on zeroed pages.
void *operator new(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return memset(p, 0x41, n);
}
void *operator new[](size_t n)
{
    return operator new(n);
}
void operator delete(void *p) noexcept
{
    free(p);
}
void operator delete(void *p, size_t) noexcept
{
    free(p);
}
void operator delete[](void *p) noexcept
{
    free(p);
}
void operator delete[](void *p, size_t) noexcept
{
    free(p);
}

// Symbolic runtime.  Builds terms for values derived from symbolic inputs,
// forks at undecided branches, and asks z3 to decide obligations for all
// values on each path.
#include <new>
#include <cstdlib>
#include <cstring>
#include "sx.h"
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <execinfo.h>
#include <z3++.h>
#include "z3fix.hpp"

typedef __float128 f128;
using z3::expr;

// ------------------------------------------------------------------ shared
struct Shared {
    std::atomic<long> paths, completed, infeasible, killed, forks, queries, q_sat,
        q_unsat, q_unknown, checks, checks_ok, checks_unknown, violations,
        samples, incomplete, div0, aborts, externs, stale, nodes_max, branch_q;
    std::atomic<long> solver_us;
    std::atomic<int> tokens;
    std::atomic<long> viol_rec, und_rec;
    std::atomic<int> lock;
    std::atomic<uintptr_t> pcs[8192]; // return addresses of symbolic operations
    char labels[512][96];             // label table
    std::atomic<long> lab_reach[512], lab_chk[512], lab_ok[512], lab_und[512],
        lab_viol[512];
    std::atomic<int> nlab;
    double deadline;
};
static Shared *G;
static int Out = -1, Err = -1;
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
static void lock()
{
    int z = 0;
    while (!G->lock.compare_exchange_weak(z, 1)) {
        z = 0;
        usleep(50);
    }
}
static void unlock()
{
    G->lock = 0;
}
static int label(const char *l)
{
    static std::unordered_map<std::string, int> cache;
    auto it = cache.find(l);
    if (it != cache.end())
        return it->second;
    lock();
    int n = G->nlab, r = -1;
    for (int i = 0; i < n; i++)
        if (!strncmp(G->labels[i], l, 95))
            r = i;
    if (r < 0 && n < 512) {
        strncpy(G->labels[n], l, 95);
        r       = n;
        G->nlab = n + 1;
    }
    unlock();
    if (r < 0)
        r = 511;
    cache[l] = r;
    return r;
}
static std::string RecFile;
static void record(const std::string &s)
{
    int fd = open(RecFile.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    std::string t = s + "\n";
    if (fd >= 0) {
        if (write(fd, t.data(), t.size())) {
        }
        close(fd);
    }
}
static bool PcFull = false;
static inline void notePC(void *ra)
{
    if (PcFull)
        return;
    uintptr_t a = (uintptr_t)ra;
    size_t h    = (a * 0x9E3779B97F4A7C15ull) >> 51;
    for (int k = 0; k < 64; k++, h = (h + 1) & 8191) {
        uintptr_t c = G->pcs[h].load(std::memory_order_relaxed);
        if (c == a)
            return;
        if (c == 0) {
            G->pcs[h] = a;
            return;
        }
    }
    PcFull = true;
}
#define NOTE() notePC(__builtin_return_address(0))

// ------------------------------------------------------------------- nodes
enum Kind { REAL, BV, BOOL, FP, AGG };
typedef std::vector<std::pair<int, f128>> Poly; // sorted by monomial id
struct Node {
    Kind k;
    int bits = 0;
    int sp   = 0;      // REAL: 1 +inf, 2 -inf, 3 NaN
    Poly p;            // REAL
    expr *e = nullptr; // BV/BOOL/FP ; REAL cache
    Node *b = nullptr; // BV that is zext of a BOOL
    std::vector<Node *> agg;
};
static z3::context *Cx;
static z3::solver *Sol;
static long nnodes = 0;
static Node *mk(Kind k)
{
    Node *n = new Node;
    n->k    = k;
    nnodes++;
    return n;
}
static void die(const char *why, const std::string &info = "");

struct Atom {
    expr e;
    double lo, hi;
    int deg;
};
static std::vector<Atom> Atoms;
static std::vector<std::vector<int>> Monos; // sorted atom ids; Monos[0] = {}
static std::map<std::vector<int>, int> MonoIdx;
static std::vector<expr *> MonoExpr;
static std::vector<std::pair<double, double>> MonoBnd;
static int mono(const std::vector<int> &m);

static int newAtom(const expr &e, double lo, double hi)
{
    Atoms.push_back({e, lo, hi, 1});
    return Atoms.size() - 1;
}
static std::pair<double, double> imul(std::pair<double, double> a,
                                      std::pair<double, double> b)
{
    auto m = [](double x, double y) {
        if (x == 0 || y == 0)
            return 0.0;
        return x * y;
    };
    double c[4] = {m(a.first, b.first), m(a.first, b.second),
                   m(a.second, b.first), m(a.second, b.second)};
    double l = c[0], h = c[0];
    for (double x : c) {
        if (x < l)
            l = x;
        if (x > h)
            h = x;
    }
    return {l, h};
}
static int mono(const std::vector<int> &m)
{
    auto it = MonoIdx.find(m);
    if (it != MonoIdx.end())
        return it->second;
    int id     = Monos.size();
    MonoIdx[m] = id;
    Monos.push_back(m);
    std::pair<double, double> b{1, 1};
    expr *e = nullptr;
    for (size_t i = 0; i < m.size();) {
        size_t j = i;
        while (j < m.size() && m[j] == m[i])
            j++;
        auto &A = Atoms[m[i]];
        std::pair<double, double> ab{A.lo, A.hi};
        if ((j - i) % 2 == 0) {
            auto s = imul(ab, ab);
            double lo = (A.lo <= 0 && A.hi >= 0) ? 0 : std::min(A.lo * A.lo, A.hi * A.hi);
            s.first   = lo;
            for (size_t q = i; q < j; q += 2)
                b = imul(b, s);
        } else
            for (size_t q = i; q < j; q++)
                b = imul(b, ab);
        for (size_t q = i; q < j; q++)
            e = e ? new expr(*e * A.e) : new expr(A.e);
        i = j;
    }
    MonoExpr.push_back(e);
    MonoBnd.push_back(b);
    return id;
}
static Node *realPoly(Poly &&p)
{
    Node *n = mk(REAL);
    n->p    = std::move(p);
    return n;
}
static Node *realConst(f128 v)
{
    Poly p;
    if (v != 0)
        p.push_back({0, v});
    return realPoly(std::move(p));
}
static Node *realAtom(int a)
{
    Poly p;
    p.push_back({mono({a}), (f128)1});
    return realPoly(std::move(p));
}
static Node *special(int k)
{
    Node *n = mk(REAL);
    n->sp   = k;
    return n;
}
static bool isConst(const Node *n, f128 &v)
{
    if (n->sp)
        return false;
    if (n->p.empty()) {
        v = 0;
        return true;
    }
    if (n->p.size() == 1 && n->p[0].first == 0) {
        v = n->p[0].second;
        return true;
    }
    return false;
}
// exact rational numeral for a float128
static expr num(f128 v)
{
    if (v == 0)
        return Cx->real_val(0);
    bool neg = v < 0;
    if (neg)
        v = -v;
    if (v != v || v > (f128)1e300 * (f128)1e300)
        die("nonfinite", "constant");
    int ex = 0;
    // normalise to integer mantissa
    while (v >= (f128)2) { v /= 2; ex++; }
    while (v < (f128)1) { v *= 2; ex--; }
    // v in [1,2): 112 fraction bits
    unsigned __int128 m = 0;
    for (int i = 0; i < 113; i++) {
        m <<= 1;
        if (v >= 1) {
            m |= 1;
            v -= 1;
        }
        v *= 2;
        ex--;
    }
    ex++;
    while (!(m & 1)) {
        m >>= 1;
        ex++;
    }
    auto dec = [](unsigned __int128 x) {
        char b[50];
        int i = 49;
        b[i]  = 0;
        do {
            b[--i] = '0' + (int)(x % 10);
            x /= 10;
        } while (x);
        return std::string(b + i);
    };
    auto pow2 = [&](int k) {
        expr r = Cx->real_val(1);
        // 2^k as decimal string
        std::string s = "1";
        for (int i = 0; i < k; i++) {
            int c = 0;
            for (int j = (int)s.size() - 1; j >= 0; j--) {
                int d = (s[j] - '0') * 2 + c;
                s[j]  = '0' + d % 10;
                c     = d / 10;
            }
            if (c)
                s.insert(s.begin(), '0' + c);
        }
        return s;
    };
    static std::unordered_map<int, std::string> pw;
    int k = ex < 0 ? -ex : ex;
    auto it = pw.find(k);
    if (it == pw.end())
        it = pw.emplace(k, pow2(k)).first;
    std::string s = (neg ? "-" : "") + dec(m);
    expr r(*Cx);
    if (ex >= 0)
        r = Cx->real_val(s.c_str()) * Cx->real_val(it->second.c_str());
    else
        r = Cx->real_val((s + "/" + it->second).c_str());
    return r.simplify();
}
static expr realExpr(Node *n)
{
    if (n->e)
        return *n->e;
    z3::expr_vector v(*Cx);
    for (auto &t : n->p) {
        if (t.first == 0)
            v.push_back(num(t.second));
        else if (t.second == 1)
            v.push_back(*MonoExpr[t.first]);
        else
            v.push_back(num(t.second) * *MonoExpr[t.first]);
    }
    expr e = v.size() == 0 ? Cx->real_val(0) : v.size() == 1 ? v[0] : z3::sum(v);
    n->e   = new expr(e);
    return e;
}
static Poly padd(const Poly &a, const Poly &b, f128 s)
{
    Poly r;
    r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j >= b.size() || (i < a.size() && a[i].first < b[j].first))
            r.push_back(a[i++]);
        else if (i >= a.size() || b[j].first < a[i].first) {
            r.push_back({b[j].first, s * b[j].second});
            j++;
        } else {
            f128 v = a[i].second + s * b[j].second;
            f128 m = a[i].second < 0 ? -a[i].second : a[i].second;
            f128 av = v < 0 ? -v : v;
            // cancellation below 2^-100 relative is rounding of the 113-bit
            // coefficients, not information
            if (v != 0 && av > m * (f128)7.9e-31)
                r.push_back({a[i].first, v});
            i++;
            j++;
        }
    }
    return r;
}
static Node *radd(Node *a, Node *b, f128 s)
{
    return realPoly(padd(a->p, b->p, s));
}
static const size_t MULCAP = 20000;
// Atoms whose square is known: square roots, and sines in terms of cosines.
// A product containing the square is rewritten.
static std::map<int, Poly> SquareOf;
static std::set<int> SqrtAtoms;
static Poly pmul(const Poly &a, const Poly &b);
static int repeated(const std::vector<int> &m)
{
    for (size_t i = 1; i < m.size(); i++)
        if (m[i] == m[i - 1] && SquareOf.count(m[i]))
            return m[i];
    return -1;
}
static Poly reduceSquares(Poly p)
{
    if (SquareOf.empty())
        return p;
    for (int round = 0; round < 12; round++) {
        Poly keep, add;
        bool any = false;
        for (auto &t : p) {
            int at = repeated(Monos[t.first]);
            if (at < 0) {
                keep.push_back(t);
                continue;
            }
            any = true;
            std::vector<int> r;
            int drop = 2;
            for (int a : Monos[t.first])
                if (a == at && drop > 0)
                    drop--;
                else
                    r.push_back(a);
            Poly one{{mono(r), t.second}};
            add = padd(add, pmul(one, SquareOf[at]), 1);
        }
        if (!any)
            return p;
        p = padd(keep, add, 1);
        if (p.size() > 20000)
            return p;
    }
    return p;
}
static std::map<Node *, Node *> NameCache;
static std::pair<double, double> bound(const Poly &p);
static Node *nameIt(Node *a)
{
    // replace a large polynomial by a fresh variable with a definition
    auto it = NameCache.find(a);
    if (it != NameCache.end())
        return it->second;
    expr v = Cx->real_const(("t!" + std::to_string(Atoms.size())).c_str());
    auto b = bound(a->p);
    int at = newAtom(v, b.first, b.second);
    Sol->add(v == realExpr(a));
    return NameCache[a] = realAtom(at);
}
static Node *rmul(Node *a, Node *b)
{
    f128 c;
    if (isConst(a, c)) {
        std::swap(a, b);
    }
    if (isConst(b, c)) {
        Poly p = a->p;
        if (c == 0)
            p.clear();
        for (auto &t : p)
            t.second *= c;
        return realPoly(std::move(p));
    }
    if (a->p.size() * b->p.size() > MULCAP) {
        if (a->p.size() > b->p.size())
            a = nameIt(a);
        else
            b = nameIt(b);
        if (a->p.size() * b->p.size() > MULCAP) {
            a = nameIt(a);
            b = nameIt(b);
        }
    }
    std::map<int, f128> acc;
    for (auto &x : a->p)
        for (auto &y : b->p) {
            int m;
            if (x.first == 0)
                m = y.first;
            else if (y.first == 0)
                m = x.first;
            else {
                std::vector<int> v = Monos[x.first];
                v.insert(v.end(), Monos[y.first].begin(), Monos[y.first].end());
                std::sort(v.begin(), v.end());
                m = mono(v);
            }
            acc[m] += x.second * y.second;
        }
    Poly p;
    for (auto &t : acc)
        if (t.second != 0)
            p.push_back(t);
    return realPoly(reduceSquares(std::move(p)));
}
static std::pair<double, double> bound(const Poly &p)
{
    double lo = 0, hi = 0;
    for (auto &t : p) {
        double c = (double)t.second;
        auto b   = t.first ? MonoBnd[t.first] : std::make_pair(1.0, 1.0);
        auto r   = imul({c, c}, b);
        lo += r.first;
        hi += r.second;
    }
    if (lo != lo)
        lo = -INFINITY;
    if (hi != hi)
        hi = INFINITY;
    double w = (std::fabs(lo) + std::fabs(hi)) * 1e-12;
    if (std::isfinite(w)) {
        // outward slack for rounding of the bound computation
        if (lo != 0) lo -= w;
        if (hi != 0) hi += w;
    }
    return {lo, hi};
}

// -------------------------------------------------------------- inputs/path
struct Input {
    std::string name;
    int kind; // 0 real 1 fp 2 int 3 choose
    expr e;
    long cv;
    double hint; // value the concrete run uses
};
static std::vector<Input> Inputs;
static std::vector<std::pair<std::string, Node *>> Obs;
static std::vector<pid_t> Kids;
static bool OwnToken = false, IsRoot = true;
static int ForkSel = 0;
static unsigned QTimeout = 4000, ATimeout = 30000;
static std::unordered_map<unsigned, bool> Decided; // ast id -> branch taken
static std::vector<expr> Keep;
static bool Ended = false;

static void expiry()
{
    if (now() > G->deadline) {
        G->incomplete++;
        die("deadline");
    }
}
static bool FpMode = false; // bit-precise doubles in play
static z3::check_result query(const expr *extra, unsigned to, z3::model *m = nullptr)
{
    expiry();
    double t0 = now();
    if (FpMode) {
        // one-shot bit-blasting beats the incremental core on these
        G->queries++;
        z3::check_result r = z3::unknown;
        try {
            z3::solver s = z3::tactic(*Cx, "qffp").mk_solver();
            s.set("timeout", to);
            for (auto a : Sol->assertions())
                s.add(a);
            if (extra)
                s.add(*extra);
            r = s.check();
            if (m && r == z3::sat)
                *m = s.get_model();
        } catch (z3::exception &e) {
        }
        G->solver_us += (long)((now() - t0) * 1e6);
        (r == z3::sat ? G->q_sat : r == z3::unsat ? G->q_unsat : G->q_unknown)++;
        return r;
    }
    Sol->set("timeout", to);
    G->queries++;
    z3::check_result r;
    try {
        if (extra) {
            Sol->push();
            Sol->add(*extra);
        }
        r = Sol->check();
        if (m && r == z3::sat)
            *m = Sol->get_model();
        if (extra)
            Sol->pop();
    } catch (z3::exception &e) {
        r = z3::unknown;
        if (getenv("SX_TRACE"))
            dprintf(Err, "z3 exception %s\n", e.msg());
        if (extra)
            Sol->pop();
    }
    double dt = now() - t0;
    G->solver_us += (long)(dt * 1e6);
    (r == z3::sat ? G->q_sat : r == z3::unsat ? G->q_unsat : G->q_unknown)++;
    if (getenv("SX_TRACE") && dt > 1.0)
        dprintf(Err, "slow query %.2fs -> %d\n", dt, (int)r);
    return r;
}
static z3::check_result queryAlt(const expr &extra, unsigned to, z3::model *m)
{
    // second opinion with other strategies on a fresh solver
    expiry();
    const char *tac[] = {"qfnra-nlsat", "smt"};
    for (auto t : tac) {
        double t0 = now();
        G->queries++;
        z3::check_result r = z3::unknown;
        try {
            z3::tactic tt(*Cx, t);
            z3::tactic simp(*Cx, "simplify"), pv(*Cx, "propagate-values"), se(*Cx, "solve-eqs"),
                pn(*Cx, "purify-arith"), eti(*Cx, "elim-term-ite"), tc(*Cx, "tseitin-cnf");
            z3::solver s = (std::string(t) == "qfnra-nlsat" ? (simp & pv & tt) : (simp & se & tt)).mk_solver();
            s.set("timeout", to);
            for (auto a : Sol->assertions())
                s.add(a);
            s.add(extra);
            r = s.check();
            if (m && r == z3::sat)
                *m = s.get_model();
        } catch (z3::exception &e) {
            r = z3::unknown;
        }
        G->solver_us += (long)((now() - t0) * 1e6);
        (r == z3::sat ? G->q_sat : r == z3::unsat ? G->q_unsat : G->q_unknown)++;
        if (r != z3::unknown)
            return r;
    }
    return z3::unknown;
}

static std::string valStr(z3::model &m, Input &in)
{
    char b[64];
    if (in.kind == 3) {
        snprintf(b, sizeof b, "%ld", in.cv);
        return b;
    }
    if (in.kind == 1) {
        expr v = m.eval(expr(*Cx, Z3_mk_fpa_to_ieee_bv(*Cx, in.e)), true);
        uint64_t u = 0;
        if (!v.is_numeral_u64(u)) {
            v = v.simplify();
            v.is_numeral_u64(u);
        }
        snprintf(b, sizeof b, "0x%lx", (unsigned long)u);
        return b;
    }
    expr v = m.eval(in.e, true);
    if (in.kind == 2) {
        uint64_t u = 0;
        v.is_numeral_u64(u);
        snprintf(b, sizeof b, "0x%lx", (unsigned long)u);
        return b;
    }
    std::string s;
    if (v.is_algebraic())
        s = Z3_get_numeral_decimal_string(*Cx, Z3_get_algebraic_number_lower(*Cx, v, 60), 30);
    else
        s = Z3_get_numeral_decimal_string(*Cx, v, 40);
    if (!s.empty() && s.back() == '?')
        s.pop_back();
    double d = strtod(s.c_str(), nullptr);
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
static std::string inputsJson(z3::model &m)
{
    std::string s = "{";
    bool f        = true;
    for (auto &i : Inputs) {
        s += (f ? "\"" : ",\"") + i.name + "\":\"" + valStr(m, i) + "\"";
        f = false;
    }
    return s + "}";
}
static double evalReal(z3::model &m, Node *n)
{
    expr v        = m.eval(realExpr(n), true);
    std::string s;
    if (v.is_algebraic())
        s = Z3_get_numeral_decimal_string(*Cx, Z3_get_algebraic_number_lower(*Cx, v, 60), 30);
    else if (v.is_numeral())
        s = Z3_get_numeral_decimal_string(*Cx, v, 40);
    else
        return NAN;
    return strtod(s.c_str(), nullptr);
}

static void endPath(int code)
{
    Ended = true;
    for (pid_t k : Kids) {
        int st;
        while (waitpid(k, &st, 0) < 0 && errno == EINTR) {
        }
    }
    if ((long)nnodes > G->nodes_max)
        G->nodes_max = nnodes;
    if (OwnToken)
        G->tokens++;
    if (IsRoot)
        return;
    _exit(code);
}
static int finishRoot();
static void quitPath()
{
    endPath(0);
    // root falls through
    _exit(finishRoot());
}
static void die(const char *why, const std::string &info)
{
    if (Ended)
        _exit(0);
    G->killed++;
    record(std::string("{\"t\":\"killed\",\"why\":\"") + why + "\",\"info\":\"" + info + "\"}");
    if (getenv("SX_TRACE")) {
        dprintf(Err, "killed: %s %s\n", why, info.c_str());
        void *bt[20];
        int n = backtrace(bt, 20);
        backtrace_symbols_fd(bt, n, Err);
    }
    quitPath();
}
// returns true in the child
static bool doFork()
{
    G->forks++;
    G->paths++;
    if (G->paths > atol(getenv("SX_MAXPATHS") ? getenv("SX_MAXPATHS") : "200000")) {
        G->incomplete++;
        die("maxpaths");
    }
    bool par = false;
    int t    = G->tokens;
    while (t > 0) {
        if (G->tokens.compare_exchange_weak(t, t - 1)) {
            par = true;
            break;
        }
    }
    pid_t p = fork();
    if (p < 0) {
        G->incomplete++;
        if (par)
            G->tokens++;
        die("fork failed");
    }
    if (p == 0) {
        IsRoot   = false;
        OwnToken = par;
        Kids.clear();
        return true;
    }
    if (par)
        Kids.push_back(p);
    else {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
        }
    }
    return false;
}
static void assertPC(const expr &e)
{
    Sol->add(e);
}

// violation candidate under extra constraint (already known satisfiable model)
static void violation(const char *lab, z3::model &m, const std::string &info)
{
    int l = label(lab);
    G->violations++;
    G->lab_viol[l]++;
    long k = G->lab_viol[l];
    if (k <= 40)
        record(std::string("{\"t\":\"viol\",\"label\":\"") + lab + "\",\"info\":\"" + info +
               "\",\"inputs\":" + inputsJson(m) + "}");
}
static void undecided(const char *lab)
{
    G->checks_unknown++;
    G->lab_und[label(lab)]++;
    record(std::string("{\"t\":\"undecided\",\"label\":\"") + lab + "\"}");
}
// The concrete run's own inputs as a model, when they satisfy everything.
static bool concreteModel(const expr *extra, z3::model &m)
{
    if (FpMode || Inputs.empty())
        return false;
    for (auto &i : Inputs)
        if (i.kind != 0 && i.kind != 3)
            return false;
    expiry();
    double t0 = now();
    G->queries++;
    z3::check_result r = z3::unknown;
    try {
        z3::tactic simp(*Cx, "simplify"), pv(*Cx, "propagate-values"), se(*Cx, "solve-eqs"), smt(*Cx, "smt");
        z3::solver s = (simp & pv & se & smt).mk_solver();
        s.set("timeout", 3000u);
        for (auto &i : Inputs)
            if (i.kind == 0)
                s.add(i.e == num((f128)i.hint));
        for (auto a : Sol->assertions())
            s.add(a);
        if (extra)
            s.add(*extra);
        r = s.check();
        if (r == z3::sat)
            m = s.get_model();
    } catch (z3::exception &e) {
        r = z3::unknown;
    }
    G->solver_us += (long)((now() - t0) * 1e6);
    (r == z3::sat ? G->q_sat : r == z3::unsat ? G->q_unsat : G->q_unknown)++;
    return r == z3::sat;
}
static bool satisfiable(z3::model &m)
{
    if (concreteModel(nullptr, m))
        return true;
    auto r = query(nullptr, ATimeout, &m);
    if (r == z3::unknown)
        r = queryAlt(Cx->bool_val(true), ATimeout, &m);
    return r == z3::sat;
}
// candidate that does not come from an obligation term (abort, division by 0)
static void candidate(const char *lab, const std::string &info)
{
    z3::model m(*Cx);
    if (satisfiable(m))
        violation(lab, m, info);
    else
        undecided(lab);
}

static bool decideBranch(const expr &c0, bool hint)
{
    expr c = c0.simplify();
    if (c.is_true())
        return true;
    if (c.is_false())
        return false;
    auto it = Decided.find(c.id());
    if (it != Decided.end())
        return it->second;
    G->branch_q++;
    expr nc = !c;
    auto rt = query(&c, QTimeout);
    bool r;
    if (rt == z3::unsat)
        r = false;
    else {
        auto rf = query(&nc, QTimeout);
        if (rf == z3::unsat)
            r = true;
        else {
            bool child = doFork();
            r          = child ? !hint : hint;
            assertPC(r ? c : nc);
        }
    }
    Keep.push_back(c);
    Decided[c.id()] = r;
    return r;
}

// ------------------------------------------------------------ shadow memory
struct Cell {
    Node *n;
    uint8_t off, size;
    uint8_t val;
};
struct Page {
    int used;
    Cell c[4096];
};
static std::unordered_map<uintptr_t, Page *> Pages;
static uint8_t Filter[1 << 20]; // hashed page presence
static inline size_t fh(uintptr_t pg)
{
    return (pg * 0x9E3779B97F4A7C15ull) >> 44;
}
static inline Page *page(uintptr_t a)
{
    uintptr_t pg = a >> 12;
    if (!Filter[fh(pg)])
        return nullptr;
    auto it = Pages.find(pg);
    return it == Pages.end() ? nullptr : it->second;
}
static Page *pageMk(uintptr_t a)
{
    uintptr_t pg = a >> 12;
    Page *&p     = Pages[pg];
    if (!p) {
        p = (Page *)calloc(1, sizeof(Page));
        Filter[fh(pg)] = 1;
    }
    return p;
}
static inline void setCell(uintptr_t a, Node *n, int off, int size)
{
    Page *p = n ? pageMk(a) : page(a);
    if (!p)
        return;
    Cell &c = p->c[a & 4095];
    c.n     = n;
    c.off   = off;
    c.size  = size;
    c.val   = *(uint8_t *)a;
}
static inline Cell *getCell(uintptr_t a)
{
    Page *p = page(a);
    if (!p)
        return nullptr;
    Cell *c = &p->c[a & 4095];
    if (!c->n)
        return nullptr;
    if (c->val != *(uint8_t *)a) {
        // overwritten by uninstrumented code
        c->n = nullptr;
        G->stale++;
        return nullptr;
    }
    return c;
}

// --------------------------------------------------------------- converters
static expr boolToBV(const expr &b, int bits)
{
    return z3::ite(b, Cx->bv_val(1, bits), Cx->bv_val(0, bits));
}
static expr asBool(Node *n, uint64_t v, int bits);
static expr asBV(Node *n, uint64_t v, int bits)
{
    if (!n)
        return Cx->bv_val((uint64_t)v, bits);
    switch (n->k) {
    case BV:
        return *n->e;
    case BOOL:
        return boolToBV(*n->e, bits);
    case FP: {
        return expr(*Cx, Z3_mk_fpa_to_ieee_bv(*Cx, *n->e));
    }
    default:
        die("unsupported", "integer operation on a real-valued term");
    }
    abort();
}
static expr asBool(Node *n, uint64_t v, int)
{
    if (!n)
        return Cx->bool_val(v & 1);
    if (n->k == BOOL)
        return *n->e;
    if (n->k == BV) {
        if (n->b)
            return *n->b->e;
        return *n->e != Cx->bv_val(0, n->bits);
    }
    die("unsupported", "boolean use of a non-integer term");
    abort();
}
static Node *mkBV(const expr &e, int bits)
{
    Node *n = mk(BV);
    n->bits = bits;
    n->e    = new expr(e);
    return n;
}
static Node *mkBool(const expr &e)
{
    Node *n = mk(BOOL);
    n->bits = 1;
    n->e    = new expr(e);
    return n;
}
static Node *mkFP(const expr &e)
{
    Node *n = mk(FP);
    n->bits = 64;
    n->e    = new expr(e);
    return n;
}
static z3::sort F64s()
{
    return Cx->fpa_sort(11, 53);
}
static expr fpConst(double v)
{
    uint64_t u;
    memcpy(&u, &v, 8);
    return expr(*Cx, Z3_mk_fpa_to_fp_bv(*Cx, Cx->bv_val(u, 64), F64s()));
}
static expr asFP(Node *n, double v)
{
    if (!n)
        return fpConst(v);
    if (n->k == FP)
        return *n->e;
    if (n->k == BV)
        return expr(*Cx, Z3_mk_fpa_to_fp_bv(*Cx, *n->e, F64s()));
    die("unsupported", "mixed real and bit-precise operands");
    abort();
}
static Node *asReal(Node *n, double v)
{
    if (!n) {
        if (std::isnan(v))
            return special(3);
        if (std::isinf(v))
            return special(v > 0 ? 1 : 2);
        return realConst((f128)v);
    }
    if (n->k == REAL)
        return n;
    die("unsupported", "mixed real and bit-precise operands");
    abort();
}
static Node *normConst(Node *n)
{
    return n;
}

extern "C" {
Node *__sx_args[64];
void *__sx_callee;
Node *__sx_ret;

Node *__sx_load(void *p, int size, int kind)
{
    uintptr_t a = (uintptr_t)p;
    Page *pg    = page(a);
    if (!pg && ((a & 4095) + size <= 4096))
        return nullptr;
    Cell *c0 = getCell(a);
    bool any = c0;
    if (c0 && c0->off == 0 && c0->size == size) {
        bool same = true;
        for (int i = 1; i < size; i++) {
            Cell *c = getCell(a + i);
            if (!c || c->n != c0->n || c->off != i) {
                same = false;
                break;
            }
        }
        if (same) {
            Node *n = c0->n;
            if (kind == 1 && n->k == BV)
                return mkBool(asBool(n, 0, 1));
            return n;
        }
    }
    for (int i = 1; i < size && !any; i++)
        any = getCell(a + i);
    if (!any)
        return nullptr;
    NOTE();
    // assemble from bytes
    z3::expr_vector parts(*Cx);
    for (int i = size - 1; i >= 0; i--) {
        Cell *c = getCell(a + i);
        if (!c)
            parts.push_back(Cx->bv_val((unsigned)*((uint8_t *)a + i), 8));
        else {
            if (c->n->k == REAL) {
                // a term some of whose bytes were overwritten is gone
                Node *n     = c->n;
                uintptr_t b = a + i - c->off;
                int sz      = c->size;
                bool whole  = true;
                for (int q = 0; q < sz; q++) {
                    Cell *d = getCell(b + q);
                    whole   = whole && d && d->n == n && d->off == q;
                }
                if (whole)
                    die("unsupported", "partial load of a real-valued term");
                for (int q = 0; q < sz; q++) {
                    Cell *d = getCell(b + q);
                    if (d && d->n == n)
                        d->n = nullptr;
                }
                G->stale++;
                parts.push_back(Cx->bv_val((unsigned)*((uint8_t *)a + i), 8));
                continue;
            }
            expr e = asBV(c->n, 0, c->size * 8);
            if (c->n->k == BOOL)
                e = boolToBV(*c->n->e, c->size * 8);
            if ((int)e.get_sort().bv_size() < c->size * 8)
                e = z3::zext(e, c->size * 8 - e.get_sort().bv_size());
            parts.push_back(e.extract(c->off * 8 + 7, c->off * 8));
        }
    }
    expr e = size == 1 ? parts[0] : z3::concat(parts);
    if (kind == -64)
        return mkFP(expr(*Cx, Z3_mk_fpa_to_fp_bv(*Cx, e, F64s())));
    if (kind > 0 && kind < size * 8)
        e = e.extract(kind - 1, 0);
    return mkBV(e, size * 8);
}
void __sx_store(void *p, int size, Node *n)
{
    uintptr_t a = (uintptr_t)p;
    if (!n) {
        if (!page(a) && (a & 4095) + size <= 4096)
            return;
        for (int i = 0; i < size; i++)
            setCell(a + i, nullptr, 0, 0);
        return;
    }
    if (n->k == AGG) {
        die("unsupported", "aggregate store");
    }
    NOTE();
    for (int i = 0; i < size; i++)
        setCell(a + i, n, i, size);
}
// Called before the bytes move: remember the shadow, then record with the
// source's byte values (they are what will be in dst).
void __sx_memcpy(void *d, void *s, uint64_t n)
{
    if (n == 0 || d == s)
        return;
    uintptr_t da = (uintptr_t)d, sa = (uintptr_t)s;
    bool any = false;
    for (uintptr_t q = sa >> 12; q <= (sa + n - 1) >> 12 && !any; q++)
        any = Filter[fh(q)];
    for (uintptr_t q = da >> 12; q <= (da + n - 1) >> 12 && !any; q++)
        any = Filter[fh(q)];
    if (!any)
        return;
    std::vector<Cell> tmp(n);
    for (uint64_t i = 0; i < n; i++) {
        Cell *c = getCell(sa + i);
        if (c)
            tmp[i] = *c;
        else
            tmp[i].n = nullptr;
    }
    for (uint64_t i = 0; i < n; i++) {
        Page *p = tmp[i].n ? pageMk(da + i) : page(da + i);
        if (p)
            p->c[(da + i) & 4095] = tmp[i];
    }
}
void __sx_memset(void *d, Node *v, uint64_t n)
{
    uintptr_t da = (uintptr_t)d;
    for (uint64_t i = 0; i < n; i++) {
        Page *p = v ? pageMk(da + i) : page(da + i);
        if (!p) {
            // skip to the page end
            uint64_t step = 4096 - ((da + i) & 4095);
            i += step - 1;
            continue;
        }
        Cell &c = p->c[(da + i) & 4095];
        c.n     = v;
        if (v) {
            c.off  = 0;
            c.size = 1;
            die("unsupported", "symbolic memset");
        }
    }
}
void __sx_byval(void *dst, void *src, uint64_t n)
{
    if (src && src != dst)
        __sx_memcpy(dst, src, n);
    else if (!src)
        __sx_memset(dst, nullptr, n);
}
Node *__sx_aggget(Node *a, int i)
{
    if (!a)
        return nullptr;
    if (a->k != AGG)
        return i == 0 ? a : nullptr;
    return i < (int)a->agg.size() ? a->agg[i] : nullptr;
}
Node *__sx_aggset(Node *a, int i, Node *v)
{
    if (!a && !v)
        return nullptr;
    Node *n = mk(AGG);
    if (a)
        n->agg = a->agg;
    if ((int)n->agg.size() <= i)
        n->agg.resize(i + 1, nullptr);
    n->agg[i] = v;
    return n;
}

// ------------------------------------------------------------- arithmetic
static Node *rdiv(Node *a, Node *b);
// -1, 0, 1: sign of a (possibly infinite) value, deciding it if needed
static int signOf(Node *n)
{
    if (n->sp == 1)
        return 1;
    if (n->sp == 2)
        return -1;
    f128 c;
    if (isConst(n, c))
        return c > 0 ? 1 : c < 0 ? -1 : 0;
    expr e = realExpr(n);
    if (decideBranch(e > Cx->real_val(0), true))
        return 1;
    if (decideBranch(e < Cx->real_val(0), true))
        return -1;
    return 0;
}
// IEEE rules when an operand is infinite or NaN
static Node *spArith(int op, Node *x, Node *y)
{
    if (x->sp == 3 || y->sp == 3)
        return special(3);
    if (op == 16) {
        Node *z = y;
        if (z->sp)
            z = special(3 - z->sp);
        if (x->sp && z->sp)
            return x->sp == z->sp ? x : special(3);
        return x->sp ? x : z;
    }
    if (op == 14) {
        if (x->sp && y->sp)
            return x->sp == y->sp ? x : special(3);
        return x->sp ? x : y;
    }
    if (op == 18) {
        int s = signOf(x) * signOf(y);
        return s > 0 ? special(1) : s < 0 ? special(2) : special(3);
    }
    if (op == 21) {
        if (y->sp)
            return x->sp ? special(3) : realConst(0);
        int s = signOf(y);
        if (s == 0)
            return x;
        return signOf(x) * s > 0 ? special(1) : special(2);
    }
    return special(3);
}
// llvm opcodes: FAdd=14 Add=13 Sub=15 FSub=16 Mul=17 FMul=18 UDiv=19 SDiv=20
// FDiv=21 URem=22 SRem=23 FRem=24 Shl=25 LShr=26 AShr=27 And=28 Or=29 Xor=30
Node *__sx_fbin(int op, Node *sa, Node *sb, double a, double b)
{
    if (!sa && !sb)
        return nullptr;
    NOTE();
    bool fp = (sa && sa->k != REAL) || (sb && sb->k != REAL);
    if (fp) {
        expr x = asFP(sa, a), y = asFP(sb, b);
        expr rm(*Cx, Z3_mk_fpa_rne(*Cx));
        switch (op) {
        case 14:
            return mkFP(expr(*Cx, Z3_mk_fpa_add(*Cx, rm, x, y)));
        case 16:
            return mkFP(expr(*Cx, Z3_mk_fpa_sub(*Cx, rm, x, y)));
        case 18:
            return mkFP(expr(*Cx, Z3_mk_fpa_mul(*Cx, rm, x, y)));
        case 21:
            return mkFP(expr(*Cx, Z3_mk_fpa_div(*Cx, rm, x, y)));
        }
        die("unsupported", "fp opcode");
    }
    Node *x = asReal(sa, a), *y = asReal(sb, b);
    if (x->sp || y->sp)
        return spArith(op, x, y);
    switch (op) {
    case 14:
        return radd(x, y, 1);
    case 16:
        return radd(x, y, -1);
    case 18:
        return rmul(x, y);
    case 21:
        return rdiv(x, y);
    }
    die("unsupported", "real opcode");
    return nullptr;
}
static std::map<std::string, int> QuotCache;
static std::string polyKey(const Poly &p, f128 scale)
{
    std::string s;
    for (auto &t : p) {
        f128 v = t.second * scale;
        // round to 100 bits so equal quantities share a key
        s.append((const char *)&t.first, 4);
        char b[64];
        snprintf(b, sizeof b, "%.30Le", (long double)v);
        s += b;
    }
    return s;
}
// x, y and min |y| over the input box for the atom q = x / y
struct QDef {
    Poly x, y;
    double ymin;
};
static std::map<int, QDef> QuotDef;
static Poly pmul(const Poly &a, const Poly &b)
{
    std::map<int, f128> acc, mag;
    for (auto &x : a)
        for (auto &y : b) {
            std::vector<int> v = Monos[x.first];
            v.insert(v.end(), Monos[y.first].begin(), Monos[y.first].end());
            std::sort(v.begin(), v.end());
            int m  = mono(v);
            f128 t = x.second * y.second;
            acc[m] += t;
            mag[m] += t < 0 ? -t : t;
        }
    Poly p;
    for (auto &t : acc) {
        f128 v = t.second < 0 ? -t.second : t.second;
        if (v > mag[t.first] * (f128)7.9e-31)
            p.push_back(t);
    }
    return p;
}
// Is |p| <= tol on the whole input box?  Decided by clearing the denominators
// of quotient atoms and bounding what remains term by term; false means no
// answer.
static bool boundedBy(Poly p, double tol)
{
    const size_t CAP = 6000;
    for (int round = 0; round < 24; round++) {
        double tot = 0;
        for (auto &t : p) {
            auto mb = t.first ? MonoBnd[t.first] : std::make_pair(1.0, 1.0);
            tot += std::fabs((double)t.second) * std::max(std::fabs(mb.first), std::fabs(mb.second));
        }
        if (tot * (1 + 1e-9) <= tol)
            return true;
        int q = -1;
        for (auto &t : p)
            for (int a : Monos[t.first])
                if (a > q && QuotDef.count(a))
                    q = a;
        if (q < 0)
            return false;
        const QDef &d = QuotDef[q];
        size_t k      = 0;
        std::map<size_t, Poly> by; // power of q -> cofactor
        for (auto &t : p) {
            std::vector<int> r;
            size_t n = 0;
            for (int a : Monos[t.first])
                if (a == q)
                    n++;
                else
                    r.push_back(a);
            k = std::max(k, n);
            by[n].push_back({mono(r), t.second});
        }
        Poly res;
        for (auto &e : by) {
            Poly f = e.second;
            std::sort(f.begin(), f.end(), [](const Poly::value_type &a, const Poly::value_type &b) { return a.first < b.first; });
            for (size_t i = 0; i < k; i++) {
                const Poly &m = i < e.first ? d.x : d.y;
                if (f.size() * m.size() > CAP)
                    return false;
                f = reduceSquares(pmul(f, m));
            }
            res = padd(res, f, 1);
        }
        p = res;
        for (size_t i = 0; i < k; i++)
            tol *= d.ymin;
    }
    return false;
}
static Node *rdiv(Node *a, Node *b)
{
    f128 c;
    if (isConst(b, c)) {
        if (c == 0) {
            G->div0++;
            int sg = signOf(a);
            return special(sg > 0 ? 1 : sg < 0 ? 2 : 3);
        }
        Poly p = a->p;
        for (auto &t : p)
            t.second /= c;
        return realPoly(std::move(p));
    }
    // divisor nonzero?
    auto bb = bound(b->p);
    if (!(bb.first > 0 || bb.second < 0)) {
        expr z  = realExpr(b) == Cx->real_val(0);
        auto r  = query(&z, QTimeout);
        if (r != z3::unsat) {
            G->div0++;
            if (r == z3::sat && doFork()) {
                // IEEE result of dividing by (positive) zero
                assertPC(z);
                int sg = signOf(a);
                return special(sg > 0 ? 1 : sg < 0 ? 2 : 3);
            }
            assertPC(!z);
        }
    }
    // proportional?
    if (!a->p.empty() && a->p.size() == b->p.size()) {
        f128 r  = a->p[0].second / b->p[0].second;
        bool eq = true;
        for (size_t i = 0; i < a->p.size() && eq; i++) {
            f128 d = a->p[i].second - r * b->p[i].second;
            f128 m = a->p[i].second < 0 ? -a->p[i].second : a->p[i].second;
            if (d < 0)
                d = -d;
            eq = a->p[i].first == b->p[i].first && d <= m * (f128)1e-31;
        }
        if (eq)
            return realConst(r);
    }
    if (a->p.empty())
        return a;
    f128 sa = 1 / a->p[0].second, sb = 1 / b->p[0].second;
    std::string key = polyKey(a->p, sa) + "/" + polyKey(b->p, sb);
    auto it         = QuotCache.find(key);
    int at;
    if (it != QuotCache.end())
        at = it->second;
    else {
        expr v = Cx->real_const(("q!" + std::to_string(Atoms.size())).c_str());
        Poly na = a->p, nb = b->p;
        for (auto &t : na)
            t.second *= sa;
        for (auto &t : nb)
            t.second *= sb;
        double lo = -INFINITY, hi = INFINITY;
        auto ba = bound(na), bd = bound(nb);
        if (bd.first > 0 || bd.second < 0) {
            auto r = imul(ba, {1 / bd.second, 1 / bd.first});
            lo     = r.first - std::fabs(r.first) * 1e-12;
            hi     = r.second + std::fabs(r.second) * 1e-12;
        }
        at = newAtom(v, lo, hi);
        Node *xn = realPoly(std::move(na)), *yn = realPoly(std::move(nb));
        if (xn->p.size() * yn->p.size() > 4000) {
        }
        Node *prod = rmul(realAtom(at), yn);
        Sol->add(realExpr(prod) == realExpr(xn));
        if (std::isfinite(lo))
            Sol->add(v >= num((f128)lo));
        if (std::isfinite(hi))
            Sol->add(v <= num((f128)hi));
        QuotCache[key] = at;
        if (bd.first > 0 || bd.second < 0)
            QuotDef[at] = {xn->p, yn->p, std::min(std::fabs(bd.first), std::fabs(bd.second))};
    }
    Node *q = realAtom(at);
    Poly p  = q->p;
    p[0].second = sb / sa;
    return realPoly(std::move(p));
}
Node *__sx_fneg(Node *s)
{
    if (!s)
        return nullptr;
    if (s->k == REAL) {
        if (s->sp)
            return special(s->sp == 3 ? 3 : 3 - s->sp);
        Poly p = s->p;
        for (auto &t : p)
            t.second = -t.second;
        return realPoly(std::move(p));
    }
    return mkFP(expr(*Cx, Z3_mk_fpa_neg(*Cx, asFP(s, 0))));
}
static Node *fold(Node *n)
{
    return n;
}
Node *__sx_ibin(int op, Node *sa, Node *sb, uint64_t a, uint64_t b, int bits)
{
    if (!sa && !sb)
        return nullptr;
    NOTE();
    if (bits == 1) {
        expr x = asBool(sa, a, 1), y = asBool(sb, b, 1);
        switch (op) {
        case 28:
        case 17:
            return mkBool((x && y).simplify());
        case 29:
            return mkBool((x || y).simplify());
        case 30:
        case 13:
        case 15:
            return mkBool((x != y).simplify());
        }
        die("unsupported", "i1 opcode");
    }
    // and with bool-extension: keep simple forms
    expr x = asBV(sa, a, bits), y = asBV(sb, b, bits);
    expr r(*Cx);
    switch (op) {
    case 13:
        r = x + y;
        break;
    case 15:
        r = x - y;
        break;
    case 17:
        r = x * y;
        break;
    case 19:
        r = z3::udiv(x, y);
        break;
    case 20:
        r = x / y;
        break;
    case 22:
        r = z3::urem(x, y);
        break;
    case 23:
        r = z3::srem(x, y);
        break;
    case 25:
        r = z3::shl(x, y);
        break;
    case 26:
        r = z3::lshr(x, y);
        break;
    case 27:
        r = z3::ashr(x, y);
        break;
    case 28:
        r = x & y;
        break;
    case 29:
        r = x | y;
        break;
    case 30:
        r = x ^ y;
        break;
    default:
        die("unsupported", "int opcode");
    }
    r = r.simplify();
    uint64_t cv;
    if (r.is_numeral_u64(cv)) {
        // value is fixed but the concrete copy may differ on a forced path
    }
    return mkBV(r, bits);
}
uint64_t __sx_nz(Node *s, uint64_t v)
{
    if (v == 0 && s)
        return 1;
    return v;
}
Node *__sx_icmp(int pr, Node *sa, Node *sb, uint64_t a, uint64_t b, int bits)
{
    if (!sa && !sb)
        return nullptr;
    NOTE();
    if (bits == 1) {
        expr x = asBool(sa, a, 1), y = asBool(sb, b, 1);
        if (pr == 32)
            return mkBool((x == y).simplify());
        if (pr == 33)
            return mkBool((x != y).simplify());
        die("unsupported", "i1 compare");
    }
    // (zext bool) ==/!= const
    if (sa && !sb && sa->k == BV && sa->b && (pr == 32 || pr == 33) && b <= 1) {
        expr e = *sa->b->e;
        bool t = (pr == 32) == (b == 1);
        return mkBool(t ? e : (!e).simplify());
    }
    expr x = asBV(sa, a, bits), y = asBV(sb, b, bits);
    expr r(*Cx);
    switch (pr) {
    case 32:
        r = x == y;
        break;
    case 33:
        r = x != y;
        break;
    case 34:
        r = z3::ugt(x, y);
        break;
    case 35:
        r = z3::uge(x, y);
        break;
    case 36:
        r = z3::ult(x, y);
        break;
    case 37:
        r = z3::ule(x, y);
        break;
    case 38:
        r = x > y;
        break;
    case 39:
        r = x >= y;
        break;
    case 40:
        r = x < y;
        break;
    case 41:
        r = x <= y;
        break;
    default:
        die("unsupported", "icmp");
    }
    return mkBool(r.simplify());
}
// Relation of A + B*sqrt(D) to zero without the root, when d has that form
static bool rootFree(Node *d, int pr, expr &r)
{
    if (SqrtAtoms.empty())
        return false;
    int at = -1;
    for (auto &t : d->p) {
        int n = 0;
        for (int a : Monos[t.first])
            if (SqrtAtoms.count(a)) {
                if (at >= 0 && a != at)
                    return false;
                at = a;
                n++;
            }
        if (n > 1)
            return false;
    }
    if (at < 0)
        return false;
    Poly A, B;
    for (auto &t : d->p) {
        std::vector<int> m = Monos[t.first];
        auto f             = std::find(m.begin(), m.end(), at);
        if (f == m.end())
            A.push_back(t);
        else {
            m.erase(f);
            B.push_back({mono(m), t.second});
        }
    }
    std::sort(B.begin(), B.end(), [](const Poly::value_type &x, const Poly::value_type &y) { return x.first < y.first; });
    if (A.size() * A.size() > 2000 || B.size() * B.size() * SquareOf[at].size() > 2000)
        return false;
    Node *na = realPoly(Poly(A)), *nb = realPoly(Poly(B));
    Node *df = radd(rmul(na, na), rmul(rmul(nb, nb), realPoly(Poly(SquareOf[at]))), -1); // A^2 - B^2 D
    expr z = Cx->real_val(0);
    auto rel = [&](Node *n, int k) { // 1 eq 2 gt 4 lt
        auto b   = bound(n->p);
        int poss = (b.first <= 0 && b.second >= 0 ? 1 : 0) | (b.second > 0 ? 2 : 0) | (b.first < 0 ? 4 : 0);
        if ((k & poss) == poss)
            return Cx->bool_val(true);
        if ((k & poss) == 0)
            return Cx->bool_val(false);
        expr e = realExpr(n);
        switch (k) {
        case 1: return e == z;
        case 2: return e > z;
        case 3: return e >= z;
        case 4: return e < z;
        default: return e <= z;
        }
    };
    auto pos = [&](Node *x, Node *y) { // x + y*s > 0
        return (rel(x, 2) && rel(y, 3)) || (rel(x, 2) && rel(y, 4) && rel(df, 2)) || (rel(x, 5) && rel(y, 2) && rel(df, 4));
    };
    Node *ma = __sx_fneg(na), *mb = __sx_fneg(nb);
    expr gt = pos(na, nb), lt = pos(ma, mb);
    switch (pr & 7) {
    case 1: r = !gt && !lt; break;
    case 2: r = gt; break;
    case 3: r = !lt; break;
    case 4: r = lt; break;
    case 5: r = !gt; break;
    case 6: r = gt || lt; break;
    default: return false;
    }
    r = r.simplify();
    return true;
}
Node *__sx_fcmp(int pr, Node *sa, Node *sb, double a, double b)
{
    if (!sa && !sb)
        return nullptr;
    NOTE();
    bool fp = (sa && sa->k != REAL) || (sb && sb->k != REAL);
    if (fp) {
        expr x = asFP(sa, a), y = asFP(sb, b);
        auto nan = [&](const expr &e) { return expr(*Cx, Z3_mk_fpa_is_nan(*Cx, e)); };
        expr uno = nan(x) || nan(y);
        expr lt(*Cx, Z3_mk_fpa_lt(*Cx, x, y)), gt(*Cx, Z3_mk_fpa_gt(*Cx, x, y)),
            eq(*Cx, Z3_mk_fpa_eq(*Cx, x, y));
        // predicate bits: 1=eq 2=gt 4=lt 8=uno
        expr r = Cx->bool_val(false);
        if (pr & 1)
            r = r || eq;
        if (pr & 2)
            r = r || gt;
        if (pr & 4)
            r = r || lt;
        if (pr & 8)
            r = r || uno;
        return mkBool(r.simplify());
    }
    Node *x = asReal(sa, a), *y = asReal(sb, b);
    if (x->sp || y->sp) {
        int rel;
        auto ord = [](Node *n) { return n->sp == 1 ? 1 : n->sp == 2 ? -1 : 0; };
        if (x->sp == 3 || y->sp == 3)
            rel = 8;
        else
            rel = ord(x) == ord(y) ? 1 : ord(x) > ord(y) ? 2 : 4;
        return mkBool(Cx->bool_val((pr & rel) != 0));
    }
    Node *d = radd(x, y, -1);
    f128 c;
    if (isConst(d, c)) {
        int rel = c == 0 ? 1 : c > 0 ? 2 : 4;
        return mkBool(Cx->bool_val((pr & rel) != 0));
    }
    auto bd = bound(d->p);
    int poss = 0;
    if (bd.first <= 0 && bd.second >= 0)
        poss |= 1;
    if (bd.second > 0)
        poss |= 2;
    if (bd.first < 0)
        poss |= 4;
    if ((pr & poss) == poss)
        return mkBool(Cx->bool_val(true));
    if ((pr & poss) == 0)
        return mkBool(Cx->bool_val(false));
    expr r(*Cx);
    if (rootFree(d, pr, r))
        return mkBool(r);
    expr e = realExpr(d), z = Cx->real_val(0);
    switch (pr & 7) {
    case 0:
        r = Cx->bool_val(false);
        break;
    case 1:
        r = e == z;
        break;
    case 2:
        r = e > z;
        break;
    case 3:
        r = e >= z;
        break;
    case 4:
        r = e < z;
        break;
    case 5:
        r = e <= z;
        break;
    case 6:
        r = e != z;
        break;
    case 7:
        r = Cx->bool_val(true);
        break;
    }
    return mkBool(r);
}
int __sx_branch(Node *s, int c)
{
    if (!s)
        return c;
    NOTE();
    expr e = asBool(s, c, 1);
    if (e.is_true())
        return 1;
    if (e.is_false())
        return 0;
    return decideBranch(e, c != 0);
}
Node *__sx_select(Node *sc, int c, Node *sa, Node *sb, uint64_t a, uint64_t b,
                  int kind)
{
    if (!sc)
        return c ? sa : sb;
    NOTE();
    expr e = asBool(sc, c, 1);
    if (e.is_true())
        return sa;
    if (e.is_false())
        return sb;
    auto dbl = [](uint64_t u) {
        double d;
        memcpy(&d, &u, 8);
        return d;
    };
    if (kind < 0) {
        bool fp = (sa && sa->k != REAL) || (sb && sb->k != REAL);
        if (fp)
            return mkFP(z3::ite(e, asFP(sa, dbl(a)), asFP(sb, dbl(b))));
        if (!sa && !sb && dbl(a) == dbl(b))
            return nullptr;
        Node *x = asReal(sa, dbl(a)), *y = asReal(sb, dbl(b));
        if (x->sp || y->sp || ForkSel)
            return decideBranch(e, c) ? x : y;
        // c ? x : y with both sides named as one atom
        auto bx = bound(x->p), by = bound(y->p);
        int at = newAtom(z3::ite(e, realExpr(x), realExpr(y)),
                         std::min(bx.first, by.first), std::max(bx.second, by.second));
        return realAtom(at);
    }
    if (kind == 1)
        return mkBool(z3::ite(e, asBool(sa, a, 1), asBool(sb, b, 1)).simplify());
    if (sa && sa->k == REAL)
        die("unsupported", "integer select of reals");
    Node *n = mkBV(z3::ite(e, asBV(sa, a, kind), asBV(sb, b, kind)), kind);
    return n;
}
Node *__sx_icast(int op, Node *s, int from, int to)
{
    if (!s)
        return nullptr;
    NOTE();
    // Trunc=38 ZExt=39 SExt=40
    if (s->k == REAL)
        die("unsupported", "integer cast of a real-valued term");
    if (from == 1) {
        Node *b = mkBool(asBool(s, 0, 1));
        if (op == 40)
            return mkBV(z3::ite(*b->e, Cx->bv_val(-1, to), Cx->bv_val(0, to)), to);
        Node *n = mkBV(boolToBV(*b->e, to), to);
        n->b    = b;
        return n;
    }
    expr x = asBV(s, 0, from);
    if (op == 38) {
        if (to == 1) {
            if (s->b)
                return s->b;
            return mkBool((x.extract(0, 0) == Cx->bv_val(1, 1)).simplify());
        }
        Node *n = mkBV(x.extract(to - 1, 0).simplify(), to);
        n->b    = s->b;
        return n;
    }
    Node *n = mkBV((op == 39 ? z3::zext(x, to - from) : z3::sext(x, to - from)).simplify(), to);
    n->b    = s->b;
    return n;
}
Node *__sx_fpcast(Node *s, int kind)
{
    if (!s)
        return nullptr;
    if (s->k == REAL)
        return s;
    if (kind == -64)
        return s;
    die("unsupported", "single precision");
    return nullptr;
}
Node *__sx_fpclass(Node *s, int mask)
{
    if (!s)
        return nullptr;
    NOTE();
    if (s->k == REAL) {
        if (s->sp) {
            int m = s->sp == 3 ? 3 : s->sp == 1 ? 0x200 : 0x4;
            return mkBool(Cx->bool_val((mask & m) != 0));
        }
        // reals are finite
        int nanInf = 0x3 | 0x4 | 0x200;
        if ((mask & ~nanInf) == 0)
            return mkBool(Cx->bool_val(false));
        if ((mask | nanInf) == 0x3ff && (mask & nanInf) == 0)
            return mkBool(Cx->bool_val(true));
        die("unsupported", "fpclass");
    }
    expr x = asFP(s, 0);
    expr r = Cx->bool_val(false);
    if (mask & 3)
        r = r || expr(*Cx, Z3_mk_fpa_is_nan(*Cx, x));
    expr neg(*Cx, Z3_mk_fpa_is_negative(*Cx, x)), inf(*Cx, Z3_mk_fpa_is_infinite(*Cx, x)),
        nrm(*Cx, Z3_mk_fpa_is_normal(*Cx, x)), sub(*Cx, Z3_mk_fpa_is_subnormal(*Cx, x)),
        zer(*Cx, Z3_mk_fpa_is_zero(*Cx, x));
    if (mask & 0x4) r = r || (inf && neg);
    if (mask & 0x8) r = r || (nrm && neg);
    if (mask & 0x10) r = r || (sub && neg);
    if (mask & 0x20) r = r || (zer && neg);
    if (mask & 0x40) r = r || (zer && !neg);
    if (mask & 0x80) r = r || (sub && !neg);
    if (mask & 0x100) r = r || (nrm && !neg);
    if (mask & 0x200) r = r || (inf && !neg);
    return mkBool(r.simplify());
}
static std::unordered_map<unsigned, uint64_t> ConcVal;
static const int CONCCAP = 3000;
uint64_t __sx_conc(Node *s, uint64_t v, int bits)
{
    if (!s)
        return v;
    NOTE();
    if (s->k == BOOL || bits == 1)
        return decideBranch(asBool(s, v, 1), v & 1);
    expr x = asBV(s, v, bits).simplify();
    uint64_t u;
    if (x.is_numeral_u64(u))
        return u;
    auto it = ConcVal.find(x.id());
    if (it != ConcVal.end())
        return it->second;
    for (int k = 0; k < CONCCAP; k++) {
        z3::model m(*Cx);
        auto r = query(nullptr, ATimeout, &m);
        if (r == z3::unsat) {
            G->infeasible++;
            quitPath();
        }
        if (r != z3::sat)
            die("unknown", "concretization");
        if (!m.eval(x, true).is_numeral_u64(u))
            die("unknown", "model value");
        expr eq = x == Cx->bv_val(u, bits), ne = !eq;
        auto r2 = query(&ne, QTimeout);
        if (r2 == z3::unsat) {
            Keep.push_back(x);
            ConcVal[x.id()] = u;
            return u;
        }
        if (doFork()) {
            assertPC(eq);
            Keep.push_back(x);
            ConcVal[x.id()] = u;
            return u;
        }
        assertPC(ne);
    }
    G->incomplete++;
    die("concretization cap");
    return 0;
}
uint64_t __sx_fptoi(Node *s, double v, int bits, int sg)
{
    __sx_ret = nullptr;
    if (!s)
        return sg ? (uint64_t)(int64_t)v : (uint64_t)v;
    NOTE();
    if (s->k != REAL) {
        expr x = asFP(s, v);
        expr rm(*Cx, Z3_mk_fpa_rtz(*Cx));
        expr r(*Cx, sg ? Z3_mk_fpa_to_sbv(*Cx, rm, x, bits) : Z3_mk_fpa_to_ubv(*Cx, rm, x, bits));
        // x86 semantics for out of range values: leave undefined (unspecified)
        __sx_ret = mkBV(r, bits);
        return sg ? (uint64_t)(int64_t)v : (uint64_t)v;
    }
    f128 c;
    if (s->sp)
        return 1ull << (bits - 1);
    if (isConst(s, c))
        return (uint64_t)(int64_t)c;
    expr x = realExpr(s);
    for (int k = 0; k < CONCCAP; k++) {
        z3::model m(*Cx);
        auto r = query(nullptr, ATimeout, &m);
        if (r == z3::unsat) {
            G->infeasible++;
            quitPath();
        }
        if (r != z3::sat)
            r = queryAlt(Cx->bool_val(true), ATimeout, &m);
        if (r != z3::sat)
            die("unknown", "fptosi");
        double d = evalReal(m, s);
        int64_t i = (int64_t)d;
        expr in(*Cx);
        auto R = [&](int64_t q) { return Cx->real_val((int64_t)q); };
        auto cons = [&](int64_t i) {
            if (i > 0)
                return x >= R(i) && x < R(i + 1);
            if (i < 0)
                return x <= R(i) && x > R(i - 1);
            return x > R(-1) && x < R(1);
        };
        in = cons(i);
        // rounding of the printed model value can be off by one
        if (!m.eval(in, true).is_true()) {
            for (int64_t dl : {-1, 1})
                if (m.eval(cons(i + dl), true).is_true()) {
                    i += dl;
                    in = cons(i);
                    break;
                }
        }
        expr nin = !in;
        auto r2  = query(&nin, QTimeout);
        if (r2 == z3::unsat)
            return i;
        if (doFork()) {
            assertPC(in);
            return i;
        }
        assertPC(nin);
    }
    G->incomplete++;
    die("fptosi cap");
    return 0;
}
double __sx_itofp(Node *s, uint64_t v, int bits, int sg)
{
    __sx_ret = nullptr;
    auto conv = [&](uint64_t u) -> double {
        if (bits < 64) {
            u &= (1ull << bits) - 1;
            if (sg && (u >> (bits - 1)))
                u |= ~((1ull << bits) - 1);
        }
        return sg ? (double)(int64_t)u : (double)u;
    };
    if (!s)
        return conv(v);
    NOTE();
    extern int FpInts;
    if (FpInts) {
        expr x = asBV(s, v, bits);
        expr rm(*Cx, Z3_mk_fpa_rne(*Cx));
        expr r(*Cx, sg ? Z3_mk_fpa_to_fp_signed(*Cx, rm, x, F64s())
                       : Z3_mk_fpa_to_fp_unsigned(*Cx, rm, x, F64s()));
        __sx_ret = mkFP(r);
        return conv(v);
    }
    return conv(__sx_conc(s, v, bits));
}
int FpInts = 0;
void __sx_extern(const char *name, bool any)
{
    if (!any)
        return;
    std::string n = name;
    // output formatting does not feed back into results
    if (n.find("So") != std::string::npos || n.find("ostream") != std::string::npos || n.find("Sole") != std::string::npos)
        return;
    G->externs++;
    die("external call with symbolic argument", n);
}
// ----------------------------------------------------------- math functions
static std::map<std::string, int> UFCache;
static std::map<int, std::pair<std::string, Node *>> AtomUF;
static std::map<int, std::pair<Node *, Node *>> AtomAtan2; // (y, x)
static int ufAtom(const char *f, Node *x, double lo, double hi, bool &fresh)
{
    std::string k = std::string(f) + ":" + polyKey(x->p, 1);
    auto it       = UFCache.find(k);
    fresh         = it == UFCache.end();
    if (!fresh)
        return it->second;
    expr v = Cx->real_const((std::string(f) + "!" + std::to_string(Atoms.size())).c_str());
    int at = newAtom(v, lo, hi);
    if (std::isfinite(lo))
        Sol->add(v >= num((f128)lo));
    if (std::isfinite(hi))
        Sol->add(v <= num((f128)hi));
    UFCache[k] = at;
    AtomUF[at] = {f, x};
    return at;
}
Node *__sx_math1(int id, Node *s)
{
    if (!s)
        return nullptr;
    NOTE();
    if (s->k != REAL) {
        expr x = asFP(s, 0);
        switch (id) {
        case 1:
            return mkFP(expr(*Cx, Z3_mk_fpa_sqrt(*Cx, Z3_mk_fpa_rne(*Cx), x)));
        case 7:
            return mkFP(expr(*Cx, Z3_mk_fpa_abs(*Cx, x)));
        case 8:
            return mkFP(expr(*Cx, Z3_mk_fpa_round_to_integral(*Cx, Z3_mk_fpa_rtn(*Cx), x)));
        case 9:
            return mkFP(expr(*Cx, Z3_mk_fpa_round_to_integral(*Cx, Z3_mk_fpa_rtp(*Cx), x)));
        }
        die("unsupported", "bit-precise transcendental");
    }
    f128 c;
    if (s->sp) {
        if (s->sp == 3)
            return s;
        switch (id) {
        case 1: case 6: return s->sp == 1 ? s : special(3);
        case 2: return s->sp == 1 ? s : realConst(0);
        case 7: return special(1);
        case 8: case 9: return s;
        default: return special(3);
        }
    }
    if (isConst(s, c)) {
        double d = (double)c;
        double r = 0;
        switch (id) {
        case 1: r = std::sqrt(d); break;
        case 2: r = std::exp(d); break;
        case 3: r = std::sin(d); break;
        case 4: r = std::cos(d); break;
        case 5: r = std::tan(d); break;
        case 6: r = std::log(d); break;
        case 7: return realConst(c < 0 ? -c : c);
        case 8: r = std::floor(d); break;
        case 9: r = std::ceil(d); break;
        case 10: r = std::acos(d); break;
        case 11: r = std::asin(d); break;
        case 12: r = std::atan(d); break;
        case 13: r = std::round(d); break;
        case 14: r = std::trunc(d); break;
        case 18: r = std::expm1(d); break;
        default: die("unsupported", "math function");
        }
        return asReal(nullptr, r);
    }
    auto b = bound(s->p);
    bool fr;
    const double PI_ = 3.14159265358979323846;
    switch (id) {
    case 1: { // sqrt
        if (b.first < 0) {
            expr neg = realExpr(s) < Cx->real_val(0);
            auto r   = query(&neg, QTimeout);
            if (r == z3::sat && doFork()) {
                assertPC(neg);
                return special(3);
            }
            if (r != z3::unsat)
                assertPC(!neg);
        }
        double hi = std::isfinite(b.second) && b.second >= 0 ? std::sqrt(b.second) * (1 + 1e-12) : INFINITY;
        double lo = b.first > 0 ? std::sqrt(b.first) * (1 - 1e-12) : 0;
        int at    = ufAtom("sqrt", s, lo, hi, fr);
        Node *a   = realAtom(at);
        if (fr) {
            Sol->add(realExpr(rmul(a, a)) == realExpr(s));
            SquareOf[at] = s->p;
            SqrtAtoms.insert(at);
        }
        return a;
    }
    case 2: { // exp
        double lo = 0, hi = INFINITY;
        if (std::isfinite(b.second))
            hi = std::exp(b.second) * (1 + 1e-12);
        if (std::isfinite(b.first))
            lo = std::exp(b.first) * (1 - 1e-12);
        int at  = ufAtom("exp", s, lo, hi, fr);
        Node *a = realAtom(at);
        if (fr) {
            expr x = realExpr(s), v = realExpr(a);
            Sol->add(v > Cx->real_val(0));
            Sol->add(v >= x + 1);
            Sol->add(z3::implies(x < 0, v < 1));
            Sol->add(z3::implies(x <= 0, v <= 1));
        }
        return a;
    }
    case 3:
    case 4: {
        // s = k*pi/2 + rest: reduce to functions of a rest whose first
        // coefficient is positive
        {
            Poly rest;
            f128 k0 = 0;
            for (auto &t : s->p)
                if (t.first == 0)
                    k0 = t.second;
                else
                    rest.push_back(t);
            double kq  = (double)k0 / (PI_ / 2);
            double kr  = std::round(kq);
            bool neg   = rest[0].second < 0;
            bool shift = kr != 0 && std::fabs(kq - kr) < 1e-12;
            if (shift || (neg && k0 == 0)) {
                if (neg)
                    for (auto &t : rest)
                        t.second = -t.second;
                if (!shift)
                    kr = 0;
                Node *r = realPoly(std::move(rest));
                if (neg) {
                    // f(k - r): cos even, sin odd
                    int k    = ((int)kr % 4 + 4) % 4;
                    Node *sn = __sx_math1(3, r), *cs = __sx_math1(4, r);
                    Node *S[4] = {__sx_fneg(sn), cs, sn, __sx_fneg(cs)};
                    Node *C[4] = {cs, sn, __sx_fneg(cs), __sx_fneg(sn)};
                    return id == 3 ? S[k] : C[k];
                }
                int k    = ((int)kr % 4 + 4) % 4;
                Node *sn = __sx_math1(3, r), *cs = __sx_math1(4, r);
                Node *S[4] = {sn, cs, __sx_fneg(sn), __sx_fneg(cs)};
                Node *C[4] = {cs, __sx_fneg(sn), __sx_fneg(cs), sn};
                return id == 3 ? S[k] : C[k];
            }
        }
        // whole turns added to an azimuth
        if (s->p.size() == 2 && s->p[0].first == 0 && s->p[1].second == 1 && Monos[s->p[1].first].size() == 1 &&
            AtomAtan2.count(Monos[s->p[1].first][0])) {
            double turns = (double)s->p[0].second / (2 * M_PI);
            if (std::fabs(turns - std::nearbyint(turns)) < 1e-14)
                return __sx_math1(id, realAtom(Monos[s->p[1].first][0]));
        }
        if (s->p.size() == 1 && Monos[s->p[0].first].size() == 1 && s->p[0].second == 1) {
            auto u = AtomUF.find(Monos[s->p[0].first][0]);
            if (u != AtomUF.end() && (u->second.first == "acos" || u->second.first == "asin")) {
                Node *x    = u->second.second;
                bool same  = (u->second.first == "acos") == (id == 4);
                if (same)
                    return x;
                return __sx_math1(1, radd(realConst(1), rmul(x, x), -1));
            }
            auto t = AtomAtan2.find(Monos[s->p[0].first][0]);
            if (t != AtomAtan2.end()) {
                Node *y = t->second.first, *x = t->second.second;
                return rdiv(id == 3 ? y : x, __sx_math1(1, radd(rmul(x, x), rmul(y, y), 1)));
            }
        }
        int at  = ufAtom(id == 3 ? "sin" : "cos", s, -1, 1, fr);
        Node *a = realAtom(at);
        if (fr) {
            bool f2;
            Node *o = realAtom(ufAtom(id == 3 ? "cos" : "sin", s, -1, 1, f2));
            Sol->add(realExpr(radd(rmul(a, a), rmul(o, o), 1)) == Cx->real_val(1));
            Node *sn = id == 3 ? a : o, *cs = id == 3 ? o : a;
            // signs by quadrant where the argument range allows
            expr x = realExpr(s);
            auto q = [&](double lo, double hi, Node *t, bool pos) {
                expr in = x >= num((f128)lo) && x <= num((f128)hi);
                expr tv = realExpr(t);
                Sol->add(z3::implies(in, pos ? tv >= 0 : tv <= 0));
            };
            double h = PI_ / 2, e = 1e-12;
            q(e, PI_ - e, sn, true);
            q(PI_ + e, 2 * PI_ - e, sn, false);
            q(-h + e, h - e, cs, true);
            q(h + e, 3 * h - e, cs, false);
            q(3 * h + e, 5 * h - e, cs, true);
            SquareOf[Monos[sn->p[0].first][0]] = radd(realConst(1), rmul(cs, cs), -1)->p;
        }
        return a;
    }
    case 6: {
        int at = ufAtom("log", s, -INFINITY, b.second > 0 && std::isfinite(b.second) ? std::log(b.second) + 1e-12 : INFINITY, fr);
        Node *a = realAtom(at);
        if (fr) {
            expr x = realExpr(s), v = realExpr(a);
            Sol->add(v <= x - 1);
            Sol->add(z3::implies(x < 1, v < 0));
            Sol->add(z3::implies(x > 1, v > 0));
        }
        return a;
    }
    case 7: {
        if (b.first >= 0)
            return s;
        if (b.second <= 0)
            return __sx_fneg(s);
        expr x = realExpr(s);
        double m = std::max(std::fabs(b.first), std::fabs(b.second));
        if (ForkSel) {
            if (decideBranch(x >= Cx->real_val(0), true))
                return s;
            return __sx_fneg(s);
        }
        return realAtom(newAtom(z3::ite(x >= 0, x, -x), 0, m));
    }
    case 8:
    case 9: {
        expr x  = realExpr(s);
        expr fl = id == 8 ? expr(*Cx, Z3_mk_int2real(*Cx, Z3_mk_real2int(*Cx, x)))
                          : -expr(*Cx, Z3_mk_int2real(*Cx, Z3_mk_real2int(*Cx, -x)));
        return realAtom(newAtom(fl, std::floor(b.first), std::ceil(b.second)));
    }
    case 13:
    case 14: {
        // round half away from zero; truncate
        expr x = realExpr(s), h = Cx->real_val(id == 13 ? "1/2" : "0");
        auto fl = [&](const expr &e) { return expr(*Cx, Z3_mk_int2real(*Cx, Z3_mk_real2int(*Cx, e))); };
        return realAtom(newAtom(z3::ite(x >= 0, fl(x + h), -fl(h - x)), std::floor(b.first), std::ceil(b.second)));
    }
    case 5:
        return realAtom(ufAtom("tan", s, -INFINITY, INFINITY, fr));
    case 10: {
        // acos(-x) = pi - acos(x); acos(cos x) = x is left to the range axioms
        Poly p = s->p;
        if (!p.empty() && p[0].second < 0) {
            Node *r = __sx_math1(10, __sx_fneg(s));
            return radd(realConst((f128)3.14159265358979323846264338327950288Q), r, -1);
        }
        Node *a = realAtom(ufAtom("acos", s, 0, PI_ * (1 + 1e-15), fr));
        if (fr) {
            expr x = realExpr(s), v = realExpr(a);
            f128 h = 1.57079632679489661923132169163975144Q;
            Sol->add(z3::implies(x > 0, v < num(h)));
            Sol->add(z3::implies(x < 0, v > num(h)));
            Sol->add(z3::implies(x >= 0, v <= num(h)));
            Sol->add(z3::implies(x < 1, v > 0));
            Sol->add(z3::implies(x > -1, v < num(2 * h)));
        }
        return a;
    }
    case 11:
        return realAtom(ufAtom("asin", s, -PI_ / 2 * (1 + 1e-15), PI_ / 2 * (1 + 1e-15), fr));
    case 12:
        return realAtom(ufAtom("atan", s, -PI_ / 2, PI_ / 2, fr));
    }
    die("unsupported", "math function");
    return nullptr;
}
Node *__sx_math2(int id, Node *sa, Node *sb, double a, double b)
{
    if (!sa && !sb)
        return nullptr;
    NOTE();
    bool fp = (sa && sa->k != REAL) || (sb && sb->k != REAL);
    if (id == 4 || id == 5) {
        Node *c = __sx_fcmp(id == 4 ? 4 : 2, sa, sb, a, b);
        uint64_t ua, ub;
        memcpy(&ua, &a, 8);
        memcpy(&ub, &b, 8);
        return __sx_select(c, id == 4 ? a < b : a > b, sa, sb, ua, ub, -64);
    }
    if (!fp && id != 4 && id != 5 && (asReal(sa, a)->sp || asReal(sb, b)->sp))
        return special(3);
    if (id == 1 && !fp && !sb) {
        if (b == 2.0)
            return rmul(sa, sa);
        if (b == 0.5)
            return __sx_math1(1, sa);
        if (b == 1.0)
            return sa;
        if (b == -1.0)
            return rdiv(realConst(1), sa);
    }
    if (id == 3 && !fp) {
        bool fr;
        Node *x = asReal(sa, a), *y = asReal(sb, b);
        // key on both arguments
        std::string k = "atan2:" + polyKey(x->p, 1) + "," + polyKey(y->p, 1);
        auto it       = UFCache.find(k);
        if (it != UFCache.end())
            return realAtom(it->second);
        double P = 3.14159265358979323846 * (1 + 1e-15);
        expr v   = Cx->real_const(("atan2!" + std::to_string(Atoms.size())).c_str());
        int at   = newAtom(v, -P, P);
        Sol->add(v >= num((f128)-P) && v <= num((f128)P));
        UFCache[k] = at;
        (void)fr;
        AtomAtan2[at] = {x, y};
        // octants
        expr ey = realExpr(x), ex = realExpr(y);
        f128 q = M_PI / 4; // the double, as in the code under test
        auto oct = [&](const expr &in, int lo, int hi) {
            Sol->add(z3::implies(in, v >= num(lo * q) && v <= num(hi * q)));
        };
        // how far inside an octant at least: atan is above its chord
        auto most = [&](Node *n) {
            double tot = 0;
            for (auto &t : n->p) {
                auto mb = t.first ? MonoBnd[t.first] : std::make_pair(1.0, 1.0);
                tot += std::fabs((double)t.second) * std::max(std::fabs(mb.first), std::fabs(mb.second));
            }
            return tot;
        };
        double by = most(x), bx = most(y);
        bool lin = bx > 0 && by > 0 && std::isfinite(bx + by);
        auto strict = [&](const expr &in, int lo, int hi) {
            if (lin) {
                expr ay = lo >= 0 ? ey : -ey, ax = (lo >= -2 && hi <= 2) ? ex : -ex;
                bool steep = lo == 1 || lo == 2 || lo == -2 || lo == -3; // nearest axis is y
                const expr &mi = steep ? ax : ay, &ma = steep ? ay : ax;
                f128 c1 = 0.99 * q / (steep ? by : bx), c2 = 0.99 * q / (bx + by);
                // even multiples of q are axes, odd ones diagonals
                expr dlo = (lo % 2 == 0) ? num(c1) * mi : num(c2) * (ma - mi);
                expr dhi = (lo % 2 == 0) ? num(c2) * (ma - mi) : num(c1) * mi;
                Sol->add(z3::implies(in, v >= num(lo * q) + dlo && v <= num(hi * q) - dhi));
            }
            // a double strictly inside an octant is not closer than this to its ends
            f128 g = 1e-18;
            Sol->add(z3::implies(in, (lo ? v >= num(lo * q + g) : v > 0) && (hi ? v <= num(hi * q - g) : v < 0)));
        };
        oct(ey == 0 && ex >= 0, 0, 0);
        oct(ey == 0 && ex < 0, 4, 4);
        oct(ex == 0 && ey > 0, 2, 2);
        oct(ex == 0 && ey < 0, -2, -2);
        strict(ey > 0 && ex > 0 && ey < ex, 0, 1);
        strict(ey > 0 && ex > 0 && ey > ex, 1, 2);
        strict(ey > 0 && ex < 0 && ey > -ex, 2, 3);
        strict(ey > 0 && ex < 0 && ey < -ex, 3, 4);
        strict(ey < 0 && ex < 0 && ey > ex, -4, -3);
        strict(ey < 0 && ex < 0 && ey < ex, -3, -2);
        strict(ey < 0 && ex > 0 && -ey > ex, -2, -1);
        strict(ey < 0 && ex > 0 && -ey < ex, -1, 0);
        oct(ey > 0 && ey == ex, 1, 1);
        oct(ey > 0 && ey == -ex, 3, 3);
        oct(ey < 0 && ey == ex, -3, -3);
        oct(ey < 0 && ey == -ex, -1, -1);
        return realAtom(at);
    }
    if (id == 6 && !fp && !sb) {
        Node *m = __sx_math1(7, sa);
        return std::signbit(b) ? __sx_fneg(m) : m;
    }
    die("unsupported", "two-argument math function");
    return nullptr;
}

// --------------------------------------------------------------- harness API
static Input *findIn(const char *n)
{
    for (auto &i : Inputs)
        if (i.name == n)
            return &i;
    return nullptr;
}
static unsigned long rngs = 88172645463325252ull;
static double rnd()
{
    rngs ^= rngs << 13;
    rngs ^= rngs >> 7;
    rngs ^= rngs << 17;
    return (rngs >> 11) * (1.0 / 9007199254740992.0);
}
double sx_real(const char *name, double lo, double hi)
{
    __sx_callee = nullptr;
    if (findIn(name))
        die("harness", "duplicate input");
    expr v = Cx->real_const(name);
    double h = lo + (hi - lo) * (0.1 + 0.8 * rnd());
    Inputs.push_back({name, 0, v, 0, h});
    Sol->add(v >= num((f128)lo) && v <= num((f128)hi));
    int at   = newAtom(v, lo, hi);
    __sx_ret = realAtom(at);
    return h;
}
double sx_fp(const char *name)
{
    __sx_callee = nullptr;
    // represented through its bit pattern so that NaN payloads are covered
    expr b = Cx->bv_const(name, 64);
    expr v = expr(*Cx, Z3_mk_fpa_to_fp_bv(*Cx, b, F64s()));
    Inputs.push_back({name, 2, b, 0});
    __sx_ret = mkFP(v);
    FpInts   = 1;
    FpMode   = true;
    return 1.0;
}
long sx_int(const char *name, long lo, long hi)
{
    __sx_callee = nullptr;
    expr v      = Cx->bv_const(name, 64);
    Inputs.push_back({name, 2, v, 0});
    Sol->add(v >= Cx->bv_val((int64_t)lo, 64) && v <= Cx->bv_val((int64_t)hi, 64));
    __sx_ret = mkBV(v, 64);
    return lo;
}
unsigned long sx_u64(const char *name)
{
    __sx_callee = nullptr;
    expr v      = Cx->bv_const(name, 64);
    Inputs.push_back({name, 2, v, 0});
    __sx_ret = mkBV(v, 64);
    return 1;
}
int sx_choose(const char *name, int n)
{
    __sx_callee = nullptr;
    __sx_ret    = nullptr;
    int v       = 0;
    Inputs.push_back({name, 3, Cx->bool_val(true), 0});
    size_t ix = Inputs.size() - 1;
    for (int i = 1; i < n; i++)
        if (doFork()) {
            v = i;
            break;
        }
    Inputs[ix].cv = v;
    return v;
}
void sx_assume(int c)
{
    Node *s     = __sx_args[0];
    __sx_callee = nullptr;
    __sx_ret    = nullptr;
    if (!s) {
        if (!c) {
            G->infeasible++;
            quitPath();
        }
        return;
    }
    expr e = asBool(s, c, 32).simplify();
    if (e.is_true())
        return;
    assertPC(e);
    if (e.is_false() || query(nullptr, QTimeout) == z3::unsat) {
        G->infeasible++;
        quitPath();
    }
}
static void prove(const expr &phi0, const char *lab, const std::vector<expr> *amps = nullptr)
{
    int l = label(lab);
    G->checks++;
    G->lab_chk[l]++;
    expr phi  = phi0.simplify();
    expr nphi = !phi;
    z3::model m(*Cx);
    auto r = query(&nphi, 2000, &m);
    if (r == z3::unknown && concreteModel(&nphi, m))
        r = z3::sat;
    if (r == z3::unknown && !FpMode)
        r = queryAlt(nphi, 4000, &m);
    if (r == z3::unknown)
        r = query(&nphi, ATimeout, &m);
    if (r == z3::unknown)
        r = queryAlt(nphi, ATimeout, &m);
    if (r == z3::unsat) {
        G->checks_ok++;
        G->lab_ok[l]++;
        if (!phi.is_true())
            assertPC(phi);
        return;
    }
    if (r == z3::unknown) {
        undecided(lab);
        return;
    }
    // look for a more pronounced counterexample
    if (amps && G->lab_viol[l] < 20)
        for (auto &a : *amps) {
            z3::model m2(*Cx);
            if (query(&a, QTimeout, &m2) == z3::sat) {
                violation(lab, m2, "amplified");
                break;
            }
        }
    violation(lab, m, "");
    if (G->lab_viol[l] > 20)
        return;
    // continue on inputs where the obligation holds
    if (query(&phi, QTimeout) == z3::unsat) {
        G->completed++;
        quitPath();
    }
    assertPC(phi);
}
void sx_check(int c, const char *lab)
{
    Node *s     = __sx_args[0];
    __sx_callee = nullptr;
    __sx_ret    = nullptr;
    prove(s ? asBool(s, c, 32) : Cx->bool_val(c != 0), lab);
}
void sx_fail(const char *lab)
{
    __sx_callee = nullptr;
    __sx_ret    = nullptr;
    prove(Cx->bool_val(false), lab);
}
static void cmpProve(double a, double b, double tol, const char *lab, bool two)
{
    Node *sa = __sx_args[0], *sb = __sx_args[1];
    __sx_callee = nullptr;
    __sx_ret    = nullptr;
    if (!sa && !sb) {
        bool ok = two ? std::fabs(a - b) <= tol : a <= b + tol;
        prove(Cx->bool_val(ok), lab);
        return;
    }
    if ((sa && sa->k != REAL) || (sb && sb->k != REAL))
        die("harness", "near on bit-precise values");
    if (asReal(sa, a)->sp || asReal(sb, b)->sp) {
        prove(Cx->bool_val(false), lab);
        return;
    }
    Node *d = radd(asReal(sa, a), asReal(sb, b), -1);
    // Terms whose magnitude over the whole input box is negligible against
    // the tolerance are replaced by one bounded slack variable.
    Poly mainp;
    double slack = 0;
    for (auto &t : d->p) {
        double w = std::fabs((double)t.second);
        auto mb  = t.first ? MonoBnd[t.first] : std::make_pair(1.0, 1.0);
        double mx = std::max(std::fabs(mb.first), std::fabs(mb.second));
        double z  = w * mx * (1 + 1e-10);
        if (std::isfinite(z) && slack + z <= 0.25 * tol)
            slack += z;
        else
            mainp.push_back(t);
    }
    if (two && boundedBy(mainp, tol - slack)) {
        int l = label(lab);
        G->checks++;
        G->lab_chk[l]++;
        G->checks_ok++;
        G->lab_ok[l]++;
        return;
    }
    Node *mn = realPoly(std::move(mainp));
    expr x   = realExpr(mn);
    if (slack > 0) {
        static int ns = 0;
        expr s        = Cx->real_const(("slack!" + std::to_string(ns++)).c_str());
        Sol->add(s >= num((f128)-slack) && s <= num((f128)slack));
        x = x + s;
    }
    expr T   = num((f128)tol);
    expr phi = two ? (x <= T && x >= -T) : (x <= T);
    std::vector<expr> amps;
    for (double f : {1e9, 1e6, 1e4, 1e2, 5.0}) {
        expr F = num((f128)(tol * f));
        amps.push_back(two ? (x > F || x < -F) : (x > F));
    }
    prove(phi, lab, &amps);
}
void sx_near(double a, double b, double tol, const char *lab)
{
    cmpProve(a, b, tol, lab, true);
}
void sx_le(double a, double b, double tol, const char *lab)
{
    cmpProve(a, b, tol, lab, false);
}
void sx_reach(const char *lab)
{
    __sx_callee = nullptr;
    __sx_ret    = nullptr;
    int l       = label(lab);
    if (G->lab_reach[l] > 0)
        return;
    z3::model m(*Cx);
    if (satisfiable(m))
        G->lab_reach[l]++;
}
void sx_observe(const char *name, double v)
{
    Node *s     = __sx_args[1];
    __sx_callee = nullptr;
    __sx_ret    = nullptr;
    if (s && (s->k != REAL || s->sp))
        return;
    Obs.push_back({name, s ? s : asReal(nullptr, v)});
}
long sx_param(const char *n, long d)
{
    std::string k = std::string("SXP_") + n;
    const char *v = getenv(k.c_str());
    __sx_callee = nullptr;
    __sx_ret = nullptr;
    return v ? atol(v) : d;
}
double sx_concrete(double v)
{
    __sx_callee = nullptr;
    __sx_ret    = nullptr;
    return v;
}
void sx_fork_selects(int on)
{
    __sx_callee = nullptr;
    __sx_ret    = nullptr;
    ForkSel     = on;
}
} // extern C

static int NSamples = 3;
static void pathDone()
{
    G->completed++;
    if (!Obs.empty() && G->samples < NSamples) {
        G->samples++;
        z3::model m(*Cx);
        if (satisfiable(m)) {
            std::string s = "{\"t\":\"sample\",\"inputs\":" + inputsJson(m) + ",\"obs\":{";
            bool f        = true;
            for (auto &o : Obs) {
                char b[64];
                snprintf(b, sizeof b, "%.17g", evalReal(m, o.second));
                s += (f ? "\"" : ",\"") + o.first + "\":\"" + b + "\"";
                f = false;
            }
            record(s + "}}");
        }
    }
}
static void onsig(int sg)
{
    signal(sg, SIG_DFL);
    if (Ended)
        _exit(0);
    G->aborts++;
    char lab[64];
    snprintf(lab, sizeof lab, "abnormal termination (signal %d)", sg);
    if (getenv("SX_TRACE")) {
        dprintf(Err, "signal %d\n", sg);
        void *bt[30];
        int n = backtrace(bt, 30);
        backtrace_symbols_fd(bt, n, Err);
    }
    candidate(lab, "");
    quitPath();
}
static int finishRoot()
{
    // JSON summary
    std::string s = "{";
    auto put = [&](const char *k, long v) {
        s += std::string(s.size() > 1 ? "," : "") + "\"" + k + "\":" + std::to_string(v);
    };
    put("paths", G->paths);
    put("completed", G->completed);
    put("infeasible", G->infeasible);
    put("killed", G->killed);
    put("forks", G->forks);
    put("queries", G->queries);
    put("sat", G->q_sat);
    put("unsat", G->q_unsat);
    put("unknown", G->q_unknown);
    put("checks", G->checks);
    put("checks_ok", G->checks_ok);
    put("checks_unknown", G->checks_unknown);
    put("violations", G->violations);
    put("incomplete", G->incomplete);
    put("div0", G->div0);
    put("aborts", G->aborts);
    put("stale", G->stale);
    put("branches", G->branch_q);
    put("solver_us", G->solver_us);
    put("nodes_max", G->nodes_max);
    s += ",\"labels\":{";
    for (int i = 0; i < G->nlab; i++) {
        char b[300];
        snprintf(b, sizeof b, "%s\"%s\":{\"reach\":%ld,\"checks\":%ld,\"ok\":%ld,\"undecided\":%ld,\"viol\":%ld}",
                 i ? "," : "", G->labels[i], (long)G->lab_reach[i], (long)G->lab_chk[i],
                 (long)G->lab_ok[i], (long)G->lab_und[i], (long)G->lab_viol[i]);
        s += b;
    }
    s += "},\"pcs\":[";
    extern char __executable_start;
    bool f = true;
    for (auto &p : G->pcs)
        if (p) {
            s += (f ? "" : ",") + std::to_string((unsigned long)(p - (uintptr_t)&__executable_start));
            f = false;
        }
    s += "]}";
    record("{\"t\":\"summary\",\"s\":" + s + "}");
    return 0;
}
#include <exception>
int main(int argc, char **argv)
{
    RecFile = argc > 1 ? argv[1] : "/dev/stdout";
    unlink(RecFile.c_str());
    G = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    G->paths    = 1;
    const char *j = getenv("SX_JOBS");
    G->tokens   = (j ? atoi(j) : 8) - 1;
    const char *dl = getenv("SX_BUDGET");
    G->deadline = now() + (dl ? atof(dl) : 600);
    if (getenv("SX_QTIMEOUT"))
        QTimeout = atoi(getenv("SX_QTIMEOUT"));
    if (getenv("SX_ATIMEOUT"))
        ATimeout = atoi(getenv("SX_ATIMEOUT"));
    if (getenv("SX_SAMPLES"))
        NSamples = atoi(getenv("SX_SAMPLES"));
    Err = dup(2);
    if (!getenv("SX_STDERR")) {
        int nl = open("/dev/null", O_WRONLY);
        dup2(nl, 1);
        dup2(nl, 2);
    }
    Cx  = new z3::context;
    z3fix::install();
    Sol = new z3::solver(*Cx);
    Monos.push_back({});
    MonoIdx[{}] = 0;
    MonoExpr.push_back(nullptr);
    MonoBnd.push_back({1, 1});
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = onsig;
        sa.sa_flags   = SA_NODEFER | SA_ONSTACK;
        sigaction(s, &sa, nullptr);
    }
    stack_t ss;
    ss.ss_size  = 64 << 20;
    ss.ss_sp    = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    sx_main();
    pathDone();
    endPath(0);
    return finishRoot();
}

// Fresh memory is filled with a recognisable non-zero pattern, the same in
// symbolic and concrete runs, so that a result which depends on memory never
// written differs from the reference instead of passing on zeroed pages.
void *operator new(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return memset(p, 0x41, n);
}
void *operator new[](size_t n)
{
    return operator new(n);
}
void operator delete(void *p) noexcept
{
    free(p);
}
void operator delete(void *p, size_t) noexcept
{
    free(p);
}
void operator delete[](void *p) noexcept
{
    free(p);
}
void operator delete[](void *p, size_t) noexcept
{
    free(p);
}

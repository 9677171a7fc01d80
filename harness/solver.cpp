// The solvers that drive the sweepers.  PART selects: 0 one eigenvalue
// iteration, 1 a whole eigenvalue solve, 2 a whole fixed-source solve, 3 a
// Monte Carlo eigenvalue solve.
#include <array>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include "common.hpp"
#include "ulp.hpp"
#include "core/angular_quadrature.hpp"
#include "core/coarse_data.hpp"
#include "core/cmfd.hpp"
#include "util/h5file.hpp"
#include "util/rng_lcg.hpp"
#include "util/timers.hpp"
#include "sweepers/transport_sweeper_factory.hpp"
#define private public
#include "solvers/fixed_source_solver.hpp"
#include "solvers/eigen_solver.hpp"
#include "sweepers/mc/particle_pusher.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"
#undef private
using namespace mocc;

// numbers of the input that are symbolic
static std::map<std::string, double> number;
extern "C" __attribute__((used)) float sx_as_float(const pugi::xml_attribute *a, float dflt)
{
    auto it = number.find(a->name());
    return it != number.end() ? (float)it->second : *a ? std::strtof(a->value(), nullptr) : dflt;
}
extern "C" __attribute__((used)) double sx_as_double(const pugi::xml_attribute *a, double dflt)
{
    auto it = number.find(a->name());
    return it != number.end() ? it->second : *a ? std::strtod(a->value(), nullptr) : dflt;
}
static std::string conc(double v)
{
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", sx_concrete(v));
    return b;
}
static std::string geometry(bool closed = false)
{
    Bcs b;
    if (closed)
        b.e = b.s = b.t = "reflect";
    b.w = b.n = b.b = "reflect";
    return "<mesh id=\"1\" type=\"rect\" pitch=\"1.2\"><sub_x>1</sub_x><sub_y>1</sub_y></mesh>"
           "<pin id=\"1\" mesh=\"1\">1</pin><pin id=\"2\" mesh=\"1\">2</pin><pin id=\"3\" mesh=\"1\">3</pin>"
           "<lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 2 </lattice><lattice id=\"2\" nx=\"2\" ny=\"1\"> 3 1 </lattice>"
           "<assembly id=\"1\" np=\"2\"><hz>0.9 1.4</hz><lattices>1 2</lattices></assembly>"
           "<core nx=\"1\" ny=\"1\"" +
           bc_attr(b) + ">1</core>" + matlib();
}
static std::string sweeper(int kind)
{
    return kind ? "<sweeper type=\"moc\" n_inner=\"1\" boundary_update=\"jacobi\"><ang_quad type=\"ls\" order=\"2\"/><rays spacing=\"0.35\"/></sweeper>"
                : "<sweeper type=\"sn\" equation=\"dd\" axial=\"dd\" n_inner=\"1\" boundary_update=\"jacobi\"><ang_quad type=\"ls\" order=\"2\"/></sweeper>";
}
// a sweeper of the same kind, driven by hand
struct Hand {
    UP_Sweeper_t sw;
    std::unique_ptr<Source> src;
    int n, ng;
    Hand(Doc &d, const CoreMesh &mesh)
    {
        // a second sweeper of a kind finds the timers of the first
        const char *t = sx_param("MOC", 0) ? "MoC Sweeper" : "Sn Sweeper";
        RootTimer[t].tic();
        RootTimer[t]["Initialization"].tic();
        sw  = TransportSweeperFactory(d.child("solver"), mesh);
        src = sw->create_source(d.child("solver").child("source"));
        sw->assign_source(src.get());
        sw->initialize();
        n  = sw->n_reg();
        ng = sw->n_group();
    }
    // neutrons produced per volume
    double production(int i)
    {
        for (auto &x : sw->xs_mesh())
            for (int r : x.reg())
                if (r == i) {
                    double p = 0;
                    for (int g = 0; g < ng; g++)
                        p += x.xsmacnf(g) * sw->flux()(i, g);
                    return p;
                }
        return 0;
    }
    bool fissile(int i)
    {
        for (auto &x : sw->xs_mesh())
            for (int r : x.reg())
                if (r == i)
                    return x.xsmacnf(0) > 0 || x.xsmacnf(1) > 0;
        return false;
    }
    double total()
    {
        double t = 0;
        for (int i = 0; i < n; i++)
            t += production(i) * sw->volumes()[i];
        return t;
    }
    // one outer iteration with the given fission source
    void outer(const ArrayB1 *fs)
    {
        sw->store_old_flux();
        for (int g = 0; g < ng; g++) {
            src->initialize_group(g);
            if (fs)
                src->fission(*fs, g);
            src->in_scatter(g);
            sw->sweep(g);
        }
    }
    // an eigenvalue iteration; returns the new eigenvalue
    double iterate(double k)
    {
        ArrayB1 fs(n);
        for (int i = 0; i < n; i++)
            fs(i) = production(i) / k;
        double old = total();
        outer(&fs);
        return k * total() / old;
    }
};
static void step()
{
    int MOC = sx_param("MOC", 0), STEPS = sx_param("STEPS", 1), G = sx_param("G", 0);
    write_xslib();
    Doc doc(geometry());
    CoreMesh mesh(doc);
    Doc in("<solver type=\"eigenvalue\" k_tol=\"1e-5\" psi_tol=\"1e-4\" max_iter=\"10\">" + sweeper(MOC) + "<source scattering=\"P0\"/></solver>");
    EigenSolver e(in.child("solver"), mesh);
    Hand ref(in, mesh);
    e.fss_.initialize();
    e.fss_.set_fission_source(&e.fission_source_);
    auto *sw = e.fss_.sweeper();
    int n = ref.n, ng = ref.ng;
    sx_check((int)sw->n_reg() == n && n == 4, "one region per pin");
    // initial flux free in one group
    for (int i = 0; i < n; i++)
        for (int g = 0; g < ng; g++) {
            double f = g == G && (STEPS == 1 || i == 1) ? sreal(nm("phi", i, g), 0.5, 2.0) : 0.75 + 0.125 * ((3 * i + g) % 5);
            sw->flux()(i, g)     = f;
            ref.sw->flux()(i, g) = f;
        }
    double k   = STEPS == 1 ? sreal("k", 0.5, 1.5) : 0.875;
    e.keff_ = k;
    for (int s = 0; s < STEPS; s++) {
        std::vector<double> p(n);
        for (int i = 0; i < n; i++)
            p[i] = ref.production(i);
        e.step();
        double old = ref.total(), kn = ref.iterate(k), tot = ref.total();
        // products, so that nothing needs to be divided
        sx_near(e.keff_ * old, k * tot, 1e-9, "the eigenvalue grows with the neutrons produced");
        sx_near(e.keff_prev_, k, 1e-12, "the previous eigenvalue is kept");
        for (int i = 0; i < n; i++) {
            for (int g = 0; g < ng; g++) {
                sx_near(sw->flux()(i, g), ref.sw->flux()(i, g), 1e-9, "an iteration sweeps every group with the fission source");
                sx_observe(nm("phi'", i, g).c_str(), sw->flux()(i, g));
            }
            sx_near(e.fission_source_prev_(i) * k, p[i], 1e-9, "the source swept is production over the eigenvalue");
            sx_near(e.fission_source_(i) * kn, ref.production(i), 1e-9, "the new source is production over the new eigenvalue");
        }
        k = kn;
    }
    sx_observe("keff", e.keff_);
    sx_reach("step");
}
static void eigen()
{
    int MOC = sx_param("MOC", 0), CM = sx_param("CMFD", 0);
    write_xslib();
    Doc doc(geometry());
    CoreMesh mesh(doc);
    double kt = sreal("k_tol", 2e-5, 0.5), pt = sreal("psi_tol", 2e-5, 0.5);
    number["k_tol"]   = kt;
    number["psi_tol"] = pt;
    const int mins[] = {-1, 0, 3, 6}, maxs[] = {1, 6, 40};
    int mn = mins[sx_choose("min", 4)], mx = maxs[sx_choose("max", 3)];
    if (mn > mx)
        mn = mx;
    Doc in("<solver type=\"eigenvalue\" k_tol=\"" + conc(kt) + "\" psi_tol=\"" + conc(pt) + "\" max_iter=\"" + std::to_string(mx) + "\"" +
           (mn >= 0 ? " min_iter=\"" + std::to_string(mn) + "\"" : "") + (CM ? " cmfd=\"t\"" : "") + ">" + sweeper(MOC) +
           "<source scattering=\"P0\"/>" + (CM ? "<cmfd max_iter=\"200\" enabled=\"t\"/>" : "") + "</solver>");
    EigenSolver e(in.child("solver"), mesh);
    Hand ref(in, mesh);
    e.solve();
    int it = e.convergence_.size(), need = mn < 0 ? 0 : mn;
    sx_check(it >= 1 && it <= mx, "no more iterations than allowed");
    sx_check(it >= need, "no fewer iterations than asked for");
    double k = 1.0;
    int nf   = 0;
    for (int i = 0; i < ref.n; i++)
        nf += ref.fissile(i);
    sx_check(e.n_fissile_regions_ == nf, "fissile regions are counted");
    for (int s = 0; s < it; s++) {
        const auto &c = e.convergence_[s];
        if (!CM) {
            std::vector<double> a(ref.n), b(ref.n);
            double sa = 0, sb = 0, err = 0;
            for (int i = 0; i < ref.n; i++)
                sa += a[i] = ref.production(i);
            double kn = ref.iterate(k);
            for (int i = 0; i < ref.n; i++)
                sb += b[i] = ref.production(i);
            for (int i = 0; i < ref.n; i++)
                err += (b[i] * nf / sb - a[i] * nf / sa) * (b[i] * nf / sb - a[i] * nf / sa);
            sx_near(c.k, kn, 1e-10, "the eigenvalue reported is that of the iteration");
            sx_near(c.error_psi, std::sqrt(err / nf), 1e-9, "the source error reported is that of the iteration");
        }
        if (!CM)
            sx_near(c.error_k, std::fabs(c.k - k), 1e-9, "the eigenvalue error is its change");
        k = c.k;
        bool done = c.error_k < kt && c.error_psi < pt;
        if (s + 1 < it && s >= need)
            sx_check(!done, "a converged solve stops");
        if (s + 1 == it && it < mx)
            sx_check(done, "a solve stops early only when both errors are below tolerance");
    }
    sx_near(e.keff_, k, 1e-12, "the result is that of the last iteration");
    if (CM) { // the accelerated solution is a solution of the transport problem
        for (int i = 0; i < ref.n; i++)
            for (int g = 0; g < ref.ng; g++)
                ref.sw->flux()(i, g) = e.fss_.sweeper()->flux()(i, g);
        double kk = k;
        for (int s = 0; s < 60; s++)
            kk = ref.iterate(kk);
        if (it < mx && it > 6)
            sx_near(kk, k, 2e-2, "acceleration does not change the solution");
    }
    sx_observe("iterations", it);
    sx_observe("k", k);
    sx_reach("solve");
    if (it < mx)
        sx_reach("converged");
}
static void fixed()
{
    int MOC = sx_param("MOC", 0);
    write_xslib();
    Doc doc(geometry());
    CoreMesh mesh(doc);
    ArrayB2 ext(2, 4);
    for (int i = 0; i < 4; i++)
        for (int g = 0; g < 2; g++)
            ext(g, i) = 0.25 * (g + 1) + 0.0625 * i;
    {
        H5Node file("ext.h5", H5Access::WRITE);
        file.write("/source", ext);
    }
    double tol = sreal("flux_tol", 1e-4, 5.0);
    number["flux_tol"] = tol;
    const int maxs[] = {1, 5, 60};
    int mx = maxs[sx_choose("max", 3)];
    Doc in("<solver type=\"fixed_source\" flux_tol=\"" + conc(tol) + "\" max_iter=\"" + std::to_string(mx) + "\">" + sweeper(MOC) +
           "<source file=\"ext.h5\" scattering=\"P0\"/></solver>");
    FixedSourceSolver f(in.child("solver"), mesh);
    Hand ref(in, mesh);
    ref.src->add_external(in.child("solver").child("source"));
    f.solve();
    // by hand, until converged
    int s = 0;
    for (;; s++) {
        ArrayB2 old(ref.n, ref.ng);
        old = ref.sw->flux();
        ref.outer(nullptr);
        double r = 0;
        for (int i = 0; i < ref.n; i++)
            for (int g = 0; g < ref.ng; g++) {
                double e = ref.sw->flux()(i, g) - old(i, g);
                r += e * e;
            }
        if (s + 1 == mx || std::sqrt(r) < tol)
            break;
    }
    for (int i = 0; i < ref.n; i++)
        for (int g = 0; g < ref.ng; g++)
            sx_near(f.sweeper_->flux()(i, g), ref.sw->flux()(i, g), 1e-9, "the flux is that of source iterations until converged");
    sx_observe("iterations", s);
    sx_observe("flux", f.sweeper_->flux()(1, 0));
    sx_reach("fixed");
}
static void montecarlo()
{
    using namespace mocc::mc;
    // strong absorbers, so that histories are short, and enough fission to go on
    std::ofstream("lib.xsl") << "hot library\n 2 3\n 1.0E+06 0.6\n"
                                "XSMACRO fuel1 0\n 2.0 5.0 1.8 0.9\n 3.0 7.5 2.6 0.1\n 0.1 0.0\n 0.02 0.1\n"
                                "XSMACRO fuel2 0\n 2.5 6.0 2.2 0.8\n 3.5 8.0 3.1 0.2\n 0.1 0.01\n 0.02 0.1\n"
                                "XSMACRO mod 0\n 1.5 4.0 1.3 0.7\n 2.0 5.0 1.9 0.3\n 0.1 0.0005\n 0.045 0.1\n";
    Doc doc(geometry(true));
    CoreMesh mesh(doc);
    // where the first particles start: a small box of free place
    double x = 0.4 + sreal("x", -0.002, 0.002);
    unsigned seed = 1 + 2 * sx_choose("seed", 3);
    const int ins[] = {0, 1}, tot[] = {1, 2};
    int inactive = ins[sx_choose("inactive", 2)], total = tot[sx_choose("total", 2)], n = sx_param("N", 2);
    number["x_min"] = x;
    number["x_max"] = x + 0.001;
    Doc in("<solver type=\"eigenvalue_mc\" cycles=\"" + std::to_string(total) + "\" inactive_cycles=\"" + std::to_string(inactive) +
           "\" particles_per_cycle=\"" + std::to_string(n) + "\" seed=\"" + std::to_string(seed) + "\"><fission_box x_min=\"" + conc(x) +
           "\" x_max=\"" + conc(x + 0.001) + "\" y_min=\"0.4\" y_max=\"0.401\" z_min=\"1.0\" z_max=\"1.001\"/></solver>");
    MonteCarloEigenvalueSolver a(in.child("solver"), mesh), b(in.child("solver"), mesh);
    sx_check((int)a.source_bank_.size() == n, "a cycle starts with the particles asked for");
    a.solve();
    int c = a.k_history_tl_.size(), act = a.k_mean_history_tl_.size();
    sx_check(c == act + inactive, "inactive cycles do not count for the mean");
    sx_check(act >= total - inactive, "no fewer active cycles than asked for");
    sx_check((int)a.h_history_.size() == c && (int)a.k_history_col_.size() == c && (int)a.k_history_analog_.size() == c, "every cycle is recorded");
    const VecF *h[] = {&a.k_history_tl_, &a.k_history_col_, &a.k_history_analog_};
    const VecF *m[] = {&a.k_mean_history_tl_, &a.k_mean_history_col_, &a.k_mean_history_analog_};
    for (int t = 0; t < 3; t++) {
        double sum = 0;
        for (int i = 0; i < act; i++) {
            sum += (*h[t])[inactive + i];
            sx_near((*m[t])[i] * (i + 1), sum, 1e-9, "the mean is that of the active cycles");
        }
    }
    sx_check((int)a.source_bank_.size() == n, "every cycle starts with the particles asked for");
    unsigned id = 0;
    for (auto &p : a.source_bank_)
        sx_check(p.id == id++, "source particles are numbered");
    sx_check(a.pusher_.pin_power_tally_.n_ == act, "one realization per active cycle");
    // cycle by cycle by hand: the same particles again
    b.active_cycle_ = false;
    for (int i = 0; i < c; i++) {
        b.step();
        sx_near(b.k_history_tl_[i], a.k_history_tl_[i], 1e-12, "a run can be repeated");
        sx_near(b.k_history_analog_[i], a.k_history_analog_[i], 1e-12, "a run can be repeated");
    }
    sx_check(b.k_mean_history_tl_.empty(), "inactive cycles do not count for the mean");
    for (int i = 0; i < c; i++)
        sx_observe(nm("k", i).c_str(), a.k_history_tl_[i]);
    sx_reach("cycles");
}
extern "C" void sx_main()
{
    void (*part[])() = {step, eigen, fixed, montecarlo};
    part[sx_param("PART", 0)]();
}

// Monte Carlo transport of a particle: flights, collisions, tallies and the
// fission bank.  PART selects.
#include "common.hpp"
#include "ulp.hpp"
#include <algorithm>
#include <array>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include "core/xs_mesh.hpp"
#include "util/timers.hpp"
#define private public
#include "util/rng_lcg.hpp"
#include "sweepers/mc/particle_pusher.hpp"
#undef private
using namespace mocc;
using namespace mocc::mc;

static void void_lib()
{
    std::ofstream f("lib.xsl");
    f << "test library\n 2 3\n 1.0E+06 0.6\n"
         "XSMACRO fuel1 0\n 1e-9 0.0 0.0 0.0\n 1e-9 0.0 0.0 0.0\n 1e-9 0.0\n 0.0 1e-9\n"
         "XSMACRO fuel2 0\n 1e-9 0.0 0.0 0.0\n 2e-9 0.0 0.0 0.0\n 1e-9 0.0\n 0.0 1e-9\n"
         "XSMACRO mod 0\n 1e-9 0.0 0.0 0.0\n 1e-9 0.0 0.0 0.0\n 1e-9 0.0\n 0.0 1e-9\n";
}
struct Cuboid {
    double lo[3], hi[3];
    int pin;
};
// 2x1x2 pins of 2x1 regions; region order as numbered by the core
static const double P = 1.2, HZ[2] = {1.4, 0.9};
static std::vector<Cuboid> boxes()
{
    std::vector<Cuboid> b;
    double z = 0;
    for (int iz = 0; iz < 2; z += HZ[iz++])
        for (int ix = 0; ix < 2; ix++)
            for (int k = 0; k < 2; k++)
                b.push_back({{ix * P + k * P / 2, 0, z}, {ix * P + (k + 1) * P / 2, P, z + HZ[iz]}, iz * 2 + ix});
    return b;
}
static std::string geometry(const Bcs &b)
{
    return "<mesh id=\"1\" type=\"rect\" pitch=\"1.2\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
           "<pin id=\"1\" mesh=\"1\">1 2</pin><pin id=\"2\" mesh=\"1\">3 1</pin>"
           "<lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 2 </lattice><lattice id=\"2\" nx=\"2\" ny=\"1\"> 2 1 </lattice>"
           "<assembly id=\"1\" np=\"2\"><hz>0.9 1.4</hz><lattices>2 1</lattices></assembly>"
           "<core nx=\"1\" ny=\"1\"" + bc_attr(b) + ">1</core>" + matlib();
}
// -------------------------------------------------- a flight without collisions
static void flight()
{
    void_lib();
    Bcs b;
    const int MIRROR = sx_param("MIRROR", 0);
    bool rx = MIRROR & 1, ry = MIRROR & 2, rz = MIRROR & 4;
    if (rx)
        b.e = "reflect";
    if (ry)
        b.s = "reflect";
    if (rz)
        b.t = "reflect";
    Doc doc(geometry(b));
    CoreMesh mesh(doc);
    XSMesh xs(mesh, MeshTreatment::TRUE);
    ParticlePusher push(mesh, xs);
    // one of the coordinates is symbolic
    const double az[] = {0.31, 1.9, 4.4, 6.1, 1.2, 2.7, 3.5, 5.0}, pol[] = {1.1, 2.0};
    const int AXIS = sx_param("AXIS", 0);
    int ia = sx_choose("azimuth", 8), ip = sx_choose("polar", 2);
    Direction dir(az[ia], pol[ip]);
    double x[3] = {AXIS == 0 ? sreal("x", 0.01, 2.39) : AXIS == 1 ? 0.95 : 1.45, AXIS == 1 ? sreal("y", 0.01, 1.19) : 0.55, AXIS == 2 ? sreal("z", 0.01, 2.29) : 0.7};
    double d[3] = {dir.ox, dir.oy, dir.oz}, L[3] = {2 * P, P, HZ[0] + HZ[1]};
    // not on a face to start with
    sx_assume((x[0] < 0.599 || x[0] > 0.601) && (x[0] < 1.199 || x[0] > 1.201) && (x[0] < 1.799 || x[0] > 1.801));
    sx_assume(x[2] < 1.399 || x[2] > 1.401);
    // clear of the edges where faces meet
    std::vector<double> face[3] = {{0, 0.6, 1.2, 1.8, 2.4}, {0, 1.2}, {0, 1.4, 2.3}};
    bool mir[3] = {rx && d[0] > 0, ry && d[1] < 0, rz && d[2] > 0};
    for (int k = 0; k < 3; k++) {
        double c = k == 1 ? 0 : L[k];
        for (int i = (int)face[k].size() - 1; i >= 0 && mir[k]; i--)
            if (face[k][i] != c)
                face[k].push_back(2 * c - face[k][i]);
    }
    const double margin = 1e-6;
    for (int k = 0; k < 3; k++)
        for (int j = 0; j < k; j++)
            for (double fk : face[k])
                for (double fj : face[j]) {
                    double tk = (fk - x[k]) / d[k], tj = (fj - x[j]) / d[j];
                    if (tk > 0 && tj > 0) {
                        if (tk > tj)
                            sx_assume(tk > tj + margin);
                        else
                            sx_assume(tj > tk + margin);
                    }
                }
    push.set_seed(11);
    Particle p(Point3(x[0], x[1], x[2]), dir, 1, 3);
    p.weight = 0.75;
    push.simulate(p);
    // the core and its mirror images; the straight line through them
    auto bx = boxes();
    std::vector<double> pin(4, 0.0);
    for (int r = 0; r < (int)bx.size(); r++) {
        double want = 0;
        for (int m = 0; m < 8; m++) {
            bool mx = m & 1, my = m & 2, mz = m & 4;
            // images exist behind the reflecting faces the direction points to
            if ((mx && !(rx && d[0] > 0)) || (my && !(ry && d[1] < 0)) || (mz && !(rz && d[2] > 0)))
                continue;
            bool mm[3] = {mx, my, mz};
            double in = 0, out = 1e9;
            for (int k = 0; k < 3; k++) {
                double lo = bx[r].lo[k], hi = bx[r].hi[k];
                if (mm[k]) {
                    double c = k == 1 ? 0 : L[k], t = 2 * c - lo;
                    lo = 2 * c - hi;
                    hi = t;
                }
                double a = ((d[k] > 0 ? lo : hi) - x[k]) / d[k], e = ((d[k] > 0 ? hi : lo) - x[k]) / d[k];
                in  = std::max(in, a);
                out = std::min(out, e);
            }
            want += out > in ? out - in : 0.0;
        }
        sx_near(push.fine_flux_tally_[1].realization_scores_[r], 0.75 * want, 1e-8, "a particle scores its track in each region");
        sx_check(push.fine_flux_tally_[0].realization_scores_[r] == 0.0, "only the particle's group is scored");
        sx_check(push.fine_flux_col_tally_[1].realization_scores_[r] == 0.0, "no collision, no collision score");
        pin[bx[r].pin] += want;
    }
    for (int i = 0; i < 4; i++)
        sx_near(push.scalar_flux_tally_[1].realization_scores_[i], 0.75 * pin[i], 1e-8, "a particle scores its track in each pin");
    sx_check(push.fission_bank().size() == 0, "no collision, no fission");
    sx_near(push.scalar_flux_tally_[1].weight_, 0.75, 1e-12, "the particle's weight is counted once");
    for (int i = 0; i < 8; i++)
        sx_observe(nm("track", i).c_str(), push.fine_flux_tally_[1].realization_scores_[i]);
    sx_reach("flown");
}
// ------------------------------------------------------------------- a collision
namespace mocc {
namespace mc {
extern RNG_LCG RNG;
#pragma omp threadprivate(RNG)
}
}
static void collision()
{
    write_xslib();
    Doc doc(geometry(Bcs()));
    CoreMesh mesh(doc);
    XSMesh xs(mesh, MeshTreatment::TRUE);
    ParticlePusher push(mesh, xs);
    int reg = sx_choose("region", 4), g = sx_choose("group", 2);
    unsigned seed = 1 + 1234567 * sx_choose("seed", 12);
    double w      = sreal("w", 0.5, 2.0), x = sreal("x", 0.0, 1.0);
    Particle p(Point3(x, 0.5, 0.5), Direction(0.3, 1.1), g, 7);
    p.ireg   = reg;
    p.ixsreg = push.xsmesh_regions_[reg];
    p.weight = w;
    bool found = false;
    for (int r : xs[p.ixsreg].reg())
        found = found || r == reg;
    sx_check(found, "a region's cross sections are its own");
    const auto &xr = xs[p.ixsreg];
    // region order: materials 1 2 | 3 1
    const double tr[3][2] = {{0.282, 0.52}, {0.346, 0.583}, {0.3957, 1.1305}};
    (void)tr;
    RNG.set_seed(seed);
    RNG_LCG ref(seed);
    double cdf = ref.random();
    push.collide(p);
    double nf = xr.xsmacnf(g), t = xr.xsmactr(g), ns = 0;
    sx_near(push.k_tally_col_.sum_, w * nf / t, 1e-9, "a collision scores the neutrons expected from it");
    sx_near(push.fine_flux_col_tally_[g].realization_scores_[reg], w / t, 1e-9, "a collision scores its track length");
    for (int to = 0; to < 2; to++)
        ns += scat(xr, to, g);
    double s = p.direction.ox * p.direction.ox + p.direction.oy * p.direction.oy + p.direction.oz * p.direction.oz;
    int n = push.fission_bank().size();
    // scattering, fission and capture in proportion of their cross sections:
    // the random number falls into one of the three shares
    double sh[3] = {ns / t, xr.xsmacf(g) / t, 1 - ns / t - xr.xsmacf(g) / t};
    sx_near(p.location_global.x, x, 1e-12, "a collision happens where it happens");
    sx_check(p.weight == w, "a collision keeps the weight");
    if (p.alive) {
        sx_check(n == 0, "a scattered particle makes no fission site");
        sx_near(s, 1.0, 1e-9, "a scattered particle has a direction");
        sx_check(p.group >= 0 && p.group < 2 && scat(xr, p.group, g) > 0, "a particle scatters into a group it can reach");
        sx_check(cdf < sh[0] + 1e-9 || cdf > 1 - sh[0] - 1e-9 || (cdf > sh[1] - 1e-9 && cdf < 1 - sh[2] + 1e-9) ||
                     (cdf > sh[2] - 1e-9 && cdf < 1 - sh[1] + 1e-9),
                 "scattering has its share of the collisions");
        sx_reach("scattered");
    } else if (n > 0) {
        double nu = nf / xr.xsmacf(g);
        sx_check(xr.xsmacf(g) > 0, "fission needs a fission cross section");
        sx_check(n <= w * nu + 1 && n > w * nu - 1, "a fission makes the neutrons expected of it, rounded up or down");
        for (int i = 0; i < n; i++) {
            const Particle &q = push.fission_bank()[i];
            sx_near(q.location_global.x, x, 1e-12, "fission sites lie where the fission happened");
            sx_check(q.location_global.y == 0.5 && q.location_global.z == 0.5, "fission sites lie where the fission happened");
            sx_check(q.group >= 0 && q.group < 2 && xr.xsmacch(q.group) > 0, "fission neutrons are born into the spectrum");
            sx_check(q.weight == 1.0 && q.id == 7 && q.alive && q.coincident == -1, "fission neutrons have unit weight");
        }
        sx_near(push.fission_bank().total_fission(), n, 1e-12, "the bank counts the neutrons");
        sx_reach("fissioned");
    } else
        sx_reach("captured");
    sx_observe("alive", p.alive);
    sx_observe("sites", n);
    sx_observe("k", push.k_tally_col_.sum_);
}
// --------------------------------------------------------------- whole histories
static void history()
{
    write_xslib();
    Bcs b;
    b.w = b.b = "reflect";
    Doc doc(geometry(b));
    CoreMesh mesh(doc);
    XSMesh xs(mesh, MeshTreatment::TRUE);
    ParticlePusher push(mesh, xs), other(mesh, xs), alone(mesh, xs);
    unsigned seed = 1 + 2 * sx_choose("seed", sx_param("SEEDS", 8));
    // starts too close together for the tracks to meet an edge in between
    double x0[] = {0.13, 0.45, 0.87, 1.31, 1.55, 2.12};
    double x    = x0[sx_choose("start", 6)] + sreal("x", -0.002, 0.002);
    Particle p(Point3(x, 0.5, 0.8), Direction(1.9, 1.3), 0, 0), q(Point3(1.5, 0.9, 1.1), Direction(0.4, 1.9), 1, 1);
    FissionBank fw(mesh), bw(mesh);
    fw.clear();
    bw.clear();
    fw.push_back(p);
    fw.push_back(q);
    bw.push_back(q);
    bw.push_back(p);
    push.set_seed(seed);
    other.set_seed(seed);
    alone.set_seed(seed);
    // by hand, for the scores before they are committed
    alone.simulate(p);
    auto bx = boxes();
    double k = 0, kc = 0;
    std::vector<double> pw(4, 0.0);
    for (int g = 0; g < 2; g++) {
        std::vector<double> pin(4, 0.0);
        for (int r = 0; r < 8; r++) {
            const auto &xr = xs[alone.xsmesh_regions_[r]];
            double f       = alone.fine_flux_tally_[g].realization_scores_[r];
            sx_check(f >= 0, "track lengths are not negative");
            pin[bx[r].pin] += f;
            pw[bx[r].pin] += f * xr.xsmacf(g);
            k += f * xr.xsmacnf(g);
            kc += alone.fine_flux_col_tally_[g].realization_scores_[r] * xr.xsmacnf(g);
        }
        for (int i = 0; i < 4; i++)
            sx_near(alone.scalar_flux_tally_[g].realization_scores_[i], pin[i], 1e-9, "a pin's score is that of its regions");
    }
    for (int i = 0; i < 4; i++)
        sx_near(alone.pin_power_tally_.realization_scores_[i], pw[i], 1e-9, "a pin's power is the fission rate in its regions");
    sx_near(alone.k_tally_tl_.sum_, k, 1e-9, "the track-length estimate is the fission production along the tracks");
    sx_near(alone.k_tally_col_.sum_, kc, 1e-9, "the collision estimate is the fission production of the collisions");
    for (auto &s : alone.fission_bank()) {
        auto &l = s.location_global;
        sx_check(l.x > 0 && l.x < 2 * P && l.y > 0 && l.y < P && l.z > 0 && l.z < HZ[0] + HZ[1], "fission sites lie in the core");
    }
    // the order of the source particles does not matter, only their identity
    push.simulate(fw, 1.0);
    other.simulate(bw, 1.0);
    int n = push.fission_bank().size();
    sx_check(n == other.fission_bank().size(), "the same fission sites in any order");
    std::stable_sort(push.fission_bank().begin(), push.fission_bank().end());
    std::stable_sort(other.fission_bank().begin(), other.fission_bank().end());
    for (int i = 0; i < n && i < other.fission_bank().size(); i++) {
        auto &s = push.fission_bank()[i], &t = other.fission_bank()[i];
        sx_near(s.location_global.x, t.location_global.x, 1e-12, "the same fission sites in any order");
        sx_near(s.direction.oz, t.direction.oz, 1e-12, "the same fission sites in any order");
        sx_check(s.group == t.group && s.id == t.id, "the same fission sites in any order");
    }
    for (int i = 0; i < alone.fission_bank().size() && i < n; i++) {
        sx_near(push.fission_bank()[i].location_global.x, alone.fission_bank()[i].location_global.x, 1e-12, "a particle's fate is its own");
    }
    sx_near(push.k_tally_tl_.sum_, other.k_tally_tl_.sum_, 1e-9, "the same estimates in any order");
    sx_near(push.k_tally_col_.sum_, other.k_tally_col_.sum_, 1e-9, "the same estimates in any order");
    sx_near(push.k_tally_analog().get().first * 2, n, 1e-12, "the analog estimate is the sites per source particle");
    for (int g = 0; g < 2; g++)
        for (int r = 0; r < 8; r++)
            sx_near(push.fine_flux_tally_[g].data_[r].first, other.fine_flux_tally_[g].data_[r].first, 1e-9, "the same flux in any order");
    sx_check(push.fine_flux_tally_[0].n_ == 1 && push.pin_power_tally_.n_ == 1, "a cycle is one realization");
    sx_observe("k", k);
    sx_observe("sites", n);
    sx_reach("histories");
}
// ------------------------------------------------- one random stream per particle
static void streams()
{
    write_xslib();
    Bcs b;
    b.w = b.b = "reflect";
    Doc doc(geometry(b));
    CoreMesh mesh(doc);
    XSMesh xs(mesh, MeshTreatment::TRUE);
    ParticlePusher push(mesh, xs), ref(mesh, xs);
    const unsigned ids[] = {1, 5, 429497, 4000000, 1u << 31};
    unsigned id = ids[sx_choose("id", 5)], seed = 1 + 2 * sx_choose("seed", 3), cycle = sx_choose("cycle", 3);
    double x = 0.45 + sreal("x", -0.002, 0.002), y = 0.5;
    push.set_seed(seed);
    FissionBank bk(mesh);
    bk.clear();
    Particle q(Point3(1.5, 0.9, 1.1), Direction(0.4, 1.9), 1, 0);
    bk.push_back(q);
    q.id = 1;
    bk.push_back(q);
    for (unsigned c = 0; c < cycle; c++)
        push.simulate(bk, 1.0);
    push.fission_bank().clear();
    push.reset_tallies(true);
    Particle p(Point3(x, y, 0.8), Direction(1.9, 1.3), 0, id);
    push.simulate(p);
    // the stream of the id-th particle after those of the cycles before
    RNG_LCG r(seed);
    r.jump_ahead(((uint64_t)id + 2 * cycle) * 10000);
    ref.set_seed(r.current_seed_);
    p.id = 0;
    ref.simulate(p);
    for (int g = 0; g < 2; g++)
        for (int i = 0; i < 8; i++)
            sx_near(push.fine_flux_tally_[g].realization_scores_[i], ref.fine_flux_tally_[g].realization_scores_[i], 1e-9,
                    "particles have streams of their own");
    sx_check(push.fission_bank().size() == ref.fission_bank().size(), "particles have streams of their own");
    sx_observe("k", push.k_tally_tl_.sum_);
    sx_reach("streams");
}
// a track through the edge where an internal surface meets the boundary
static void edge()
{
    void_lib();
    Doc doc(geometry(Bcs()));
    CoreMesh mesh(doc);
    XSMesh xs(mesh, MeshTreatment::TRUE);
    ParticlePusher push(mesh, xs);
    Direction dir(2.7, 2.0);
    double s = sreal("s", 0.2, 0.25), sum = 0;
    Particle p(Point3(0.6 - s * dir.ox, 1.2 - s * dir.oy, 0.7), dir, 1, 3);
    push.simulate(p);
    for (int r = 0; r < 8; r++)
        sum += push.fine_flux_tally_[1].realization_scores_[r];
    sx_near(sum, s, 1e-8, "a track through an edge ends at the boundary");
    sx_reach("edge");
}
// ------------------------- back across the surface the particle came through
static void returns()
{
    std::ofstream("lib.xsl") << "test library\n 2 3\n 1.0E+06 0.6\n"
        "XSMACRO fuel1 0\n 0.6 1.5 0.5 1.0\n 0.6 1.5 0.5 0.0\n 0.7 0.0\n 0.7 1.4\n"
        "XSMACRO fuel2 0\n 0.6 1.5 0.5 1.0\n 0.6 1.5 0.5 0.0\n 0.7 0.0\n 0.7 1.4\n"
        "XSMACRO mod 0\n 0.01 0.0 0.0 0.0\n 0.01 0.0 0.0 0.0\n 0.02 0.0\n 0.03 0.05\n";
    bool round = sx_param("ROUND", 0);
    Doc doc(std::string(round ? "<mesh id=\"1\" type=\"cyl\" pitch=\"1.2\"><radii>0.4</radii><sub_radii>1</sub_radii><sub_azi>4</sub_azi></mesh>"
                                "<pin id=\"1\" mesh=\"1\">1 3</pin>"
                              : "<mesh id=\"1\" type=\"rect\" pitch=\"1.2\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
                                "<pin id=\"1\" mesh=\"1\">3 1</pin>") +
            "<lattice id=\"1\" nx=\"1\" ny=\"1\"> 1 </lattice><assembly id=\"1\" np=\"1\"><hz>2.0</hz><lattices>1</lattices></assembly>"
            "<core nx=\"1\" ny=\"1\"" + bc_attr(Bcs()) + ">1</core>" + matlib());
    CoreMesh mesh(doc);
    XSMesh xs(mesh, MeshTreatment::TRUE);
    ParticlePusher push(mesh, xs);
    push.set_seed(1 + 2 * sx_choose("seed", round ? 150 : 24));
    // the roots of a symbolic track through a ring do not end; the weight varies instead
    double x = round ? 0.15 : 0.15 + sreal("x", -0.002, 0.002), tot = 0, fis = 0;
    Particle p(Point3(x, 0.55, 0.9), Direction(0.1, 1.5), 0, 0);
    p.weight = sreal("w", 0.4, 1.3);
    push.simulate(p);
    for (int i = 0; i < push.fission_bank().size(); i++) {
        auto &l  = push.fission_bank()[i].location_global;
        double u = l.x - 0.6, v = l.y - 0.6;
        sx_check(round ? u * u + v * v < 0.16 + 1e-6 : u > -1e-6, "fission happens where there is fuel");
        fis++;
    }
    for (int g = 0; g < 2; g++)
        for (int r = 0; r < (int)mesh.n_reg(MeshTreatment::TRUE); r++)
            tot += push.fine_flux_tally_[g].realization_scores_[r];
    sx_observe("track", tot);
    sx_reach(fis > 0 ? "fission" : "no fission");
}
extern "C" void sx_main()
{
    void (*part[])() = {flight, collision, history, edge, streams, returns};
    part[sx_param("PART", 0)]();
}

// Directions and angular quadratures.
#include "common.hpp"
#include "symtext.hpp"
#include "ulp.hpp"
#include "core/angular_quadrature.hpp"
#include "core/geometry/angle.hpp"
using namespace mocc;

static const int SG[9][3] = {{0, 0, 0},   {1, 1, 1},  {-1, 1, 1},  {-1, -1, 1}, {1, -1, 1},
                             {1, 1, -1}, {-1, 1, -1}, {-1, -1, -1}, {1, -1, -1}};
// the stored angles describe the stored cosines
static void consistent(const Direction &d, const char *what)
{
    double st2 = d.ox * d.ox + d.oy * d.oy;
    sx_near(st2 + d.oz * d.oz, 1.0, 1e-9, what);
    sx_near(std::cos(d.theta), d.oz, 1e-9, "polar angle");
    sx_near(d.rsintheta * d.rsintheta * st2, 1.0, 1e-6, "reciprocal sine of the polar angle");
    sx_check(d.rsintheta > 0, "reciprocal sine is positive");
    double ca = std::cos(d.alpha), sa = std::sin(d.alpha);
    sx_near(ca * std::sin(d.theta), d.ox, 1e-6, "azimuth and x component");
    sx_near(sa * sa * st2, d.oy * d.oy, 1e-6, "azimuth and y component");
    sx_check(d.oy > 0 ? sa >= -1e-9 : sa <= 1e-9, "azimuth lies on the side of the y component");
    sx_check(d.alpha >= 0 && d.alpha <= 2 * 3.1415926535897936, "azimuth within one turn");
}
static Direction cosines()
{
    double x = sreal("ox", -0.99, 0.99), y = sreal("oy", -0.99, 0.99), z = sreal("oz", -0.99, 0.99);
    sx_assume(x * x + y * y + z * z == 1.0);
    sx_assume(x > 0.05 || x < -0.05);
    sx_assume(y > 0.05 || y < -0.05);
    sx_assume(z > 0.05 || z < -0.05);
    return Direction(x, y, z);
}
static double ab(double x)
{
    return x < 0 ? -x : x;
}
static void octants()
{
    Direction d = cosines();
    if (sx_param("FULL", 0)) {
        consistent(d, "unit length");
        sx_reach("octants");
        return;
    }
    double a[3] = {ab(d.ox), ab(d.oy), ab(d.oz)};
    for (int o = 1; o <= 8; o++) {
        Direction e = d.to_octant(o);
        sx_near(e.ox, SG[o][0] * a[0], 1e-12, "x component in octant");
        sx_near(e.oy, SG[o][1] * a[1], 1e-12, "y component in octant");
        sx_near(e.oz, SG[o][2] * a[2], 1e-12, "z component in octant");
        // a weighted angle keeps its weight
        Angle w(d, 0.37);
        Angle v = w.to_octant(o);
        sx_near(v.weight, 0.37, 0, "weight in octant");
        sx_near(v.ox, SG[o][0] * a[0], 1e-12, "x component in octant");
    }
    sx_reach("octants");
}
static void reflection()
{
    Direction d       = cosines();
    const Surface S[] = {Surface::EAST, Surface::NORTH, Surface::WEST, Surface::SOUTH, Surface::TOP, Surface::BOTTOM};
    int k             = sx_choose("face", 6);
    Direction r       = d;
    r.reflect(S[k]);
    int ax = k < 4 ? k % 2 : 2;
    sx_near(r.ox, ax == 0 ? -d.ox : d.ox, 1e-12, "reflected x component");
    sx_near(r.oy, ax == 1 ? -d.oy : d.oy, 1e-12, "reflected y component");
    sx_near(r.oz, ax == 2 ? -d.oz : d.oz, 1e-12, "reflected z component");
    r.reflect(S[k]);
    sx_near(r.ox, d.ox, 1e-12, "reflecting twice");
    sx_near(r.oy, d.oy, 1e-12, "reflecting twice");
    sx_near(r.oz, d.oz, 1e-12, "reflecting twice");
    const Surface up[3]   = {d.ox > 0 ? Surface::WEST : Surface::EAST, d.oy > 0 ? Surface::SOUTH : Surface::NORTH,
                           d.oz > 0 ? Surface::BOTTOM : Surface::TOP};
    const Normal norms[3] = {Normal::X_NORM, Normal::Y_NORM, Normal::Z_NORM};
    for (int i = 0; i < 3; i++)
        sx_check(d.upwind_surface(norms[i]) == up[i], "a direction enters through its upwind face");
    sx_reach("reflection");
}
static void byangle()
{
    double al = sreal("alpha", 0.0, 6.28), th = sreal("theta", 0.05, 3.09);
    Direction d(al, th);
    sx_near(d.alpha, al, 0, "azimuth is kept");
    sx_near(d.theta, th, 0, "polar angle is kept");
    double st = std::sin(th), ct = std::cos(th), sa = std::sin(al), ca = std::cos(al);
    sx_near(d.ox, st * ca, 1e-9, "x component");
    sx_near(d.oy, st * sa, 1e-9, "y component");
    sx_near(d.oz, ct, 1e-9, "z component");
    sx_assume(st > 0.01);
    sx_near(d.rsintheta * st, 1.0, 1e-9, "reciprocal sine of the polar angle");
    double nb = sreal("beta", 0.0, 6.28);
    d.modify_alpha(nb);
    sx_near(d.theta, th, 0, "changing the azimuth keeps the polar angle");
    sx_near(d.alpha, nb, 0, "new azimuth");
    sx_near(d.ox, st * std::cos(nb), 1e-9, "x component for the new azimuth");
    sx_near(d.oy, st * std::sin(nb), 1e-9, "y component for the new azimuth");
    sx_near(d.oz, ct, 1e-9, "z component for the new azimuth");
    sx_reach("byangle");
}
static void isotropic()
{
    double r1 = sreal("r1", 0.0, 0.999999), r2 = sreal("r2", 1e-6, 0.999999);
    Direction d = Direction::Isotropic(r1, r2);
    const double twopi = 6.28318530717958647692;
    sx_near(d.oz, 2 * r2 - 1, 1e-9, "polar cosine is uniform");
    double st2 = 1 - d.oz * d.oz;
    sx_near(d.ox * d.ox + d.oy * d.oy, st2, 1e-6, "unit length");
    double c = std::cos(twopi * r1), s = std::sin(twopi * r1);
    sx_near(d.ox * d.ox, st2 * c * c, 1e-6, "azimuth is uniform");
    sx_near(d.oy * d.oy, st2 * s * s, 1e-6, "azimuth is uniform");
    sx_check(d.ox * c >= -1e-6 && d.oy * s >= -1e-6, "azimuth in the right quadrant");
    sx_reach("isotropic");
}
static AngularQuadrature make(int t, int n)
{
    std::string s;
    if (t == 0)
        s = "<ang_quad type=\"ls\" order=\"" + std::to_string(n) + "\"/>";
    else if (t == 1)
        s = "<ang_quad type=\"cg\" n_azimuthal=\"" + std::to_string(1 + n % 3) + "\" n_polar=\"" +
            std::to_string(1 + n / 3) + "\"/>";
    else
        s = "<ang_quad type=\"cy\" n_azimuthal=\"" + std::to_string(n) + "\" n_polar=\"3\"/>";
    Doc d(s);
    return AngularQuadrature(d.child("ang_quad"));
}
static void angledata(const AngularQuadrature &q)
{
    int n = q.ndir_oct();
    sx_check(q.ndir() == 8 * n, "eight octants");
    if (q.ndir() != 8 * n)
        return;
    double w = 0, m2[3] = {0, 0, 0};
    for (int i = 0; i < 8 * n; i++) {
        const Angle &a = q[i];
        int o          = i / n + 1;
        const Angle &b = q[i % n];
        sx_near(a.ox, SG[o][0] * b.ox, 1e-9, "x component by octant");
        sx_near(a.oy, SG[o][1] * b.oy, 1e-9, "y component by octant");
        sx_near(a.oz, SG[o][2] * b.oz, 1e-9, "z component by octant");
        sx_near(a.weight, b.weight, 1e-12, "weight by octant");
        const Normal norms[3] = {Normal::X_NORM, Normal::Y_NORM, Normal::Z_NORM};
        const Surface surf[6] = {Surface::EAST, Surface::NORTH, Surface::TOP,
                                 Surface::WEST, Surface::SOUTH, Surface::BOTTOM};
        for (int k = 0; k < 3; k++)
            for (int v = 0; v < 3; v++) {
                int j = v == 0 ? q.reflect(i, norms[k]) : q.reflect(i, surf[k + 3 * (v - 1)]);
                sx_check(j >= 0 && j < 8 * n, "reflected direction exists");
                if (j < 0 || j >= 8 * n)
                    return;
                sx_near(q[j].ox, k == 0 ? -a.ox : a.ox, 1e-9, "reflected x component");
                sx_near(q[j].oy, k == 1 ? -a.oy : a.oy, 1e-9, "reflected y component");
                sx_near(q[j].oz, k == 2 ? -a.oz : a.oz, 1e-9, "reflected z component");
            }
        if (i < 4 * n) {
            int j = q.reverse(i);
            sx_near(q[j].ox, -a.ox, 1e-9, "reverse in the plane");
            sx_near(q[j].oy, -a.oy, 1e-9, "reverse in the plane");
            sx_near(q[j].oz, a.oz, 1e-9, "reverse in the plane");
        }
        int j = q.reverse(i, 3);
        sx_near(q[j].ox, -a.ox, 1e-9, "reverse in space");
        sx_near(q[j].oy, -a.oy, 1e-9, "reverse in space");
        sx_near(q[j].oz, -a.oz, 1e-9, "reverse in space");
        if (i < n) {
            w += a.weight;
            m2[0] += a.weight * a.ox * a.ox;
            m2[1] += a.weight * a.oy * a.oy;
            m2[2] += a.weight * a.oz * a.oz;
        }
    }
    sx_near(w, 1.0, 1e-9, "weights of an octant add up to one");
    sx_near(m2[0], m2[1], 1e-7, "x and y are treated alike");
}
static void quads()
{
    int t = sx_param("TYPE", 0);
    int n = t == 0 ? 2 * (1 + sx_choose("order", 8)) : t == 1 ? sx_choose("n", 12) : 1 + sx_choose("n", 6);
    AngularQuadrature q = make(t, n);
    angledata(q);
    int m = q.ndir_oct();
    for (int i = 0; i < m; i++) {
        const Angle &a = q[i];
        sx_near(a.ox * a.ox + a.oy * a.oy + a.oz * a.oz, 1.0, 2e-5, "unit length");
        sx_check(a.ox > 0 && a.oy > 0 && a.oz > 0 && a.weight > 0, "first octant and positive weights");
        for (int j = 0; j < i; j++)
            sx_check(ab(q[j].ox - a.ox) + ab(q[j].oy - a.oy) + ab(q[j].oz - a.oz) > 1e-6, "directions are distinct");
    }
    if (t == 0) {
        double mo = 0, mz = 0;
        sx_check(m == n * (n + 2) / 8, "number of directions");
        for (int i = 0; i < m; i++) {
            const Angle &a = q[i];
            mo += a.weight * a.ox * a.ox;
            mz += a.weight * a.oz * a.oz;
            // directions that differ by a permutation of the axes weigh the same
            double p[3] = {a.ox, a.oy, a.oz};
            const int perm[5][3] = {{1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}};
            for (auto &pm : perm) {
                int found = 0;
                for (int j = 0; j < m; j++)
                    if (ab(q[j].ox - p[pm[0]]) + ab(q[j].oy - p[pm[1]]) + ab(q[j].oz - p[pm[2]]) < 1e-5) {
                        found++;
                        sx_near(q[j].weight, a.weight, 1e-7, "weights are the same for permuted axes");
                    }
                sx_check(found == 1, "every permutation of the axes is in the set");
            }
        }
        sx_near(mo, 1.0 / 3, 1e-4, "second moment");
        sx_near(mz, 1.0 / 3, 1e-4, "second moment");
    }
    if (t == 1) { // product of even azimuths and Gauss-Legendre polar angles
        int np = 1 + n / 3, na = 1 + n % 3;
        sx_check(m == np * na, "number of directions");
        for (int k = 0; k < 2 * np; k++) {
            double s = 0;
            for (int i = 0; i < m; i++)
                s += q[i].weight * std::pow(q[i].oz, 2 * k);
            sx_near(s, 1.0 / (2 * k + 1), 1e-9, "even polar moments are integrated exactly");
        }
    }
    // assignment, also to a quadrature that has not been set up yet
    AngularQuadrature c;
    c = q;
    sx_check(c.ndir() == q.ndir() && c.ndir_oct() == m, "assignment");
    for (int i = 0; i < 8 * m; i++) {
        sx_near(c[i].ox, q[i].ox, 0, "assignment");
        sx_near(c[i].weight, q[i].weight, 0, "assignment");
    }
    sx_check(c == q, "copies compare equal");
    sx_reach("quads");
}
// modified azimuths, as modularization does it
static void modified()
{
    int na = sx_param("NA", 2), np = 2;
    Doc d("<ang_quad type=\"cg\" n_azimuthal=\"" + std::to_string(na) + "\" n_polar=\"2\"/>");
    AngularQuadrature q(d.child("ang_quad"));
    AngularQuadrature o = q;
    const double hpi    = 1.57079632679489661923;
    std::vector<double> al(na);
    for (int i = 0; i < na; i++)
        al[i] = sreal(nm("alpha", i), hpi / na * (i + 0.3), hpi / na * (i + 0.7));
    for (int i = 0; i < na; i++)
        for (int j = 0; j < np; j++) {
            Angle a = q[i * np + j];
            a.modify_alpha(al[i]);
            q.modify_angle(i * np + j, a);
        }
    for (int i = 0; i < q.ndir(); i++) {
        int oc = i / (na * np) + 1, k = i % (na * np);
        double st = std::sin(o[k].theta);
        sx_near(q[i].ox, SG[oc][0] * st * std::cos(al[k / np]), 1e-9, "modified x component");
        sx_near(q[i].oy, SG[oc][1] * st * std::sin(al[k / np]), 1e-9, "modified y component");
        sx_near(q[i].oz, SG[oc][2] * o[k].oz, 1e-9, "polar cosine stays");
        sx_near(q[i].weight, o[k].weight, 1e-9, "weight stays until updated");
    }
    q.update_weights();
    double w = 0;
    for (int k = 0; k < na * np; k++) {
        int i     = k / np;
        double lo = i == 0 ? 0.0 : (al[i - 1] + al[i]) / 2, hi = i == na - 1 ? hpi : (al[i] + al[i + 1]) / 2;
        double wp = 0;
        for (int a = 0; a < na; a++)
            wp += o[a * np + k % np].weight;
        sx_near(q[k].weight, wp * (hi - lo) / hpi, 1e-9, "weight is the wedge the azimuth covers");
        sx_near(q[k].alpha, al[i], 1e-9, "azimuth survives the weight update");
        sx_near(q[k].oz, o[k].oz, 1e-9, "polar cosine survives the weight update");
        w += q[k].weight;
    }
    sx_near(w, 1.0, 1e-9, "weights of an octant add up to one");
    for (int i = 0; i < q.ndir(); i++) {
        int k = i % (na * np);
        sx_near(q[i].weight, q[k].weight, 1e-12, "weight by octant");
    }
    sx_reach("modified");
}
// directions listed in the input
static void user()
{
    double w = sym["@w"] = sreal("w", 0.05, 0.95), x = 0, y = 0, z = 0;
    int off = sx_choose("off", 3), form = sx_choose("form", 2);
    sym["@v"] = off == 0 ? 1 - w : off == 1 ? 1.001 - w : 0.999 - w;
    std::string s = "<ang_quad type=\"user\"><angle weight=\"@w\" ";
    // a direction given with a negative polar angle may be refused or taken
    bool good = off == 0, must = true;
    if (form == 0) {
        // any direction at this height, in any octant
        int o    = off ? 1 : 1 + sx_choose("octant", 8);
        double t = sreal("t", 0.05, 0.95), len = off == 0 && o < 3 && sx_choose("long", 2) ? 1.01 : 1.0;
        z = sym["@z"] = SG[o][2] * 0.6 * len;
        x = sym["@x"] = SG[o][0] * 0.8 * (1 - t * t) / (1 + t * t);
        y = sym["@y"] = SG[o][1] * 1.6 * t / (1 + t * t);
        s += "ox=\"@x\" oy=\"@y\" oz=\"@z\"/>";
        good = good && o == 1 && len == 1.0;
    } else {
        // the cosines of a symbolic angle are the subject of byangle()
        static const double A[] = {0.5, 2.0, 3.6, 5.0};
        double al = sym["@a"] = A[sx_choose("azimuth", 4)], th = sym["@t"] = sx_choose("down", 2) ? -0.7 : 0.7;
        x = std::sin(th) * std::cos(al), y = std::sin(th) * std::sin(al), z = std::cos(th);
        s += "alpha=\"@a\" theta=\"@t\"/>";
        good = good && x > 0 && y > 0;
        must = th > 0;
    }
    s += "<angle weight=\"@v\" ox=\"0.48\" oy=\"0.64\" oz=\"0.6\"/></ang_quad>";
    Doc d(text(s));
    bool made = false;
    try {
        AngularQuadrature q(d.child("ang_quad"));
        made = true;
        sx_check(good, "directions outside the first octant, of the wrong length or weights that do not add up are refused");
        sx_check(q.ndir() == 16 && q.ndir_oct() == 2, "two directions in each octant");
        for (int o = 1; o <= 8; o++) {
            const Angle &a = q[2 * (o - 1)], &b = q[2 * o - 1];
            sx_near(a.ox, SG[o][0] * x, 1e-9, "directions are those listed and their mirror images");
            sx_near(a.oy, SG[o][1] * y, 1e-9, "directions are those listed and their mirror images");
            sx_near(a.oz, SG[o][2] * z, 1e-9, "directions are those listed and their mirror images");
            sx_near(a.weight, w, 1e-9, "weights are those listed");
            sx_near(b.weight, 1 - w, 1e-9, "weights are those listed");
            sx_near(b.oy, SG[o][1] * 0.64, 1e-9, "directions are those listed and their mirror images");
            sx_check(a.rsintheta > 0, "reciprocal sine is positive");
            sx_check(form == 0 || a.theta > 0 && a.alpha >= 0 && a.alpha <= TWOPI, "angles are in their ranges");
        }
        sx_check(form == 0 || q[0].alpha > 0 && q[0].alpha < HPI && q[0].theta < HPI, "angles agree with the octant");
        sx_observe("weight", q[0].weight);
        sx_reach("accepted");
    } catch (Exception &e) {
    }
    if (!made) {
        sx_check(!(good && must), "a proper list of directions is accepted");
        sx_reach("refused");
    }
}
extern "C" void sx_main()
{
    switch (sx_param("PART", 0)) {
    case 0: octants(); break;
    case 1: reflection(); break;
    case 2: byangle(); break;
    case 3: isotropic(); break;
    case 4: quads(); break;
    case 5: modified(); break;
    case 6: user(); break;
    }
}

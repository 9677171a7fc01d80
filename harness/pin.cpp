// Pin meshes: region lookup, volumes, ray segments and distances.
#include "common.hpp"
#include "ulp.hpp"
#include "core/pin_mesh.hpp"
#include "core/pin_mesh_base.hpp"
#include "core/geometry/geom.hpp"
using namespace mocc;

static const double PITCH = 1.25, E = 1e-7;
static int CYL, AZI, NX = 3, NY = 2;
static std::vector<double> R2; // squares of the ring radii
static const double CS[][2] = {{1, 0},  {0.70710678118654752, 0.70710678118654752},   {0, 1},
                               {-0.70710678118654752, 0.70710678118654752},  {-1, 0},
                               {-0.70710678118654752, -0.70710678118654752}, {0, -1},
                               {0.70710678118654752, -0.70710678118654752}};
static const double DIRS[][2] = {{0.6, 0.8}, {-0.28, 0.96}, {-0.8, 0.6}, {0.96, 0.28}, {0.8, -0.6}, {-0.6, -0.8}, {0.28, -0.96}};

static UP_PinMesh_t make()
{
    CYL = sx_param("CYL", 1), AZI = sx_param("AZI", 4);
    std::string s;
    if (CYL) {
        s  = "<mesh id=\"3\" type=\"cyl\" pitch=\"1.25\"><radii>0.375 0.5</radii><sub_radii>2 1</sub_radii><sub_azi>" +
            std::to_string(AZI) + "</sub_azi></mesh>";
        R2 = {0.375 * 0.375 / 2, 0.375 * 0.375, 0.25};
        if (sx_param("RINGS", 3) == 1) {
            s  = "<mesh id=\"3\" type=\"cyl\" pitch=\"1.25\"><radii>0.5</radii><sub_radii>1</sub_radii><sub_azi>" +
                std::to_string(AZI) + "</sub_azi></mesh>";
            R2 = {0.25};
        }
        if (sx_param("RINGS", 3) == 6) {
            s  = "<mesh id=\"3\" type=\"cyl\" pitch=\"1.25\"><radii>0.25 0.375 0.5</radii><sub_radii>2 1 3</sub_radii><sub_azi>" +
                std::to_string(AZI) + "</sub_azi></mesh>";
            double a = 0.140625, b = 0.25 - a;
            R2 = {0.03125, 0.0625, a, a + b / 3, a + 2 * b / 3, 0.25};
        }
    } else
        s = "<mesh id=\"3\" type=\"rect\" pitch=\"1.25\"><sub_x>3</sub_x><sub_y>2</sub_y></mesh>";
    static Doc d(s);
    return UP_PinMesh_t(PinMeshFactory(d.child("mesh")));
}
// how far (x,y) lies outside region reg; each must be <= 0 up to rounding
static void member(int reg, double x, double y, double tol, const char *what)
{
    if (CYL) {
        int ring = reg / AZI, a = reg % AZI, step = 8 / AZI;
        double r2 = x * x + y * y;
        if (ring > 0)
            sx_le(R2[ring - 1], r2, tol, what);
        if (ring < (int)R2.size())
            sx_le(r2, R2[ring], tol, what);
        sx_check(ring <= (int)R2.size(), what);
        const double *lo = CS[a * step], *hi = CS[(a + 1) * step % 8];
        sx_le(0, lo[0] * y - lo[1] * x, tol, what);
        sx_le(0, x * hi[1] - y * hi[0], tol, what);
    } else {
        int ix = reg % NX, iy = reg / NX;
        double dx = PITCH / NX, dy = PITCH / NY, ox = x + PITCH / 2, oy = y + PITCH / 2;
        sx_le(ix * dx, ox, tol, what);
        sx_le(ox, (ix + 1) * dx, tol, what);
        sx_le(iy * dy, oy, tol, what);
        sx_le(oy, (iy + 1) * dy, tol, what);
    }
}
static int nreg()
{
    return CYL ? (R2.size() + 1) * AZI : NX * NY;
}
static void lookup(const PinMesh &m)
{
    double h = PITCH / 2;
    int where = sx_choose("where", 5);
    double x = sreal("x", -h, h), y = sreal("y", -h, h);
    if (where == 1)
        y = 0;
    if (where == 2)
        x = 0;
    if (where == 3)
        x = -h;
    if (where == 4)
        y = h;
    int r = m.find_reg(Point2(x, y));
    sx_check(r >= 0 && r < nreg(), "a point of the pin is in a region");
    member(r, x, y, 1e-9, "the region found contains the point");
    if (x != 0 && y != 0 && x != y && x != -y)
        sx_observe("region", r);
    sx_reach("lookup");
}
static void outside(const PinMesh &m)
{
    double x = sreal("x", -2, 2), y = sreal("y", -2, 2);
    double h = PITCH / 2;
    sx_assume(x > h + 1e-6 || x < -h - 1e-6 || y > h + 1e-6 || y < -h - 1e-6);
    sx_check(m.find_reg(Point2(x, y)) == -1, "a point outside the pin has no region");
    sx_reach("outside");
}
static void volumes(const PinMesh &m)
{
    sx_check(m.n_reg() == nreg(), "number of regions");
    sx_check((int)m.areas().size() == nreg(), "number of areas");
    double tot = 0;
    for (int i = 0; i < nreg(); i++) {
        double a = PITCH * PITCH / (NX * NY);
        if (CYL) {
            int g = i / AZI;
            a = ((g == (int)R2.size() ? PITCH * PITCH : R2[g] * PI) - (g ? R2[g - 1] * PI : 0)) / AZI;
        }
        sx_near(m.areas()[i], a, 1e-9, "area of a region");
        tot += m.areas()[i];
    }
    sx_near(tot, m.area(), 1e-9, "areas add up to the pin");
    sx_near(m.pitch_x() * m.pitch_y(), PITCH * PITCH, 1e-9, "pitch");
    int n = 0;
    for (int i = 0; i < m.n_xsreg(); i++)
        n += m.n_fsrs(i);
    sx_check(n == nreg(), "material regions cover the regions");
    if (CYL && R2.size() == 6)
        sx_check(m.n_xsreg() == 4 && m.n_fsrs(0) == 2 * AZI && m.n_fsrs(1) == AZI && m.n_fsrs(2) == 3 * AZI && m.n_fsrs(3) == AZI,
                 "regions of a material");
    sx_reach("volumes");
}
// lookup with a direction: the region just ahead
static void ahead(const PinMesh &m)
{
    double h = PITCH / 2, x, y;
    Direction d;
    if (sx_param("DIRSYM", 0)) {
        d.ox = sreal("ox", -1, 1), d.oy = sreal("oy", -1, 1);
        sx_assume(d.ox * d.ox + d.oy * d.oy <= 1.0);
        d.alpha = std::atan2(d.oy, d.ox);
        if (d.oy < 0)
            d.alpha += 2 * PI;
    } else {
        d.alpha = 0.1 + 0.55 * sx_choose("heading", 11);
        d.ox = std::cos(d.alpha), d.oy = std::sin(d.alpha);
    }
    d.oz = 0, d.theta = PI / 2;
    sx_assume(d.ox > 1e-3 || d.ox < -1e-3);
    sx_assume(d.oy > 1e-3 || d.oy < -1e-3);
    int where = sx_choose("where", 5);
    int ring = -1, azi = -1;
    bool onx = false, ony = false;
    if (where == 0) {
        // anywhere away from the surfaces
        x = sreal("x", -h + 1e-3, h - 1e-3), y = sreal("y", -h + 1e-3, h - 1e-3);
        if (CYL) {
            for (double r2 : R2)
                sx_assume(x * x + y * y > r2 + 1e-4 || x * x + y * y < r2 - 1e-4);
            sx_assume(x * x + y * y > 1e-4);
            for (int i = 0; i < 4; i++) {
                double c = x * CS[i][1] - y * CS[i][0];
                sx_assume(c > 1e-4 || c < -1e-4);
            }
        } else {
            for (int i = 1; i < NX; i++) {
                double c = x + h - i * PITCH / NX;
                sx_assume(c > 1e-4 || c < -1e-4);
            }
            for (int i = 1; i < NY; i++) {
                double c = y + h - i * PITCH / NY;
                sx_assume(c > 1e-4 || c < -1e-4);
            }
        }
    } else if (CYL) {
        if (where == 1) {
            // on a ring
            ring = sx_choose("ring", R2.size());
            int k = sx_choose("place", 4);
            double r = std::sqrt(R2[ring]);
            x = r * DIRS[2 * k][0], y = r * DIRS[2 * k][1];
            double dot = d.ox * DIRS[2 * k][0] + d.oy * DIRS[2 * k][1];
            sx_assume(dot > 1e-3 || dot < -1e-3);
        } else if (where == 2 || where == 3) {
            // on a division between sectors
            azi = sx_choose("azi", AZI);
            const double *c = CS[azi * 8 / AZI];
            double t = where == 2 ? sreal("t", 0.02, 0.6) : 0;
            if (where == 3) {
                ring = sx_choose("ring", R2.size());
                t    = std::sqrt(R2[ring]);
                double dot = d.ox * c[0] + d.oy * c[1];
                sx_assume(dot > 1e-3 || dot < -1e-3);
            } else
                for (double r2 : R2)
                    sx_assume(t * t > r2 + 1e-4 || t * t < r2 - 1e-4);
            x = t * c[0], y = t * c[1];
            double cr = c[0] * d.oy - c[1] * d.ox;
            sx_assume(cr > 1e-3 || cr < -1e-3);
        } else
            return;
    } else {
        // on lines of a rectangular mesh, or on the edge and going in
        int i = sx_choose("ix", NX + 1), j = sx_choose("iy", NY + 1);
        onx = where != 2, ony = where != 1;
        if (where > 3)
            return;
        x = onx ? -h + i * PITCH / NX : sreal("x", -h + 1e-3, h - 1e-3);
        y = ony ? -h + j * PITCH / NY : sreal("y", -h + 1e-3, h - 1e-3);
        if (onx && i == 0)
            sx_assume(d.ox > 0);
        if (onx && i == NX)
            sx_assume(d.ox < 0);
        if (ony && j == 0)
            sx_assume(d.oy > 0);
        if (ony && j == NY)
            sx_assume(d.oy < 0);
        for (int k = 1; k < NX && !onx; k++) {
            double c = x + h - k * PITCH / NX;
            sx_assume(c > 1e-4 || c < -1e-4);
        }
        for (int k = 1; k < NY && !ony; k++) {
            double c = y + h - k * PITCH / NY;
            sx_assume(c > 1e-4 || c < -1e-4);
        }
    }
    int r = m.find_reg(Point2(x, y), d);
    sx_check(r >= 0 && r < nreg(), "there is a region ahead");
    // a little further on
    double s = 1e-5;
    member(r, x + s * d.ox, y + s * d.oy, 1e-9, "the region found lies ahead of the point");
    sx_observe("region", r);
    sx_reach(where == 0 ? "inside" : "surface");
}
// The distance of two points on a ray of known direction needs no root.  That
// the points are on it is an obligation of its own.
static double UX, UY;
extern "C" __attribute__((used)) double sx_along(Point2 *a, Point2 b)
{
    double dx = a->x - b.x, dy = a->y - b.y;
    sx_near(dx * UY - dy * UX, 0, 1e-9, "points of a ray lie on it");
    double t = dx * UX + dy * UY;
    return t < 0 ? -t : t;
}
// segments of a straight ray
static void trace(const PinMesh &m)
{
    double h = PITCH / 2;
    int k    = sx_choose("direction", sx_param("NDIR", 4));
    double ux = DIRS[k][0], uy = DIRS[k][1];
    UX = ux, UY = uy;
    // from edge to opposite edge, or a piece of the way
    int kind = sx_choose("kind", 4);
    double e = sreal("e", 1e-3, PITCH - 1e-3), x, y, len;
    double ax = ux > 0 ? ux : -ux;
    if (kind == 0 || kind == 2) {
        x = ux > 0 ? -h : h, y = -h + e;
        len = kind == 0 ? PITCH / ax : 0.5;
    } else {
        x = -h + e, y = -h;
        len = kind == 1 ? PITCH / uy : 0.75;
    }
    double ex = kind == 0 ? -x : x + ux * len, ey = kind == 1 ? h : y + uy * len;
    sx_assume(ex >= -h && ex <= h && ey >= -h && ey <= h);
    // keep off tangents and off the centre
    double off = ux * y - uy * x;
    if (CYL) {
        for (double r2 : R2)
            sx_assume(off * off > r2 + 1e-3 || off * off < r2 - 1e-3);
        sx_assume(off > 1e-3 || off < -1e-3);
        sx_assume(ex * ex + ey * ey > R2.back() + 1e-3);
    }
    Point2 p1(x, y), p2(ex, ey);
    VecF s;
    VecI reg;
    s.push_back(0.5);
    reg.push_back(77);
    int n = m.trace(p1, p2, 100, s, reg);
    sx_check(n >= 1 && (int)s.size() == n + 1 && (int)reg.size() == n + 1, "segments are appended");
    sx_check(reg[0] == 77, "earlier segments are kept");
    double t = 0;
    for (int i = 1; i <= n; i++) {
        int r = reg[i] - 100;
        sx_check(r >= 0 && r < nreg(), "a segment belongs to a region");
        sx_le(0, s[i], 1e-12, "segments have positive length");
        // both ends, hence (regions inside a ring and a sector being convex) the
        // whole segment; outside a ring the middle too
        member(r, x + ux * t, y + uy * t, 1e-6, "a segment starts in its region");
        member(r, x + ux * (t + 0.5 * s[i]), y + uy * (t + 0.5 * s[i]), 1e-6, "a segment lies in its region");
        t += s[i];
        member(r, x + ux * t, y + uy * t, 1e-6, "a segment ends in its region");
    }
    sx_near(t, len, 1e-6, "segments add up to the ray");
    sx_observe("n", n);
    sx_reach("trace");
}
// distance to the next surface inside the pin
static void distance(const PinMesh &m)
{
    double h = PITCH / 2;
    int k    = sx_choose("direction", sx_param("NDIR", 7));
    double x, y;
    if (CYL) {
        // anywhere on one of a few lines
        static const double OFF[] = {0.05, -0.125, 0.3, -0.325, 0.4, -0.55};
        double o = OFF[sx_choose("line", 6)], t = sreal("t", -1, 1);
        x = t * DIRS[k][0] - o * DIRS[k][1], y = t * DIRS[k][1] + o * DIRS[k][0];
        sx_assume(x > -h + 1e-3 && x < h - 1e-3 && y > -h + 1e-3 && y < h - 1e-3);
    } else
        x = sreal("x", -h + 1e-3, h - 1e-3), y = sreal("y", -h + 1e-3, h - 1e-3);
    Direction d;
    d.oz = sx_choose("polar", 2) ? 0.6 : 0;
    double st = d.oz > 0 ? 0.8 : 1.0;
    d.ox = DIRS[k][0] * st, d.oy = DIRS[k][1] * st;
    if (CYL) {
        for (double r2 : R2)
            sx_assume(x * x + y * y > r2 + 1e-3 || x * x + y * y < r2 - 1e-3);
        for (int i = 0; i < AZI / 2; i++) {
            double c = x * CS[i * 8 / AZI][1] - y * CS[i * 8 / AZI][0];
            sx_assume(c > 1e-3 || c < -1e-3);
        }
        double off = DIRS[k][0] * y - DIRS[k][1] * x;
        for (double r2 : R2)
            sx_assume(off * off > r2 + 1e-3 || off * off < r2 - 1e-3);
    } else {
        for (int i = 1; i < NX; i++) {
            double c = x + h - i * PITCH / NX;
            sx_assume(c > 1e-4 || c < -1e-4);
        }
        for (int i = 1; i < NY; i++) {
            double c = y + h - i * PITCH / NY;
            sx_assume(c > 1e-4 || c < -1e-4);
        }
    }
    int c  = -1;
    auto r = m.distance_to_surface(Point2(x, y), d, c);
    sx_check(!r.second, "a point of the pin is not outside");
    sx_check(r.first > 0, "surfaces lie ahead");
    if (r.first > 10) {
        // none ahead: the ray stays in its region to the edge of the pin
        sx_reach("free");
        double tx = (d.ox > 0 ? h - x : x + h) / (d.ox > 0 ? d.ox : -d.ox),
               ty = (d.oy > 0 ? h - y : y + h) / (d.oy > 0 ? d.oy : -d.oy);
        double t  = tx < ty ? tx : ty;
        int reg   = m.find_reg(Point2(x, y));
        member(reg, x + 0.5 * t * d.ox, y + 0.5 * t * d.oy, 1e-6, "no surface is skipped");
        member(reg, x + t * d.ox, y + t * d.oy, 1e-6, "no surface is skipped");
        return;
    }
    double qx = x + r.first * d.ox, qy = y + r.first * d.oy;
    bool met = false;
    auto zero = [&](double v) {
        if (!met && v <= 1e-7 && v >= -1e-7)
            met = true;
    };
    if (CYL) {
        for (double r2 : R2)
            zero(qx * qx + qy * qy - r2);
        for (int i = 0; i < AZI / 2; i++)
            zero(qx * CS[i * 8 / AZI][1] - qy * CS[i * 8 / AZI][0]);
    } else {
        for (int i = 1; i < NX; i++)
            zero(qx + h - i * PITCH / NX);
        for (int i = 1; i < NY; i++)
            zero(qy + h - i * PITCH / NY);
    }
    sx_check(met, "a surface is met");
    sx_assume(qx <= h && qx >= -h && qy <= h && qy >= -h);
    int reg = m.find_reg(Point2(x, y));
    member(reg, x + 0.5 * r.first * d.ox, y + 0.5 * r.first * d.oy, 1e-6, "no surface is skipped");
    member(reg, qx, qy, 1e-6, "the nearest surface is met first");
    sx_reach("met");
}
extern "C" void sx_main()
{
    UP_PinMesh_t m = make();
    switch (sx_param("PART", 0)) {
    case 0: lookup(*m); break;
    case 1: outside(*m); break;
    case 2: volumes(*m); break;
    case 3: ahead(*m); break;
    case 4: trace(*m); break;
    case 5: distance(*m); break;
    }
}

// Coarse mesh: topology and metrics (PART 0), locating points (PART 1), walking
// a straight line across the cells (PART 2).  Cell widths are symbolic.
#include "sx.h"
#include "ulp.hpp"
#include <array>
#include <string>
#include <vector>
#include "core/mesh.hpp"
#include "util/error.hpp"
using namespace mocc;

static double sr(const std::string &n, double lo, double hi)
{
    return sx_real(n.c_str(), lo, hi);
}
static VecF grid(const char *n, int k)
{
    VecF v(1, 0.0);
    for (int i = 0; i < k; i++)
        v.push_back(v.back() + sr(std::string(n) + std::to_string(i), 0.25, 4.0));
    return v;
}
static const Surface opposite[6] = {Surface::WEST,  Surface::SOUTH,  Surface::EAST,
                                    Surface::NORTH, Surface::BOTTOM, Surface::TOP};

static void topology(const Mesh &m, const VecF &x, const VecF &y, const VecF &z,
                     const std::array<Boundary, 6> &bc)
{
    int nx = x.size() - 1, ny = y.size() - 1, nz = z.size() - 1;
    sx_check((int)m.nx() == nx && (int)m.ny() == ny && (int)m.nz() == nz, "dimensions as given");
    sx_check(m.n_pin() == nx * ny * nz, "number of cells");
    int ns = m.n_surf();
    sx_check(ns == (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1), "number of surfaces");
    std::vector<int> seen(ns, 0), lo(ns, -1), hi(ns, -1);
    double vol = 0;
    for (int iz = 0; iz < nz; iz++)
        for (int iy = 0; iy < ny; iy++)
            for (int ix = 0; ix < nx; ix++) {
                int c    = m.coarse_cell(Position(ix, iy, iz));
                auto pos = m.coarse_position(c);
                sx_check(c >= 0 && c < nx * ny * nz, "cell index in range");
                sx_check(pos.x == ix && pos.y == iy && pos.z == iz, "position of a cell's index is its position");
                double dx = x[ix + 1] - x[ix], dy = y[iy + 1] - y[iy], dz = z[iz + 1] - z[iz];
                sx_near(m.coarse_volume(c), dx * dy * dz, 1e-9, "cell volume is the product of its widths");
                sx_near(m.cell_thickness(c, Normal::X_NORM), dx, 1e-9, "cell thickness in x");
                sx_near(m.cell_thickness(c, Normal::Y_NORM), dy, 1e-9, "cell thickness in y");
                sx_near(m.cell_thickness(c, Normal::Z_NORM), dz, 1e-9, "cell thickness in z");
                vol += m.coarse_volume(c);
                sx_check(c >= m.plane_cell_begin(iz) && c < m.plane_cell_end(iz), "cell lies in its plane's range");
                double area[6] = {dy * dz, dx * dz, dy * dz, dx * dz, dx * dy, dx * dy};
                Normal nrm[6]  = {Normal::X_NORM, Normal::Y_NORM, Normal::X_NORM,
                                  Normal::Y_NORM, Normal::Z_NORM, Normal::Z_NORM};
                int off[6][3]  = {{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
                for (int s = 0; s < 6; s++) {
                    Surface S = (Surface)s;
                    int is    = m.coarse_surf(c, S);
                    if (!(is >= 0 && is < ns)) {
                        sx_fail("surface index in range");
                        return;
                    }
                    seen[is]++;
                    bool upper = s == 0 || s == 1 || s == 4;
                    (upper ? lo : hi)[is] = c;
                    sx_check(m.surface_normal(is) == nrm[s], "surface normal");
                    sx_check(surface_to_normal(S) == nrm[s], "normal of a face");
                    sx_near(m.coarse_area(c, S), area[s], 1e-9, "face area");
                    sx_near(m.coarse_area(is), area[s], 1e-9, "surface area equals face area");
                    int jx = ix + off[s][0], jy = iy + off[s][1], jz = iz + off[s][2];
                    bool in = jx >= 0 && jx < nx && jy >= 0 && jy < ny && jz >= 0 && jz < nz;
                    int nb  = m.coarse_neighbor(c, S);
                    int ex  = in ? jz * nx * ny + jy * nx + jx : -1;
                    sx_check(nb == ex, "neighbor across a face, none outside");
                    if (in && nb >= 0 && nb < m.n_pin()) {
                        sx_check(m.coarse_neighbor(nb, opposite[s]) == c, "neighbor relation is mutual");
                        sx_check(m.coarse_surf(nb, opposite[s]) == is, "neighbors share one surface");
                        auto f = m.coarse_interface(c, nb);
                        sx_check((int)f.first == is && f.second == S, "interface of two neighbors");
                    }
                    auto pr = m.coarse_neigh_cells(is);
                    sx_check((upper ? pr.first : pr.second) == c && (upper ? pr.second : pr.first) == ex,
                             "cells on both sides of a surface");
                    if (s < 4 || s == 5)
                        sx_check(is >= m.plane_surf_begin(iz) && is < m.plane_surf_end(iz),
                                 "surface lies in its plane's range");
                    if (s < 4)
                        sx_check(is >= m.plane_surf_xy_begin(iz), "x and y surfaces follow the z surfaces");
                }
                if (iz + 1 < nz)
                    sx_check(m.coarse_surf(c, Surface::EAST) + (int)m.n_surf_plane() ==
                                 m.coarse_surf(c + nx * ny, Surface::EAST),
                             "surfaces of the plane above are offset by a fixed count");
            }
    for (int s = 0; s < ns; s++) {
        sx_check(seen[s] == (lo[s] >= 0) + (hi[s] >= 0) && seen[s] >= 1, "every surface bounds one or two cells");
    }
    sx_observe("vol", vol);
    sx_near(vol, x.back() * y.back() * z.back(), 1e-8, "cell volumes add up to the domain volume");
    for (int s = 0; s < 6; s++)
        sx_check(m.boundary_condition((Surface)s) == bc[s], "boundary condition of a face");
    auto ba = m.boundary_array();
    sx_check(ba[0][0] == bc[2] && ba[0][1] == bc[0] && ba[1][0] == bc[3] && ba[1][1] == bc[1] &&
                 ba[2][0] == bc[5] && ba[2][1] == bc[4],
             "boundary conditions by normal and sense");
    sx_reach("topology");
}

static void locate(const Mesh &m, const VecF &x, const VecF &y, const VecF &z)
{
    int nx = x.size() - 1, ny = y.size() - 1, nz = z.size() - 1;
    double tol = 1e-9;
    if (sx_param("WHAT", 0) == 0) {
        double px = sr("px", 0.001, 12), py = sr("py", 0.001, 12), pz = sr("pz", 0.001, 12);
        sx_assume(px < x.back() - 0.001);
        sx_assume(py < y.back() - 0.001);
        sx_assume(pz < z.back() - 0.001);
        int c = m.coarse_cell_point(Point2(px, py));
        if (!(c >= 0 && c < nx * ny)) {
            sx_fail("cell of a point in the plane is in range");
            return;
        }
        auto p = m.coarse_position(c);
        sx_check(x[p.x] - tol <= px && px <= x[p.x + 1] + tol && y[p.y] - tol <= py && py <= y[p.y + 1] + tol,
                 "the cell found in the plane contains the point");
        int c3 = m.coarse_cell_point(Point3(px, py, pz));
        if (!(c3 >= 0 && c3 < m.n_pin())) {
            sx_fail("cell of a point is in range");
            return;
        }
        auto q = m.coarse_position(c3);
        sx_check(x[q.x] - tol <= px && px <= x[q.x + 1] + tol && y[q.y] - tol <= py && py <= y[q.y + 1] + tol &&
                     z[q.z] - tol <= pz && pz <= z[q.z + 1] + tol,
                 "the cell found in space contains the point");
        sx_observe("cell", c3);
        sx_observe("vol", m.coarse_volume(c3));
        sx_reach("located");
        return;
    }
    if (sx_param("WHAT", 0) == 2) {
        // which boundaries a particle at the edge of the domain leaves through
        int at[3];
        const VecF *v[3] = {&x, &y, &z};
        double p[3], o[3];
        for (int d = 0; d < 3; d++) {
            at[d] = sx_choose((std::string("at") + std::to_string(d)).c_str(), 3);
            p[d]  = at[d] == 0 ? 0.0 : at[d] == 2 ? v[d]->back() : 0.5 * v[d]->back();
            o[d]  = sx_choose((std::string("dir") + std::to_string(d)).c_str(), 2) ? 0.5 : -0.5;
        }
        auto s = m.boundary_surface(Point3(p[0], p[1], p[2]), Direction(o[0], o[1], o[2]));
        Surface out[3][2] = {{Surface::WEST, Surface::EAST},
                             {Surface::SOUTH, Surface::NORTH},
                             {Surface::BOTTOM, Surface::TOP}};
        int n = 0, ex = 0;
        for (auto f : s)
            n += f != Surface::INTERNAL;
        for (int d = 0; d < 3; d++) {
            bool leaves = (at[d] == 0 && o[d] < 0) || (at[d] == 2 && o[d] > 0);
            bool found  = false;
            for (auto f : s)
                found = found || (leaves && f == out[d][o[d] > 0]);
            ex += leaves;
            sx_check(found == leaves, "every boundary the particle leaves through is reported");
        }
        sx_check(n == ex, "no other boundary is reported");
        sx_reach("boundaries");
        return;
    }
    // axial position, with and without a direction
    double pz = sr("pz", 0.0, 12);
    sx_assume(pz <= z.back());
    int on = -1;
    double eps = 1e-6;
    for (int i = 0; i <= nz; i++) {
        double d = pz - z[i];
        if (d == 0.0)
            on = i;
        else
            sx_assume(d > eps || d < -eps);
    }
    int dir = sx_choose("dir", 3);
    bool thrown = false;
    int iz = -1;
    try {
        iz = dir == 2 ? m.plane_index(pz) : m.plane_index(pz, dir ? 0.5 : -0.5);
    } catch (Exception &e) {
        thrown = true;
    }
    if (dir == 2)
        sx_check(thrown == (on >= 0), "a height on an interface without direction is refused");
    if (thrown)
        return;
    if (!(iz >= 0 && iz < nz)) {
        sx_fail("plane in range");
        return;
    }
    sx_check(z[iz] <= pz && pz <= z[iz + 1], "the plane found contains the height");
    if (on > 0 && on < nz)
        sx_check(iz == (dir == 1 ? on : on - 1), "direction chooses the plane at an interface");
    sx_observe("plane", iz);
    sx_reach("plane");
}

static void walk(const Mesh &m, const VecF &x, const VecF &y)
{
    int nx = x.size() - 1, ny = y.size() - 1;
    // upward (the sense in which rays are laid), in one of several directions,
    // from any point of the south or upwind side face
    static const double slopes[] = {0.5, 1.0, 2.75, 0.125};
    double k   = slopes[sx_choose("slope", sx_param("SLOPES", 3))];
    int oct    = 1 + sx_choose("oct", 2);
    int from   = sx_choose("from", 2), to = sx_choose("to", 2);
    double a   = sr("a", 0.0, 12.0);
    double eps = 1e-4;
    Point2 p1, p2;
    if (from == 0) {
        sx_assume(a > eps && a < x.back() - eps);
        p1 = Point2(a, 0.0);
    } else {
        sx_assume(a > eps && a < y.back() - eps);
        p1 = Point2(oct == 1 ? 0.0 : x.back(), a);
    }
    double run = oct == 1 ? x.back() - p1.x : p1.x, rise = y.back() - p1.y;
    if (to == 0) {
        double r = rise / k;
        sx_assume(r < run - eps);
        p2 = Point2(oct == 1 ? p1.x + r : p1.x - r, y.back());
    } else {
        double r = run * k;
        sx_assume(r < rise - eps);
        p2 = Point2(oct == 1 ? x.back() : 0.0, p1.y + r);
    }
    // the line passes grid corners exactly or at a distance, not within the
    // code's comparison tolerance of them
    for (double lx : x)
        for (double ly : y) {
            double d = (oct == 1 ? lx - p1.x : p1.x - lx) * k - (ly - p1.y);
            if (d != 0)
                sx_assume(d > eps || d < -eps);
        }
    std::vector<Point2> ps = {p1, p2};
    m.trace(ps);
    sx_check(ps.front() == p1 && ps.back() == p2, "trace keeps its end points");
    int ncross = 0;
    for (size_t i = 0; i + 1 < ps.size(); i++) {
        sx_check(ps[i].y <= ps[i + 1].y, "points of a trace are ordered");
        // no grid line strictly between consecutive points
        double lx = ps[i].x, hx = ps[i + 1].x;
        if (oct == 2)
            std::swap(lx, hx);
        for (double l : x)
            sx_check(!(lx + 1e-6 < l && l < hx - 1e-6), "no x crossing is missed");
        for (double l : y)
            sx_check(!(ps[i].y + 1e-6 < l && l < ps[i + 1].y - 1e-6), "no y crossing is missed");
    }
    for (size_t i = 1; i + 1 < ps.size(); i++) {
        // on the segment
        double cr = (ps[i].x - p1.x) * (p2.y - p1.y) - (ps[i].y - p1.y) * (p2.x - p1.x);
        sx_near(cr, 0.0, 1e-7, "crossing points lie on the line");
        ncross++;
    }
    // follow the coarse surfaces: from the starting cell, each crossing names
    // the faces passed; stepping over them must lead to the cell holding the
    // next piece of the line
    int c = m.coarse_boundary_cell(p1, oct);
    for (size_t i = 0; i + 1 < ps.size(); i++) {
        if (!(c >= 0 && c < nx * ny)) {
            sx_fail("the walk stays inside the mesh");
            return;
        }
        auto q = m.coarse_position(c);
        double mx = 0.5 * (ps[i].x + ps[i + 1].x), my = 0.5 * (ps[i].y + ps[i + 1].y);
        sx_check(x[q.x] < mx && mx < x[q.x + 1] && y[q.y] < my && my < y[q.y + 1],
                 "following the faces crossed leads to the cell the line is in");
        std::array<int, 2> sf;
        Surface s[2];
        int k  = m.coarse_norm_point(ps[i + 1], oct, s);
        int k2 = m.coarse_surf_point(ps[i + 1], c, sf);
        sx_check(k >= 1 && k <= 2, "a crossing names one or two faces");
        if (i + 2 == ps.size())
            break;
        sx_check(k == k2, "faces and surface indices of a crossing agree in number");
        for (int j = 0; j < k; j++) {
            if (j < k2)
                sx_check(m.coarse_surf(c, s[j]) == sf[j], "surface index of a crossing is that of the face");
            c = m.coarse_neighbor(c, s[j]);
            if (c < 0) {
                sx_fail("the walk stays inside the mesh");
                return;
            }
        }
        if (k == 2)
            sx_reach("corner");
    }
    sx_observe("crossings", ncross);
    sx_observe("lastx", ps[ps.size() / 2].x);
    sx_reach("walk");
}

extern "C" void sx_main()
{
    int part = sx_param("PART", 0);
    int nx = sx_param("NX", 0), ny = sx_param("NY", 0), nz = sx_param("NZ", 0);
    int mx = sx_param("MAX", 3);
    if (!nx)
        nx = 1 + sx_choose("nx", mx);
    if (!ny)
        ny = 1 + sx_choose("ny", mx);
    if (!nz)
        nz = 1 + sx_choose("nz", mx);
    VecF x = grid("dx", nx), y = grid("dy", ny), z = grid("dz", nz);
    std::array<Boundary, 6> bc = {{Boundary::VACUUM, Boundary::REFLECT, Boundary::PERIODIC, Boundary::PARALLEL,
                                   Boundary::PRESCRIBED, Boundary::INVALID}};
    Mesh m(7, 7, x, y, z, bc);
    if (part == 0)
        topology(m, x, y, z, bc);
    if (part == 1)
        locate(m, x, y, z);
    if (part == 2)
        walk(m, x, y);
}

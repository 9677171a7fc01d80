// Laying down rays: directions, spacings, end points, boundary indices, segments
// and volumes.
#include "common.hpp"
#include "ulp.hpp"
#include "core/angular_quadrature.hpp"
#include "sweepers/moc/ray_data.hpp"
using namespace mocc;

// ------------------------------------------------------------ reading of input
static double Spacing = 0;
extern "C" __attribute__((used)) float sx_as_float(pugi::xml_attribute *a, float d)
{
    return std::string(a->name()) == "spacing" ? (float)Spacing : a->empty() ? d : std::stof(a->value());
}
struct End {
    double x, y;
};
static void ends(const moc::Ray &r, End &a, End &b)
{
    std::ostringstream o;
    o.precision(15);
    o << r;
    std::string s = o.str();
    double v[4];
    int k = 0;
    for (size_t i = 0; i < s.size() && k < 4;) {
        if (std::isdigit(s[i]) || s[i] == '-') {
            size_t n = 0;
            v[k++]   = std::stod(s.substr(i), &n);
            i += n;
        } else
            i++;
    }
    if (k < 4)
        sx_fail("harness: cannot read the end points of a ray");
    a = {v[0], v[1]};
    b = {v[2], v[3]};
}
static const double PITCH = 1.25;
static int NX = 2, NY = 2;
// pins, south row first: 1 two halves in x, 2 three layers in y, 3 ring and sectors
static const int PIN[3][2] = {{1, 2}, {2, 1}, {3, 1}};
static int nreg(int p)
{
    return p == 1 ? 2 : p == 2 ? 3 : 8;
}
static std::string input(int cyl)
{
    std::string l;
    for (int j = NY - 1; j >= 0; j--)
        for (int i = 0; i < NX; i++)
            l += " " + std::to_string(cyl && i == j ? 3 : PIN[j][i]);
    return "<mesh id=\"1\" type=\"rect\" pitch=\"1.25\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
           "<mesh id=\"2\" type=\"rect\" pitch=\"1.25\"><sub_x>1</sub_x><sub_y>3</sub_y></mesh>"
           "<mesh id=\"3\" type=\"cyl\" pitch=\"1.25\"><radii>0.5</radii><sub_radii>1</sub_radii><sub_azi>4</sub_azi></mesh>"
           "<pin id=\"1\" mesh=\"1\">1 2</pin><pin id=\"2\" mesh=\"2\">3 1 3</pin><pin id=\"3\" mesh=\"3\">1 3</pin>"
           "<lattice id=\"1\" nx=\"" + std::to_string(NX) + "\" ny=\"" + std::to_string(NY) + "\">" + l + "</lattice>"
           "<assembly id=\"1\" np=\"1\" hz=\"1.5\"><lattices>1</lattices></assembly>"
           "<core nx=\"1\" ny=\"1\" north=\"reflect\" south=\"reflect\" east=\"reflect\" west=\"reflect\" top=\"reflect\" "
           "bottom=\"reflect\">1</core>" + matlib();
}
static int pinat(int i, int j, int cyl)
{
    return cyl && i == j ? 3 : PIN[j][i];
}
// region of the plane holding a point, up to tol of its borders
static bool inside(int reg, double x, double y, int cyl, double tol)
{
    int n = 0;
    for (int j = 0; j < NY; j++)
        for (int i = 0; i < NX; i++) {
            int p = pinat(i, j, cyl), m = nreg(p);
            if (reg >= n + m) {
                n += m;
                continue;
            }
            reg -= n;
            double lx = x - (i + 0.5) * PITCH, ly = y - (j + 0.5) * PITCH, h = PITCH / 2;
            if (lx < -h - tol || lx > h + tol || ly < -h - tol || ly > h + tol)
                return false;
            if (p == 1)
                return reg == 0 ? lx <= tol : lx >= -tol;
            if (p == 2)
                return ly >= -h + reg * PITCH / 3 - tol && ly <= -h + (reg + 1) * PITCH / 3 + tol;
            double r2 = lx * lx + ly * ly;
            if (reg < 4 ? r2 > 0.25 + tol : r2 < 0.25 - tol)
                return false;
            int q = reg % 4;
            return (q == 0 || q == 3 ? lx >= -tol : lx <= tol) && (q < 2 ? ly >= -tol : ly <= tol);
        }
    return false;
}
static double area(int reg, int cyl)
{
    int n = 0;
    for (int j = 0; j < NY; j++)
        for (int i = 0; i < NX; i++) {
            int p = pinat(i, j, cyl), m = nreg(p);
            if (reg < n + m)
                return p < 3 ? PITCH * PITCH / m : reg - n < 4 ? PI / 16 : (PITCH * PITCH - PI / 4) / 4;
            n += m;
        }
    return -1;
}
// ---------------------------------------------------------------- whole layout
static void layout()
{
    int cyl = sx_param("CYL", 0), cor = sx_param("COR", 0), trig = sx_param("TRIG", 0), pinmod = sx_param("PINMOD", 0);
    NX = sx_param("NX", 2), NY = sx_param("NY", 2);
    write_xslib();
    Doc doc(input(cyl));
    CoreMesh mesh(doc);
    Spacing = sreal("spacing", sx_param("LO", 20) * 0.01, sx_param("HI", 60) * 0.01);
    Doc aq("<ang_quad type=\"cg\" n_azimuthal=\"3\" n_polar=\"1\"/>");
    Doc aq2("<ang_quad type=\"ls\" order=\"4\"/>");
    AngularQuadrature quad(sx_param("LS", 0) ? aq2.child("ang_quad") : aq.child("ang_quad"));
    const char *cn[] = {"flat", "angle", "none"};
    // the number is replaced by the symbolic one when the file is read; in a
    // concrete run it is that run's value
    char sp[40];
    snprintf(sp, sizeof sp, "%.9g", sx_concrete(Spacing));
    Doc rd(std::string("<rays spacing=\"") + sp + "\" volume_correction=\"" + cn[cor] + "\" modularity=\"" + (pinmod ? "pin" : "core") +
           "\" modularization=\"" + (trig ? "trig" : "rational_fraction") + "\"/>");
    moc::RayData rays(rd.child("rays"), quad, mesh);
    double hx = NX * PITCH, hy = NY * PITCH;
    const auto &q = rays.ang_quad();
    int nd = q.ndir_oct(), na = 2 * nd;
    double wsum = 0;
    for (int a = 0; a < q.ndir(); a++)
        wsum += q[a].weight;
    sx_near(wsum, 8, 1e-9, "weights add up");
    const auto &plane = *rays.begin();
    sx_check((int)plane.size() == na, "rays for the upward directions");
    int nr = mesh.n_reg(MeshTreatment::PLANE);
    std::vector<double> vol(nr, 0.0);
    for (int a = 0; a < na; a++) {
        int k = a % nd;
        double ox = q[a].ox / std::sqrt(q[a].ox * q[a].ox + q[a].oy * q[a].oy), oy = q[a].oy / std::sqrt(q[a].ox * q[a].ox + q[a].oy * q[a].oy);
        double ax = std::fabs(ox);
        sx_check(oy > 0 && (a < nd ? ox > 0 : ox < 0), "first directions go up and right, then up and left");
        int Nx = rays.nx(k), Ny = rays.ny(k), N = Nx + Ny;
        sx_check(Nx > 0 && Ny > 0 && rays.n_rays(k) == (size_t)N && (int)plane[a].size() == N, "number of rays");
        double sp = rays.spacing(a);
        // equal spacing on both sides
        sx_near(hx * oy, Nx * sp, 1e-9, "rays fill the side they enter by");
        sx_near(hy * ax, Ny * sp, 1e-9, "rays fill the side they enter by");
        if (!trig) {
            sx_le(sp, Spacing, 1e-6, "rays are at most the requested distance apart");
            // close to the direction asked for
            double c = q[a].ox * quad[a].oy - q[a].oy * quad[a].ox;
            double n2 = (q[a].ox * q[a].ox + q[a].oy * q[a].oy) * (quad[a].ox * quad[a].ox + quad[a].oy * quad[a].oy);
            sx_check(c * c <= 0.004 * 0.004 * n2, "directions stay close to those of the quadrature");
        } else
            sx_le(sp, 1.5 * Spacing, 1e-6, "rays are about the requested distance apart");
        std::vector<int> in(N, 0), out(N, 0);
        std::vector<double> v(nr, 0.0);
        auto place = [&](int b, const End &e, bool start) {
            if (b < 0 || b >= N) {
                sx_fail("boundary index in range");
                return;
            }
            if (b < Ny) {
                sx_near(e.y, (b + 0.5) * sp / ax, 1e-9, "boundary index tells the place on the side");
                sx_near(e.x, start == (ox > 0) ? 0 : hx, 1e-9, "rays start and end on the boundary");
            } else {
                sx_near(e.x, (b - Ny + 0.5) * sp / oy, 1e-9, "boundary index tells the place on the side");
                sx_near(e.y, start ? 0 : hy, 1e-9, "rays start and end on the boundary");
            }
        };
        for (const auto &r : plane[a]) {
            End p1, p2;
            ends(r, p1, p2);
            place(r.bc(0), p1, true);
            place(r.bc(1), p2, false);
            if (r.bc(0) >= 0 && r.bc(0) < N)
                in[r.bc(0)]++;
            if (r.bc(1) >= 0 && r.bc(1) < N)
                out[r.bc(1)]++;
            double len = std::hypot(p2.x - p1.x, p2.y - p1.y), t = 0;
            sx_near((p2.x - p1.x) * oy, (p2.y - p1.y) * ox, 1e-9, "rays follow their direction");
            sx_check(r.nseg() <= rays.max_segments(), "longest ray");
            for (int i = 0; i < r.nseg(); i++) {
                int g = r.seg_index(i);
                sx_check(g >= 0 && g < nr, "segments belong to regions");
                v[g] += r.seg_len(i) * sp;
                sx_check(r.seg_len(i) > 0, "segments have length");
                if (cor == 2) {
                    double m = t + 0.5 * r.seg_len(i);
                    sx_check(inside(g, p1.x + m * ox, p1.y + m * oy, cyl, 1e-6), "segments lie in their region");
                }
                t += r.seg_len(i);
            }
            if (cor == 2)
                sx_near(t, len, 1e-9, "segments add up to the ray");
        }
        for (int i = 0; i < N; i++)
            sx_check(in[i] == 1 && out[i] == 1, "every boundary place is entered and left once");
        for (int g = 0; g < nr; g++) {
            if (cor == 0 && v[g] > 0)
                sx_near(v[g], area(g, cyl), 1e-9, "each direction covers the area of a region");
            vol[g] += v[g] * q[a].weight * 0.5;
        }
    }
    double tot = 0;
    for (int g = 0; g < nr; g++) {
        tot += vol[g];
        if (cor == 1 && vol[g] > 0)
            sx_near(vol[g], area(g, cyl), 1e-9, "all directions together cover the area of a region");
    }
    if (cor == 2)
        sx_near(tot, hx * hy, 1e-9, "rays cover the core");
    sx_reach("layout");
}
// ------------------------------------------------------------------ one ray
// The distance of two points on a ray of known direction needs no root.  That
// the points are on it is an obligation of its own.
static double UX, UY;
extern "C" __attribute__((used)) double sx_along(Point2 *a, Point2 b)
{
    double dx = a->x - b.x, dy = a->y - b.y;
    sx_near(dx * UY - dy * UX, 0, 1e-9, "points of a ray lie on it");
    double t = dx * UX + dy * UY;
    return t < 0 ? -t : t;
}
static int firstreg(int ci, int cj)
{
    int n = 0;
    for (int j = 0; j < NY; j++)
        for (int i = 0; i < NX; i++) {
            if (i == ci && j == cj)
                return n;
            n += nreg(pinat(i, j, 0));
        }
    return -1;
}
static void single()
{
    NX = sx_param("NX", 2), NY = sx_param("NY", 2);
    write_xslib();
    static Doc doc(input(0));
    static CoreMesh mesh(doc);
    double hx = NX * PITCH, hy = NY * PITCH;
    static const double DIRS[][2] = {{0.6, 0.8}, {-0.28, 0.96}, {0.96, 0.28}, {-0.8, 0.6}};
    int k     = sx_param("D0", 0) + sx_choose("direction", sx_param("ND", 2));
    double ux = DIRS[k][0], uy = DIRS[k][1], ax = ux > 0 ? ux : -ux;
    UX = ux, UY = uy;
    int kind = sx_choose("kind", 5);
    double x, y, ex, ey;
    double sx0 = ux > 0 ? 0 : hx, ex0 = hx - sx0;
    bool corner = false;
    if (kind == 0) { // side to side
        x = sx0, y = sreal("e", 1e-3, hy - 1e-3), ex = ex0, ey = y + hx / ax * uy;
        sx_assume(ey < hy - 1e-3);
    } else if (kind == 1) { // bottom to top
        x = sreal("e", 1e-3, hx - 1e-3), y = 0, ey = hy, ex = x + hy / uy * ux;
        sx_assume(ex > 1e-3 && ex < hx - 1e-3);
    } else if (kind == 2) { // side to top
        x = sx0, y = sreal("e", 1e-3, hy - 1e-3), ey = hy, ex = x + (hy - y) / uy * ux;
        sx_assume(ex > 1e-3 && ex < hx - 1e-3);
    } else if (kind == 3) { // bottom to side
        x = sreal("e", 1e-3, hx - 1e-3), y = 0, ex = ex0, ey = (ex0 - x) / ux * uy;
        sx_assume(ey > 1e-3 && ey < hy - 1e-3);
    } else { // through the corner of four pins
        int i = 1 + (NX > 2 ? sx_choose("i", NX - 1) : 0), j = 1 + (NY > 2 ? sx_choose("j", NY - 1) : 0);
        double cx = i * PITCH, cy = j * PITCH;
        double b = (ux > 0 ? cx : hx - cx) / ax, c = cy / uy, f = (ux > 0 ? hx - cx : cx) / ax, g = (hy - cy) / uy;
        x = b < c ? sx0 : cx - ux * c, y = b < c ? cy - uy * b : 0;
        ex = f < g ? ex0 : cx + ux * g, ey = f < g ? cy + uy * f : hy;
        corner = true;
    }
    double off = 0;
    // corners are passed exactly (above) or at a distance
    for (int i = 0; i <= NX && !corner; i++)
        for (int j = 0; j <= NY; j++) {
            off = (i * PITCH - x) * uy - (j * PITCH - y) * ux;
            sx_assume(off > 1e-3 || off < -1e-3);
        }
    double len = (ey - y) / uy;
    moc::Ray r(Point2(x, y), Point2(ex, ey), {{5, 7}}, 0, mesh);
    sx_check(r.bc(0) == 5 && r.bc(1) == 7, "boundary indices are kept");
    int n    = r.nseg();
    double t = 0;
    std::vector<double> at(1, 0.0);
    for (int i = 0; i < n; i++) {
        sx_le(0, r.seg_len(i), 1e-12, "segments have length");
        double m = t + 0.5 * r.seg_len(i);
        sx_check(inside(r.seg_index(i), x + m * ux, y + m * uy, 0, 1e-6), "segments lie in their region");
        t += r.seg_len(i);
        at.push_back(t);
    }
    sx_near(t, len, 1e-6, "segments add up to the ray");
    // cell by cell, in both senses
    for (int bw = 0; bw < 2; bw++) {
        int c = bw ? r.cm_cell_bw() : r.cm_cell_fw();
        int sf = bw ? r.cm_surf_bw() : r.cm_surf_fw();
        int i = bw ? n : 0;
        double px = bw ? ex : x, py = bw ? ey : y;
        bool side = bw ? (kind == 0 || kind == 3) : (kind == 0 || kind == 2);
        if (!corner) {
            Surface s = side ? ((px > 0.5 * hx) ? Surface::EAST : Surface::WEST) : (bw ? Surface::NORTH : Surface::SOUTH);
            sx_check(c >= 0 && c < NX * NY && mesh.coarse_surf(c, s) == sf, "the surface a ray starts on");
        }
        if (c < 0 || c >= NX * NY) {
            sx_fail("rays start in a cell");
            return;
        }
        bool over = false;
        for (const auto &d : r.cm_data()) {
            Surface s = bw ? d.bw : d.fw;
            int ns    = bw ? d.nseg_bw : d.nseg_fw;
            if (s == Surface::INVALID) {
                sx_check(ns == 0, "idle entries have no segments");
                continue;
            }
            if (over || c < 0) {
                sx_fail("a ray goes on after its end");
                return;
            }
            int ci = c % NX, cj = c / NX, f = firstreg(ci, cj), l = f + nreg(pinat(ci, cj, 0));
            for (int q = 0; q < ns; q++) {
                int seg = bw ? --i : i++;
                if (seg < 0 || seg >= n) {
                    sx_fail("a ray goes on after its end");
                    return;
                }
                sx_check(r.seg_index(seg) >= f && r.seg_index(seg) < l, "segments are in the cell being crossed");
            }
            double qx = x + at[i] * ux, qy = y + at[i] * uy;
            if (s == Surface::EAST || s == Surface::WEST) {
                sx_near(qx, (ci + (s == Surface::EAST)) * PITCH, 1e-6, "the face crossed");
                sx_check((s == Surface::EAST) == ((ux > 0) != (bw == 1)), "faces are crossed forwards");
            } else if (s == Surface::NORTH || s == Surface::SOUTH) {
                sx_near(qy, (cj + (s == Surface::NORTH)) * PITCH, 1e-6, "the face crossed");
                sx_check((s == Surface::NORTH) == (bw == 0), "faces are crossed forwards");
            } else
                sx_fail("the face crossed");
            c    = mesh.coarse_neighbor(c, s);
            over = c < 0;
        }
        sx_check(over && i == (bw ? 0 : n), "a ray is followed to its end");
    }
    sx_observe("n", n);
    sx_reach(corner ? "corner" : "single");
}
extern "C" void sx_main()
{
    switch (sx_param("PART", 0)) {
    case 0: layout(); break;
    case 1: single(); break;
    }
}

// Finding the place of a point in the core: plane, lattice, pin, region and
// material, against a direct reading of the input.
#include "common.hpp"
#include "ulp.hpp"
#include "core/core_mesh.hpp"
#include "core/xs_mesh.hpp"
using namespace mocc;

static const double PITCH = 1.25;
static const double Z[]   = {0, 0.6, 2.0, 2.9};
// lattices by plane, bottom first, each south row first: pin of (ix, iy)
static const int PIN[3][2][4] = {{{2, 1, 1, 3}, {3, 2, 2, 1}}, {{1, 1, 2, 2}, {1, 3, 3, 1}}, {{2, 1, 1, 3}, {3, 2, 2, 1}}};
// materials of the pins: two halves in x; inside and outside a ring; three
// layers in y
static int nreg(int pin)
{
    return pin == 1 ? 2 : pin == 2 ? 8 : 3;
}
static std::string input()
{
    return "<mesh id=\"1\" type=\"rect\" pitch=\"1.25\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
           "<mesh id=\"2\" type=\"cyl\" pitch=\"1.25\"><radii>0.5</radii><sub_radii>1</sub_radii><sub_azi>4</sub_azi></mesh>"
           "<mesh id=\"3\" type=\"rect\" pitch=\"1.25\"><sub_x>1</sub_x><sub_y>3</sub_y></mesh>"
           "<pin id=\"1\" mesh=\"1\">1 2</pin><pin id=\"2\" mesh=\"2\">2 3</pin><pin id=\"3\" mesh=\"3\">3 1 3</pin>"
           "<lattice id=\"1\" nx=\"2\" ny=\"2\"> 3 2  2 1 </lattice><lattice id=\"2\" nx=\"2\" ny=\"2\"> 2 1  1 3 </lattice>"
           "<lattice id=\"3\" nx=\"2\" ny=\"2\"> 1 3  1 1 </lattice><lattice id=\"4\" nx=\"2\" ny=\"2\"> 3 1  2 2 </lattice>"
           "<assembly id=\"1\" np=\"3\"><hz>0.9 1.4 0.6</hz><lattices>1 3 1</lattices></assembly>"
           "<assembly id=\"2\" np=\"3\"><hz>0.9 1.4 0.6</hz><lattices>2 4 2</lattices></assembly>"
           "<core nx=\"2\" ny=\"1\" north=\"vacuum\" south=\"vacuum\" east=\"vacuum\" west=\"vacuum\" top=\"vacuum\" "
           "bottom=\"vacuum\">1 2</core>" + matlib();
}
// regions in order: planes from the bottom, lattices west to east, pins row by row from the south
static int offset(int ix, int iy, int iz)
{
    int n = 0;
    for (int k = 0; k <= iz; k++)
        for (int l = 0; l < 2; l++)
            for (int j = 0; j < 2; j++)
                for (int i = 0; i < 2; i++) {
                    int x = 2 * l + i;
                    if (k == iz && x == ix && j == iy)
                        return n;
                    n += nreg(PIN[k][j][x]);
                }
    return n;
}
static int below(double v, const double *b, int n)
{
    int i = 0;
    while (i + 1 < n && v > b[i + 1])
        i++;
    return i;
}
extern "C" void sx_main()
{
    write_xslib();
    static Doc doc(input());
    static CoreMesh mesh(doc);
    static const double X[] = {0, 1.25, 2.5, 3.75, 5}, Y[] = {0, 1.25, 2.5};
    static const double D[][3] = {{0.6, 0.64, 0.48}, {-0.48, 0.6, -0.64}, {-0.64, -0.48, 0.6}, {0.48, -0.64, -0.6}};
    // inside pins, or on their borders and about to enter
    int on = sx_choose("on", 5);
    const double *u = D[on ? sx_choose("heading", 4) : 1];
    Direction d;
    d.ox = u[0], d.oy = u[1], d.oz = u[2];
    d.alpha = std::atan2(u[1], u[0]);
    if (u[1] < 0)
        d.alpha += 2 * PI;
    d.theta = std::acos(u[2]);
    bool onx = on == 1 || on == 4, ony = on == 2 || on == 4, onz = on == 3;
    double x, y, z;
    if (onx)
        x = X[sx_choose("ix", 3) + (u[0] > 0 ? 0 : 1) + sx_choose("ix1", 2)];
    else {
        x = sreal("x", 1e-3, 5 - 1e-3);
        for (int i = 1; i < 4; i++)
            sx_assume(x > X[i] + 1e-3 || x < X[i] - 1e-3);
    }
    if (ony)
        y = Y[sx_choose("iy", 2) + (u[1] > 0 ? 0 : 1)];
    else {
        y = sreal("y", 1e-3, 2.5 - 1e-3);
        sx_assume(y > Y[1] + 1e-3 || y < Y[1] - 1e-3);
    }
    if (onz)
        z = Z[sx_choose("iz", 3) + (u[2] > 0 ? 0 : 1)];
    else {
        z = onx || ony ? sreal("z", 0.7, 1.9) : sreal("z", 1e-3, 2.9 - 1e-3);
        for (int i = 1; i < 3; i++)
            sx_assume(z > Z[i] + 1e-3 || z < Z[i] - 1e-3);
    }
    // the truth, a little ahead
    double s = 1e-5, ax = x + s * u[0], ay = y + s * u[1], az = z + s * u[2];
    int ix = below(ax, X, 5), iy = below(ay, Y, 3), iz = below(az, Z, 4);
    int pin = PIN[iz][iy][ix];
    double lx = ax - (X[ix] + X[ix + 1]) / 2, ly = ay - (Y[iy] + Y[iy + 1]) / 2;
    int reg, mat;
    if (pin == 1) {
        sx_assume(lx > 1e-3 || lx < -1e-3);
        reg = lx > 0;
        mat = reg ? 2 : 1;
    } else if (pin == 2) {
        double r2 = lx * lx + ly * ly;
        sx_assume(r2 > 0.25 + 1e-3 || r2 < 0.25 - 1e-3);
        sx_assume((lx > 1e-3 || lx < -1e-3) && (ly > 1e-3 || ly < -1e-3));
        reg = (r2 > 0.25 ? 4 : 0) + (ly > 0 ? (lx > 0 ? 0 : 1) : (lx < 0 ? 2 : 3));
        mat = r2 > 0.25 ? 3 : 2;
    } else {
        static const double H[] = {-PITCH / 2, -PITCH / 6, PITCH / 6, PITCH / 2};
        sx_assume((ly > H[1] + 1e-3 || ly < H[1] - 1e-3) && (ly > H[2] + 1e-3 || ly < H[2] - 1e-3));
        reg = below(ly, H, 4);
        mat = reg == 1 ? 1 : 3;
    }
    int want = offset(ix, iy, iz) + reg;
    auto info = mesh.get_location_info(Point3(x, y, z), d);
    sx_check(info.pos.x == ix && info.pos.y == iy && info.pos.z == iz, "the pin is the one ahead");
    if (!(info.pos.x == ix && info.pos.y == iy && info.pos.z == iz))
        return;
    sx_near(info.local_point.x, x - (X[ix] + X[ix + 1]) / 2, 1e-9, "place within the pin");
    sx_near(info.local_point.y, y - (Y[iy] + Y[iy + 1]) / 2, 1e-9, "place within the pin");
    sx_near(info.pin_boundary[0].x, X[ix], 1e-9, "extent of the pin");
    sx_near(info.pin_boundary[1].x, X[ix + 1], 1e-9, "extent of the pin");
    sx_near(info.pin_boundary[0].y, Y[iy], 1e-9, "extent of the pin");
    sx_near(info.pin_boundary[1].y, Y[iy + 1], 1e-9, "extent of the pin");
    sx_near(info.pin_boundary[0].z, Z[iz], 1e-9, "extent of the pin");
    sx_near(info.pin_boundary[1].z, Z[iz + 1], 1e-9, "extent of the pin");
    int got = info.reg_offset + info.pm->find_reg(info.local_point, d);
    sx_check(got == want, "the region is the one ahead");
    sx_observe("region", got);
    sx_check(mesh.coarse_cell(info.pos) == (int)(ix + 4 * (iy + 2 * iz)), "the cell is that of the pin");
    if (on == 0) {
        Point2 p(x, y);
        int first = 0;
        auto t    = mesh.get_pinmesh(p, mesh.unique_plane_ids()[iz], first);
        sx_check((int)t.position.x == ix && (int)t.position.y == iy, "the pin holds the point");
        sx_near(p.x, (X[ix] + X[ix + 1]) / 2, 1e-9, "centre of the pin");
        sx_near(p.y, (Y[iy] + Y[iy + 1]) / 2, 1e-9, "centre of the pin");
        int l = t.pm->find_reg(Point2(x - p.x, y - p.y));
        sx_check(first + l == want - offset(0, 0, iz), "the region holds the point");
        sx_reach("inside");
    } else
        sx_reach("border");
    // what is there
    static XSMesh xs(mesh, MeshTreatment::TRUE);
    int n = 0;
    for (auto &r : xs)
        for (int i : r.reg())
            if (i == want) {
                n++;
                static const double AB[] = {0, 0.012, 0.021, 0.0007};
                sx_near(r.xsmactr(0) - scat(r, 0, 0) - scat(r, 1, 0), AB[mat], 1e-9, "material of the region");
            }
    sx_check(n == 1, "a region has one material");
    sx_near(mesh.volumes(MeshTreatment::TRUE)[want],
            (Z[iz + 1] - Z[iz]) * (pin == 1 ? PITCH * PITCH / 2 : pin == 3 ? PITCH * PITCH / 3 : reg < 4 ? PI / 16 : (PITCH * PITCH - PI / 4) / 4),
            1e-9, "volume of the region");
}

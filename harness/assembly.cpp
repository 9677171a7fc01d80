// The core built from the input, against a direct reading of the input: sizes,
// positions, regions, volumes, planes and macroplanes.
#include "common.hpp"
#include "symtext.hpp"
#include "ulp.hpp"
#include <map>
#include "core/core_mesh.hpp"
using namespace mocc;

static const int NREG[] = {0, 2, 12, 3}, NXS[] = {0, 2, 3, 3}; // by mesh
static const int MESH[] = {0, 1, 2, 3, 1, 2};                  // by pin
static const bool FUEL[] = {false, true, true, false, false, false};
static std::string head(const std::string &pitch2 = "@p")
{
    return "<mesh id=\"1\" type=\"rect\" pitch=\"@p\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
           "<mesh id=\"2\" type=\"cyl\" pitch=\"@p\"><radii>0.25 0.375</radii><sub_radii>1 1</sub_radii><sub_azi>4</sub_azi></mesh>"
           "<mesh id=\"3\" type=\"rect\" pitch=\"" + pitch2 + "\"><sub_x>1</sub_x><sub_y>3</sub_y></mesh>"
           "<pin id=\"1\" mesh=\"1\">1 2</pin><pin id=\"2\" mesh=\"2\">2 3 3</pin><pin id=\"3\" mesh=\"3\">3 3 3</pin>"
           "<pin id=\"4\" mesh=\"1\">3 3</pin><pin id=\"5\" mesh=\"2\" fuel=\"f\">1 1 3</pin>";
}
static const char *KIND[] = {"vacuum", "reflect", "prescribed"};
static const Boundary BC[] = {Boundary::VACUUM, Boundary::REFLECT, Boundary::PRESCRIBED};
static std::string core(const char *size, const char *ids, int r = 0)
{
    const char *f[] = {"east", "north", "west", "south", "top", "bottom"};
    std::string s = std::string("<core ") + size;
    for (int i = 0; i < 6; i++)
        s += std::string(" ") + f[i] + "=\"" + KIND[(i + i / 3 + r) % 3] + "\"";
    return s + ">" + ids + "</core>" + matlib();
}
static std::string num(int i)
{
    return std::to_string(i);
}
static void build()
{
    // three kinds of plane: B has other pin meshes than A, C has the meshes of
    // A with other pins.  Columns of assemblies are 2 and 1 pins wide, rows 1
    // (south) and 2 pins high.
    static const int P[3][3][3] = {{{1, 2, 3}, {2, 2, 1}, {3, 1, 2}}, {{1, 2, 3}, {2, 1, 1}, {3, 1, 2}}, {{4, 5, 3}, {2, 5, 4}, {3, 4, 2}}};
    static const int BX[] = {0, 2, 3}, BY[] = {0, 1, 3};
    double p = sym["@p"] = sreal("p", 0.75, 4.0);
    int kind[3], sub = sx_choose("sub", 6), form = sx_choose("form", 2), rot;
    for (int z = 0; z < 3; z++)
        kind[z] = sx_choose(nm("kind", z).c_str(), 3);
    rot = (sub + kind[0] + kind[2]) % 3;
    static const std::vector<int> SUB[] = {{1, 1, 1}, {2, 1}, {1, 2}, {3}, {2, 1}, {1, 2}}; // bottom first
    int z0 = 0;
    for (int n : SUB[sub]) {
        for (int i = 1; i < n; i++)
            if ((kind[z0 + i] == 1) != (kind[z0] == 1))
                return; // planes of a macroplane share their geometry
        z0 += n;
    }
    double dz[] = {0.5, 1.25, 0.75};
    std::string xml = head();
    for (int k = 0; k < 3; k++)
        for (int a = 0; a < 4; a++) {
            int ax = a % 2, ay = a / 2;
            xml += "<lattice id=\"" + num(10 * (a + 1) + k) + "\" nx=\"" + num(BX[ax + 1] - BX[ax]) + "\" ny=\"" +
                   num(BY[ay + 1] - BY[ay]) + "\">";
            for (int y = BY[ay + 1] - 1; y >= BY[ay]; y--)
                for (int x = BX[ax]; x < BX[ax + 1]; x++)
                    xml += " " + num(P[k][y][x]);
            xml += " </lattice>";
        }
    if (form) {
        double h = sym["@h"] = sreal("h", 0.1, 5.0);
        dz[0] = dz[1] = dz[2] = h;
    }
    for (int a = 0; a < 4; a++) {
        std::string t[3], l;
        for (int z = 0; z < 3; z++)
            t[z] = num(10 * (a + 1) + kind[z]);
        switch (sub) {
        case 0: l = t[2] + " " + t[1] + " " + t[0]; break;
        case 1: l = t[2] + " { " + t[1] + " " + t[0] + " }"; break;
        case 2: l = "{ " + t[2] + " " + t[1] + " } " + t[0]; break;
        case 3: l = "{" + t[2] + " " + t[1] + " " + t[0] + "}"; break;
        case 4: l = t[2] + "{" + t[1] + " " + t[0] + "}"; break;
        case 5: l = "{" + t[2] + " " + t[1] + "}" + t[0]; break;
        }
        xml += "<assembly id=\"" + num(a + 1) + "\" np=\"3\"" + (form ? " hz=\"@h\">" : "><hz> 0.75 1.25 0.5 </hz>") + "<lattices>" + l +
               "</lattices></assembly>";
    }
    xml += core("nx=\"2\" ny=\"2\"", " 3 4  1 2 ", rot);
    Doc doc(text(xml));
    CoreMesh mesh(doc);

    sx_check(mesh.nx() == 3 && mesh.ny() == 3 && mesh.nz() == 3 && mesh.n_pin() == 27, "numbers of pins and planes");
    sx_near(mesh.hx_core(), 3 * p, 1e-9, "width of the core");
    sx_near(mesh.hy_core(), 3 * p, 1e-9, "depth of the core");
    double zt = 0;
    for (int i = 0; i < 3; i++) {
        sx_near(mesh.dx(i), p, 1e-9, "pin widths");
        sx_near(mesh.dy(i), p, 1e-9, "pin widths");
        sx_near(mesh.dz(i), dz[i], 1e-9, "plane heights");
        sx_near(mesh.z(i), zt, 1e-9, "plane boundaries");
        sx_near(mesh.x_divisions()[i + 1], (i + 1) * p, 1e-9, "pin boundaries");
        sx_near(mesh.y_divisions()[i + 1], (i + 1) * p, 1e-9, "pin boundaries");
        zt += dz[i];
    }
    sx_near(mesh.z(3), zt, 1e-9, "plane boundaries");
    for (int f = 0; f < 6; f++) {
        const Surface S[] = {Surface::EAST, Surface::NORTH, Surface::WEST, Surface::SOUTH, Surface::TOP, Surface::BOTTOM};
        sx_check(mesh.boundary_condition(S[f]) == BC[(f + f / 3 + rot) % 3] && mesh.boundary()[(int)S[f]] == BC[(f + f / 3 + rot) % 3],
                 "boundary conditions are those of the input");
    }
    // pins and regions in order: planes from the bottom, assemblies and pins row by row from the south west
    VecF vol = mesh.volumes(MeshTreatment::TRUE);
    int i = 0, reg = 0, nfuel = 0;
    std::map<int, int> first; // first region of the pin in its plane, by pin position
    double total = 0;
    for (int z = 0; z < 3; z++) {
        int fuel = 0, plane = reg;
        sx_check((int)mesh.first_reg_plane(z) == reg, "first region of a plane");
        for (int a = 0; a < 4; a++)
            for (int y = BY[a / 2]; y < BY[a / 2 + 1]; y++)
                for (int x = BX[a % 2]; x < BX[a % 2 + 1]; x++, i++) {
                    int id         = P[kind[z]][y][x];
                    const Pin *pin = *(mesh.begin() + i);
                    sx_check((int)pin->id() == id && *(mesh.begin(z) + (i - 9 * z)) == pin, "pins of the core are those of the input");
                    sx_check(pin->is_fuel() == FUEL[id], "fuel pins are those with fissile material unless the input says otherwise");
                    fuel += FUEL[id];
                    sx_check(pin->n_reg() == NREG[MESH[id]] && pin->mesh().n_xsreg() == NXS[MESH[id]], "number of regions of a pin");
                    Position pos = mesh.pin_position(i);
                    sx_check(pos.x == x && pos.y == y && pos.z == z, "position of a pin");
                    Point2 o = mesh.pin_origin(i);
                    sx_near(o.x, (x + 0.5) * p, 1e-9, "origin of a pin");
                    sx_near(o.y, (y + 0.5) * p, 1e-9, "origin of a pin");
                    double v = 0;
                    for (int r = 0; r < NREG[MESH[id]]; r++) {
                        v += vol[reg + r];
                        if (z == 0)
                            sx_le(0, vol[reg + r], 0, "volumes are positive");
                    }
                    sx_near(v, p * p * dz[z], 1e-8, "regions fill their pin");
                    total += v;
                    sx_near(mesh.coarse_volume(mesh.coarse_cell(pos)), p * p * dz[z], 1e-9, "coarse volume of a pin");
                    first[9 * z + 3 * y + x] = reg - plane;
                    if (z == kind[0]) { // one plane is enough
                        int at = mesh.region_at_point(Point3((x + 0.5) * p + 0.05, (y + 0.5) * p + 0.02, mesh.z(z) + 0.5 * dz[z]));
                        sx_check(at >= reg && at < reg + NREG[MESH[id]], "a point in a pin is in a region of that pin");
                    }
                    reg += NREG[MESH[id]];
                }
        nfuel = std::max(nfuel, fuel);
    }
    sx_check(mesh.begin() + i == mesh.end(), "number of pins");
    sx_check((int)mesh.n_reg(MeshTreatment::TRUE) == reg && (int)vol.size() == reg, "number of regions");
    sx_near(total, 9 * p * p * zt, 1e-7, "regions fill the core");
    sx_check(mesh.n_fuel_2d() == nfuel, "fuel pins of a plane");
    for (int z = 0; z < 3; z++) {
        const Plane &pl = mesh.get_plane_by_axial_index(z);
        for (int a = 0; a < 4; a++)
            for (int y = BY[a / 2]; y < BY[a / 2 + 1]; y++)
                for (int x = BX[a % 2]; x < BX[a % 2 + 1]; x++)
                    sx_check((int)pl.at(a % 2, a / 2).at(x - BX[a % 2], y - BY[a / 2]).mesh().id() == MESH[P[kind[z]][y][x]],
                             "the geometry stored for a plane is the geometry of the plane");
        for (int w = 0; w < z; w++)
            sx_check((mesh.unique_plane_id(w) == mesh.unique_plane_id(z)) == ((kind[w] == 1) == (kind[z] == 1)),
                     "planes are distinguished by their geometry");
    }
    // macroplanes
    int m = 0, nr = 0;
    z0 = 0;
    VecF mv = mesh.volumes(MeshTreatment::PLANE), pv = mesh.volumes(MeshTreatment::PIN_PLANE), cv = mesh.volumes(MeshTreatment::PIN);
    sx_check(mesh.macroplanes().size() == SUB[sub].size() && mesh.subplane().size() == SUB[sub].size(), "number of macroplanes");
    for (int n : SUB[sub]) {
        const MacroPlane &mp = mesh.macroplanes()[m];
        double h             = 0;
        for (int z = z0; z < z0 + n; z++) {
            h += dz[z];
            sx_check(mesh.macroplane_index()[z] == m, "macroplane of a plane");
        }
        sx_check(mp.iz_min == z0 && mp.iz_max == z0 + n - 1 && mesh.subplane()[m] == n, "planes of a macroplane");
        sx_check(mp.plane == &mesh.get_plane_by_axial_index(z0) && mp.begin() == mesh.begin(z0) && mp.end() == mesh.end(z0), "pins of a macroplane");
        sx_near(mp.height, h, 1e-9, "height of a macroplane");
        sx_near(mesh.macroplane_heights()[m], h, 1e-9, "height of a macroplane");
        int stt = mesh.first_reg_plane(z0), cnt = mp.plane->n_reg();
        for (int r = 0; r < cnt; r++)
            sx_near(mv[nr + r] * dz[z0], vol[stt + r] * h, 1e-8, "macroplane volumes are those of its regions over its height");
        nr += cnt;
        for (int c = 0; c < 9; c++)
            sx_near(pv[9 * m + c], p * p * h, 1e-8, "volume of a pin in a macroplane");
        z0 += n;
        m++;
    }
    sx_check((int)mv.size() == nr && (int)mesh.n_reg(MeshTreatment::PLANE) == nr, "number of macroplane regions");
    sx_check((int)pv.size() == 9 * m && (int)mesh.n_reg(MeshTreatment::PIN_PLANE) == 9 * m, "number of macroplane pins");
    sx_check((int)cv.size() == 27 && (int)mesh.n_reg(MeshTreatment::PIN) == 27, "number of pins");
    for (int c = 0; c < 27; c++)
        sx_near(cv[c], p * p * dz[c / 9], 1e-8, "volume of a pin");
    sx_check(mesh.is_pin_modular() && !mesh.is_2d(), "kind of core");
    sx_observe("v", vol[3]);
    sx_reach("built");
}
// true when the core is accepted
static bool accepted(const std::string &xml)
{
    Doc doc(text(xml));
    try {
        CoreMesh mesh(doc);
    } catch (...) {
        return false;
    }
    return true;
}
static const std::string LAT = "<lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 3 </lattice><lattice id=\"2\" nx=\"2\" ny=\"1\"> 3 3 </lattice>";
static const std::string ASY = "<assembly id=\"1\" np=\"2\" hz=\"1.0\"><lattices>1 2</lattices></assembly>";
static void refuse()
{
    double p = sym["@p"] = sreal("p", 0.75, 4.0);
    int what = sx_choose("what", 24);
    std::string c1 = core("nx=\"1\" ny=\"1\"", "1"), c2 = core("nx=\"2\" ny=\"1\"", "1 2"), c2y = core("nx=\"1\" ny=\"2\"", "1 2");
    auto asy = [](int id, const std::string &at, const std::string &in) { return "<assembly id=\"" + num(id) + "\" " + at + ">" + in + "</assembly>"; };
    bool ok = true, want = false;
    switch (what) {
    case 0: ok = accepted(head() + LAT + ASY + c1), want = true; break;
    case 1: { // pins of another pitch beside each other
        double q = sym["@q"] = sreal("q", 0.75, 4.0);
        ok       = accepted(head("@q") + LAT + ASY + c1);
        if (q == p)
            want = true;
        break;
    }
    case 2: { // assemblies of another height
        double h = sym["@h"] = sreal("h", 0.5, 2.0), k = sym["@k"] = sreal("k", 0.5, 2.0);
        ok       = accepted(head() + LAT + asy(1, "np=\"2\" hz=\"@h\"", "<lattices>1 2</lattices>") + asy(2, "np=\"2\" hz=\"@k\"", "<lattices>2 2</lattices>") + c2);
        if (std::fabs(h - k) > 1e-9 * h)
            want = false;
        else if (h == k)
            want = true;
        else
            return;
        break;
    }
    case 3: { // lattices of another width above each other
        double q = sym["@q"] = sreal("q", 0.75, 4.0);
        ok = accepted(head("@q") + "<lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 4 </lattice><lattice id=\"2\" nx=\"2\" ny=\"1\"> 3 3 </lattice>" + ASY + c1);
        want = q == p;
        break;
    }
    case 4: { // pins too small for their rings
        double q = sym["@p"] = sreal("small", 0.25, 1.25);
        ok       = accepted(head() + LAT + ASY + c1);
        want     = q >= 0.75;
        break;
    }
    case 5: { // heights must be positive
        double h = sym["@h"] = sreal("h", -1.0, 2.0);
        if (h <= 0)
            return; // an assertion, not a refusal
        ok = accepted(head() + LAT + asy(1, "np=\"2\" hz=\"@h\"", "<lattices>1 2</lattices>") + c1), want = true;
        break;
    }
    case 6: ok = accepted(head() + "<lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 3 3 </lattice><lattice id=\"2\" nx=\"2\" ny=\"1\"> 3 3 </lattice>" + ASY + c1); break;
    case 7: ok = accepted(head() + "<lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 9 </lattice><lattice id=\"2\" nx=\"2\" ny=\"1\"> 3 3 </lattice>" + ASY + c1); break;
    case 8: ok = accepted(head() + LAT + asy(1, "np=\"2\" hz=\"1.0\"", "<lattices>1 7</lattices>") + c1); break;
    case 9: ok = accepted(head() + LAT + asy(1, "np=\"3\" hz=\"1.0\"", "<lattices>1 2</lattices>") + c1); break;
    case 10: ok = accepted(head() + LAT + asy(1, "np=\"2\"", "<hz>1.0</hz><lattices>1 2</lattices>") + c1); break;
    case 11: ok = accepted(head() + LAT + asy(1, "np=\"2\" hz=\"1.0\"", "<hz>1.0 1.0</hz><lattices>1 2</lattices>") + c1); break;
    case 12: ok = accepted(head() + LAT + ASY + core("nx=\"1\" ny=\"1\"", "2")); break;
    case 13: ok = accepted(head() + LAT + ASY + core("nx=\"2\" ny=\"1\"", "1")); break;
    case 14: ok = accepted(head() + LAT + ASY + c1 + c1); break;
    case 15: ok = accepted(head() + LAT + LAT + ASY + c1); break;
    case 16: ok = accepted(head() + LAT + ASY + ASY + c1); break;
    case 17: ok = accepted(head() + head() + LAT + ASY + c1); break;
    case 18: ok = accepted(head() + LAT + ASY + "<core nx=\"1\" ny=\"1\" north=\"vacuum\" south=\"vacuum\" east=\"vacuum\" west=\"vacuum\" top=\"open\" bottom=\"vacuum\">1</core>" + matlib()); break;
    case 19: // macroplanes of one assembly not matching those of its neighbour
        ok = accepted(head() + LAT + asy(1, "np=\"2\" hz=\"1.0\"", "<lattices>{1 1}</lattices>") + asy(2, "np=\"2\" hz=\"1.0\"", "<lattices>1 1</lattices>") + c2);
        break;
    case 20: // pin rows that do not continue across assemblies
        ok = accepted(head() + "<lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 3 </lattice><lattice id=\"2\" nx=\"2\" ny=\"2\"> 3 3 3 3</lattice>" +
                      asy(1, "np=\"1\" hz=\"1.0\"", "<lattices>1</lattices>") + asy(2, "np=\"1\" hz=\"1.0\"", "<lattices>2</lattices>") + c2);
        break;
    case 21: { // pin columns that do not continue: half the pitch, twice the pins
        sym["@q"] = p / 2;
        ok = accepted(head("@q") + "<lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 4 </lattice><lattice id=\"2\" nx=\"4\" ny=\"2\"> 3 3 3 3  3 3 3 3</lattice>" +
                      asy(1, "np=\"1\" hz=\"1.0\"", "<lattices>1</lattices>") + asy(2, "np=\"1\" hz=\"1.0\"", "<lattices>2</lattices>") + c2y);
        break;
    }
    case 22: ok = accepted("<pin id=\"8\" mesh=\"1\">1</pin>" + head() + LAT + ASY + c1); break;
    case 23: ok = accepted("<pin id=\"8\" mesh=\"1\">1 4</pin>" + head() + LAT + ASY + c1); break;
    }
    sx_check(ok == want, ("input is refused exactly when its parts do not fit: case " + num(what)).c_str());
    sx_reach(want ? "accepted" : "refused");
}
extern "C" void sx_main()
{
    write_xslib();
    if (sx_param("PART", 0) == 0)
        build();
    else
        refuse();
}

// Monte Carlo tallies and fission bank.  PART selects.
#include "common.hpp"
#include "ulp.hpp"
#include <array>
#include <set>
#include "core/xs_mesh.hpp"
#include "sweepers/mc/fission_bank.hpp"
#include "sweepers/mc/tally_scalar.hpp"
#include "sweepers/mc/tally_spatial.hpp"
using namespace mocc;
using namespace mocc::mc;

// numbers read from the box description, in the order the harness wrote them
static std::map<std::string, double> box;
extern "C" __attribute__((used)) double sx_as_double(const pugi::xml_attribute *a, double dflt)
{
    auto it = box.find(a->name());
    return it != box.end() ? it->second : *a ? std::strtod(a->value(), nullptr) : dflt;
}
static void scalar()
{
    TallyScalar t;
    const int n = 3;
    for (int round = 0; round < 2; round++) {
        double s = 0, s2 = 0;
        for (int i = 0; i < n; i++) {
            double x = i == 2 ? 1.25 : i && round ? 0.75 : sreal(nm("x", round, i), 0.5, 2.0);
            sx_assume(i || x < 1.2 || x > 1.3); // scores differ
            t.score(x);
            t.add_weight(1.0);
            s += x;
            s2 += x * x;
        }
        auto v   = t.get();
        double m = s / n;
        sx_near(v.first, m, 1e-9, "the mean is that of the scores");
        sx_near(v.second * v.second * m * m, (s2 / n - m * m) / (n - 1), 1e-9, "the uncertainty is the relative one of the mean");
        sx_observe(nm("mean", round).c_str(), v.first);
        sx_observe(nm("dev", round).c_str(), v.second);
        sx_check(v.second >= 0, "an uncertainty is not negative");
        t.reset(); // and again
    }
    double w = sreal("w", 0.5, 2.0), x = sreal("v", 0.0, 2.0);
    t.score(x);
    t.score(0.25);
    t.add_weight(w);
    t.add_weight(1.5);
    sx_near(t.get().first * (w + 1.5), x + 0.25, 1e-9, "the mean is per unit weight");
    sx_reach("scalar");
}
static void spatial()
{
    VecF norm = {2.0, 0.25};
    TallySpatial t(norm);
    const int n = 3;
    for (int round = 0; round < 2; round++) {
        double v[n][2];
        for (int r = 0; r < n; r++) {
            double w = 1.0 + 0.5 * r;
            t.add_weight(0.25);
            for (int i = 0; i < 2; i++) {
                double a = r == 2 ? 0.75 + 0.2 * i : i || round ? 0.5 * (r + 1) : sreal(nm("a", r), 0.5, 2.0);
                t.score(i, a);
                t.score(i, 0.5);
                v[r][i] = (a + 0.5) / w;
            }
            t.add_weight(w - 0.25);
            t.commit_realization();
        }
        sx_assume(v[0][0] < v[2][0] - 0.1 || v[0][0] > v[2][0] + 0.1);
        auto got = t.get();
        for (int i = 0; i < 2; i++) {
            sx_observe(nm("mean", round, i).c_str(), got[i].first);
            double m = (v[0][i] + v[1][i] + v[2][i]) / n, s = 0;
            for (int r = 0; r < n; r++)
                s += (v[r][i] - m) * (v[r][i] - m);
            sx_near(got[i].first, m / norm[i], 1e-9, "a region's mean is per unit of weight and volume");
            sx_near(got[i].second * got[i].second * m * m, s / (n - 1), 1e-9, "a region's uncertainty is relative to its mean");
        }
        // scored but not committed when forgotten
        t.score(0, 0.125);
        t.add_weight(0.5);
        t.reset();
    }
    sx_reach("spatial");
}
static CoreMesh *core()
{
    write_xslib();
    static Doc doc("<mesh id=\"1\" type=\"rect\" pitch=\"1.2\"><sub_x>1</sub_x><sub_y>1</sub_y></mesh>"
                   "<pin id=\"1\" mesh=\"1\">1</pin><lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 1 </lattice>"
                   "<assembly id=\"1\" np=\"2\"><hz>0.9 1.4</hz><lattices>1 1</lattices></assembly>"
                   "<core nx=\"1\" ny=\"1\"" + bc_attr(Bcs()) + ">1</core>" + matlib());
    return new CoreMesh(doc);
}
static void bank()
{
    CoreMesh &mesh = *core();
    XSMesh xs(mesh, MeshTreatment::TRUE);
    const char *key[] = {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max"};
    double b[6], hi[] = {2.4, 2.4, 1.2, 1.2, 2.3, 2.3};
    std::ostringstream o;
    o.precision(17);
    o << "<fission_box fissile_rejection=\"" << (sx_choose("rejection", 2) ? "t" : "f") << "\"";
    for (int i = 0; i < 6; i++) {
        box[key[i]] = b[i] = sreal(key[i], 0.0, hi[i]);
        o << " " << key[i] << "=\"" << sx_concrete(b[i]) << "\"";
    }
    o << "/>";
    Doc d(o.str());
    const int n = 3;
    RNG_LCG rng(2 * sx_choose("seed", 3) + 1);
    bool ok = b[0] < b[1] && b[2] < b[3] && b[4] < b[5], made = true;
    try {
        FissionBank bk(d.child("fission_box"), n, mesh, xs, rng);
        sx_check(ok, "an empty box is refused");
        sx_check(bk.size() == n, "as many sites as asked for");
        int i = 0;
        for (auto &p : bk) {
            sx_check(p.location_global.x >= b[0] && p.location_global.x <= b[1] && p.location_global.y >= b[2] &&
                         p.location_global.y <= b[3] && p.location_global.z >= b[4] && p.location_global.z <= b[5],
                     "sites lie in the box");
            sx_observe(nm("at", i).c_str(), p.location_global.x);
            sx_check(p.group >= 0 && p.group < (int)xs.n_group(), "sites have a group");
            sx_near(p.direction.ox * p.direction.ox + p.direction.oy * p.direction.oy + p.direction.oz * p.direction.oz, 1.0, 1e-9,
                    "sites have a direction");
            sx_check(p.weight == 1.0 && p.id == (unsigned)i++ && p.alive, "sites are numbered particles of weight one");
        }
        sx_reach("sampled");
    } catch (Exception &e) {
        made = false;
    }
    if (!made) {
        sx_check(!ok, "a box with some volume is accepted");
        sx_reach("refused");
    }
}
static void resize()
{
    CoreMesh &mesh = *core();
    FissionBank &bk = *new FissionBank(mesh), &other = *new FissionBank(mesh);
    const int m = 4;
    double x[m], w = 0;
    for (int i = 0; i < m; i++) {
        x[i] = sreal(nm("x", i), 0.1 + 0.5 * i, 0.4 + 0.5 * i);
        Particle p(Point3(x[i], 0.6, 1.0), Direction(0.3, 1.1), i % 2, 10 + i);
        p.weight = 1.0 + i;
        w += p.weight;
        bk.push_back(p);
    }
    sx_check(bk.size() == m, "a bank grows by the sites pushed");
    sx_near(bk.total_fission(), w, 1e-12, "the bank's total is the weight pushed");
    other.swap(bk);
    sx_check(bk.size() == 0 && other.size() == m, "swapped banks exchange their sites");
    sx_near(other.total_fission(), w, 1e-12, "swapped banks exchange their totals");
    sx_near(bk.total_fission(), 0, 1e-12, "swapped banks exchange their totals");
    RNG_LCG rng(2 * sx_choose("seed", 8) + 1);
    int n = 1 + sx_choose("n", 7);
    other.resize(n, rng);
    sx_check(other.size() == n, "a resized bank has the size asked for");
    int seen[m] = {0};
    for (int i = 0; i < n; i++) {
        int j = (int)other[i].id - 10;
        if (j < 0 || j >= m)
            sx_fail("a resized bank holds sites of the old one");
        else {
            seen[j]++;
            sx_observe(nm("site", i).c_str(), other[i].location_global.x);
            sx_near(other[i].location_global.x, x[j], 1e-12, "a resized bank holds sites of the old one");
            sx_check(other[i].group == j % 2, "a resized bank holds sites of the old one");
        }
    }
    for (int j = 0; j < m; j++)
        sx_check(n <= m ? seen[j] <= 1 : seen[j] >= 1, "no site is duplicated when shrinking or lost when growing");
    other.clear();
    sx_check(other.size() == 0 && other.total_fission() == 0.0, "a cleared bank is empty");
    sx_reach("resized");
}
static void entropy()
{
    CoreMesh &mesh = *core();
    FissionBank bk(mesh);
    bk.clear();
    int count[4] = {0}, n = 3;
    for (int i = 0; i < n; i++) {
        double x = i == 2 ? 0.3 : sreal(nm("x", i), 0.01, 2.39), z = i == 2 ? 2.0 : sreal(nm("z", i), 0.01, 2.29);
        sx_assume((x < 1.199 || x > 1.201) && (z < 1.399 || z > 1.401));
        int c = (x > 1.2 ? 1 : 0) + (z > 1.4 ? 2 : 0);
        count[c]++;
        Particle p(Point3(x, 0.5, z), Direction(0.3, 1.1), 0, i);
        bk.push_back(p);
    }
    double h = 0;
    for (int c : count)
        if (c)
            h -= double(c) / n * std::log2(double(c) / n);
    sx_observe("entropy", bk.shannon_entropy());
    sx_near(bk.shannon_entropy(), h, 1e-9, "the entropy is that of the sites per cell");
    sx_reach("entropy");
}
extern "C" void sx_main()
{
    void (*part[])() = {scalar, spatial, bank, resize, entropy};
    part[sx_param("PART", 0)]();
}

// Cross-section data: packed scattering matrices, derived material data,
// homogenization, expansion onto regions and assembly of sources, for every
// value of the cross sections or fluxes involved.
#include "common.hpp"
#include "ulp.hpp"
#include "core/material.hpp"
#include "core/scattering_matrix.hpp"
#include "core/source_isotropic.hpp"
#include "util/h5file.hpp"
#include "core/xs_mesh.hpp"
#include "core/xs_mesh_homogenized.hpp"
using namespace mocc;

static double dense(const ScatteringMatrix &m, int to, int from)
{
    auto &r = m.to(to);
    return (from >= r.min_g && from <= r.max_g) ? r[from] : 0.0;
}

// --- packed scattering matrices ---------------------------------------
static std::vector<VecF> symscat(const char *n, int ng, bool negdiag)
{
    std::vector<VecF> s(ng, VecF(ng, 0.0));
    for (int i = 0; i < ng; i++)
        for (int j = 0; j < ng; j++)
            s[i][j] = sreal(nm(n, i, j), i == j && negdiag ? -1.0 : 0.0, 2.0);
    return s;
}
static void same(const ScatteringMatrix &m, const std::vector<VecF> &s, const char *what)
{
    int ng = s.size();
    sx_check(m.n_group() == ng, "number of groups");
    auto v = m.as_vector();
    for (int i = 0; i < ng; i++) {
        for (int j = 0; j < ng; j++) {
            sx_near(dense(m, i, j), s[i][j], 1e-12, what);
            sx_near(v[ng * i + j], s[i][j], 1e-12, "dense copy of the matrix");
        }
        sx_near(m.self_scat(i), s[i][i], 1e-12, "self scatter");
        double o = 0;
        for (int j = 0; j < ng; j++)
            o += s[j][i];
        sx_near(m.out(i), o, 1e-12, "total out-scatter");
    }
    int k = 0;
    for (auto &r : m) {
        int g = r.min_g;
        for (auto x : r)
            sx_near(x, s[k][g++], 1e-12, "iterating over a row");
        sx_check(g == r.max_g + 1, "row length");
        k++;
    }
    sx_check(k == ng, "number of rows");
}
static void matrix(int ng)
{
    auto s = symscat("s", ng, true);
    ScatteringMatrix m(s);
    same(m, s, "packed matrix");
    ScatteringMatrix c(m);
    same(c, s, "copied matrix");
    {
        ScatteringMatrix other(std::vector<VecF>(1, VecF(1, 0.5)));
        other = m;
        same(other, s, "assigned matrix");
        c = other;
    }
    same(c, s, "matrix whose original is gone");
    sx_check(m == c, "a copy compares equal");
    sx_reach("matrix");
}
static void cdf(int ng)
{
    auto s = symscat("s", ng, false);
    ScatteringMatrix m(s);
    for (int g = 0; g < ng; g++) {
        double o = 0;
        for (int j = 0; j < ng; j++)
            o += s[j][g];
        sx_assume(o > 0.01);
        auto c   = m.out_cdf(g);
        double p = 0;
        sx_check((int)c.size() == ng, "one entry per group");
        for (int j = 0; j < ng; j++) {
            sx_near((c[j] - p) * o, s[j][g], 1e-9, "probability of scattering into a group");
            p = c[j];
        }
        sx_near(p, 1.0, 1e-9, "probabilities add up to one");
    }
    sx_reach("cdf");
}
// two matrices compare equal only if they are the same
static void equality(int ng)
{
    auto a = symscat("a", ng, false), b = symscat("b", ng, false);
    if (ng > 2) // fewer patterns: some self-scatter in every group
        for (int i = 0; i < ng; i++) {
            sx_assume(a[i][i] > 0.25);
            sx_assume(b[i][i] > 0.25);
        }
    ScatteringMatrix A(a), B(b);
    bool eq = A == B;
    sx_check((A != B) == !eq, "not-equal is the negation of equal");
    if (eq) {
        for (int i = 0; i < ng; i++)
            for (int j = 0; j < ng; j++)
                sx_near(dense(A, i, j), dense(B, i, j), 1e-12, "equal matrices have equal entries");
        sx_reach("equal");
    } else {
        double d = 0;
        for (int i = 0; i < ng; i++)
            for (int j = 0; j < ng; j++) {
                double e = dense(A, i, j) - dense(B, i, j);
                d += e * e;
            }
        sx_check(d > 0, "unequal matrices differ in some entry");
        sx_reach("unequal");
    }
}

// --- material and region ------------------------------------------------
static void material(int ng)
{
    VecF ab(ng), nf(ng), f(ng), ch(ng);
    for (int i = 0; i < ng; i++) {
        ab[i] = sreal(nm("ab", i), 0.0, 2.0);
        nf[i] = sreal(nm("nf", i), 0.0, 1.0);
        f[i]  = sreal(nm("f", i), 0.0, 1.0);
        ch[i] = sreal(nm("ch", i), 0.0, 1.0);
    }
    std::vector<VecF> s(ng, VecF(ng, 0.0));
    for (int i = 0; i < ng; i++)
        for (int j = 0; j < ng; j++)
            s[i][j] = sreal(nm("s", i, j), 0.01, 2.0);
    Material m(ab, nf, f, ch, s);
    double cs = 0, nfs = 0;
    for (int i = 0; i < ng; i++) {
        cs += ch[i];
        nfs += nf[i];
    }
    for (int i = 0; i < ng; i++) {
        double o = 0;
        for (int j = 0; j < ng; j++)
            o += s[j][i];
        sx_near(m.xstr(i), ab[i] + o, 1e-9, "transport is absorption plus out-scatter");
        sx_near(m.xsab(i), ab[i], 0, "absorption");
        sx_near(m.xsnf(i), nf[i], 0, "nu-fission");
        sx_near(m.xsf(i), f[i], 0, "fission");
        sx_near(m.xsch(i) * cs, ch[i], 1e-9, "fission spectrum keeps its shape");
    }
    double t = 0;
    for (int i = 0; i < ng; i++)
        t += m.xsch(i);
    if (cs > 0)
        sx_near(t, 1.0, 1e-9, "fission spectrum adds up to one");
    sx_check(m.is_fissile() == (nfs > 0), "fissile exactly if it produces fission neutrons");
    sx_reach("material");
    // the region view of the same data, as first built and after an update
    VecF b0(ng, 0.7), b1(ng, 0.0), b2(ng), b3(ng, 0.0), b4(ng);
    std::vector<VecF> s0(ng, VecF(ng, 0.1));
    XSMeshRegion r(VecI(1, 0), b0.data(), b1.data(), b2.data(), b3.data(), b4.data(), ScatteringMatrix(s0));
    VecF tr(ng), chn(ng);
    for (int i = 0; i < ng; i++) {
        tr[i]  = m.xstr(i);
        chn[i] = m.xsch(i);
    }
    for (int i = 0; i < ng; i++)
        sx_near(r.xsmacrm(i), 0.6, 1e-12, "removal is transport less self-scatter");
    sx_check(!r.is_fissile(), "no fission neutrons, not fissile");
    r.update(tr, nf, chn, f, m.xssc());
    for (int i = 0; i < ng; i++) {
        sx_near(r.xsmactr(i), tr[i], 0, "region transport");
        sx_near(r.xsmacnf(i), nf[i], 0, "region nu-fission");
        sx_near(r.xsmacf(i), f[i], 0, "region fission");
        sx_near(r.xsmacch(i), chn[i], 0, "region spectrum");
        sx_near(r.xsmacrm(i), tr[i] - s[i][i], 1e-12, "removal is transport less self-scatter");
        for (int j = 0; j < ng; j++)
            sx_near(dense(r.xsmacsc(), i, j), s[i][j], 1e-12, "region scattering");
    }
    sx_check(r.is_fissile() == (nfs > 0), "a region is fissile exactly if it produces fission neutrons");
    // the transport cross section as read from a file
    for (int i = 0; i < ng; i++)
        b0[i] = sreal(nm("tr", i), 2.0, 9.0);
    r.update_removal();
    for (int i = 0; i < ng; i++)
        sx_near(r.xsmacrm(i), b0[i] - s[i][i], 1e-12, "removal follows the transport cross section");
    for (int i = 0; i < ng; i++)
        b0[i] = tr[i];
    for (int i = 0; i < ng; i++) {
        auto c = r.reaction_cdf(i);
        sx_assume(tr[i] > 0.01);
        double o = 0;
        for (int j = 0; j < ng; j++)
            o += s[j][i];
        sx_near(c[0] * tr[i], o, 1e-9, "chance of scattering");
        sx_near((c[1] - c[0]) * tr[i], f[i], 1e-9, "chance of fission");
        sx_near(c[2], 1.0, 1e-12, "some reaction always happens");
    }
    auto cc = r.chi_cdf();
    double p = 0;
    for (int i = 0; i < ng; i++) {
        sx_near(cc[i] - p, chn[i], 1e-12, "chance of a fission neutron in a group");
        p = cc[i];
    }
    sx_reach("region");
}

// regions compare equal if, and only if, they hold the same data
static void regions()
{
    const int ng = 2;
    int what = sx_choose("what", 5), g = sx_choose("group", ng), other = sx_choose("other", ng);
    VecF a[5], b[5];
    std::vector<VecF> s(ng, VecF(ng)), u;
    for (int k = 0; k < 5; k++)
        for (int i = 0; i < ng; i++)
            a[k].push_back(sreal(nm("v", k, i), 0.5, 2.0));
    for (int i = 0; i < ng; i++)
        for (int j = 0; j < ng; j++)
            s[i][j] = sreal(nm("s", i, j), 0.1, 0.4);
    u = s;
    for (int k = 0; k < 5; k++)
        b[k] = a[k];
    // transport, nu-fission, spectrum, fission, then scattering
    double d = sreal("d", 0.01, 1.0);
    if (what == 0 || what == 1 || what == 3)
        b[what][g] += d;
    if (what == 4)
        u[g][other] += d;
    XSMeshRegion r(VecI(1, 0), a[0].data(), a[1].data(), a[2].data(), a[3].data(), a[4].data(), ScatteringMatrix(s)),
        q(VecI(1, 1), b[0].data(), b[1].data(), b[2].data(), b[3].data(), b[4].data(), ScatteringMatrix(u));
    sx_check((r == q) == (what == 2), "regions are equal exactly if their data is");
    sx_check((q == r) == (what == 2), "regions are equal exactly if their data is");
    sx_reach(what == 2 ? "same" : "different");
}

// --- a small core -------------------------------------------------------
static const char *CORE3 =
    "<mesh id=\"1\" type=\"cyl\" pitch=\"1.2\"><radii>0.3 0.45</radii><sub_radii>2 1</sub_radii><sub_azi>4</sub_azi></mesh>"
    "<mesh id=\"2\" type=\"rect\" pitch=\"1.2\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
    "<pin id=\"1\" mesh=\"1\">1 2 3</pin><pin id=\"2\" mesh=\"2\">3 2</pin><pin id=\"3\" mesh=\"2\">3 3</pin>"
    "<lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 2 </lattice>"
    "<lattice id=\"2\" nx=\"2\" ny=\"1\"> 3 1 </lattice>"
    "<assembly id=\"1\" np=\"3\"><hz>0.9 1.4 0.6</hz><lattices>{ 1 1 } { 2 }</lattices></assembly>"
    "<core nx=\"1\" ny=\"1\" north=\"reflect\" south=\"reflect\" east=\"vacuum\" west=\"reflect\" top=\"reflect\" bottom=\"vacuum\">1</core>";
// material of each fine region, read off the input by hand: the first pin has
// an inner disc of two rings of fuel1, a ring of fuel2 and the moderator, four
// sectors each
static int mat_of(int pin, int reg)
{
    if (pin == 1)
        return reg < 8 ? 0 : reg < 12 ? 1 : 2;
    if (pin == 2)
        return reg == 0 ? 2 : 1;
    return 2;
}
static int nreg_of(int pin)
{
    return pin == 1 ? 16 : 2;
}
// pins of the core, bottom plane first (the input lists the top first)
static const int PINS[3][2] = {{3, 1}, {1, 2}, {1, 2}};

// Cross sections made arbitrary after parsing; blitz arrays are handed out
// by reference to the stored data
static void perturb(const CoreMesh &mesh, int ng)
{
    for (int k = 1; k <= 3; k++) {
        const Material &m = mesh.mat_lib()[k];
        for (int g = 0; g < ng; g++) {
            ArrayB1 a = m.xstr(), b = m.xsnf(), c = m.xsf(), d = m.xsch();
            a(g) = sreal(nm("tr", k, g), 0.3, 2.0);
            b(g) = k < 3 ? sreal(nm("nf", k, g), 0.01, 1.0) : 0.0;
            c(g) = k < 3 ? sreal(nm("f", k, g), 0.01, 1.0) : 0.0;
            d(g) = k < 3 ? sreal(nm("ch", k, g), 0.0, 1.0) : 0.0;
            const ScatteringRow &r = m.xssc().to(g);
            for (int j = r.min_g; j <= r.max_g; j++)
                const_cast<real_t *>(r.from)[j - r.min_g] = sreal(nm("s", 10 * k + g, j), 0.01, 1.0);
        }
    }
}
static inline double val(double x)
{
    return x;
}
struct Fine {
    int plane, col, pin, reg, mat;
    double area;
};
static std::vector<Fine> fine(const CoreMesh &mesh, bool macro)
{
    std::vector<Fine> v;
    for (int p = 0; p < 3; p++) {
        // bottom macroplane is plane 0, the top one planes 1 and 2
        if (macro && p == 2)
            continue;
        for (int c = 0; c < 2; c++) {
            int pin   = PINS[p][c];
            int start = v.size();
            for (int r = 0; r < nreg_of(pin); r++)
                v.push_back({macro ? p : p, c, pin, r, mat_of(pin, r), 0.0});
            // areas from the dimensions
            const double pi = 3.14159265358979323846;
            for (int r = 0; r < nreg_of(pin); r++) {
                double a;
                if (pin == 1) {
                    double r1 = 0.09, r2 = 0.2025;
                    a = r < 8 ? pi * r1 / 8 : r < 12 ? pi * (r2 - r1) / 4 : (1.44 - pi * r2) / 4;
                } else
                    a = 0.72;
                v[start + r].area = a;
            }
        }
    }
    return v;
}
static void mapping()
{
    Doc doc(std::string(CORE3) + matlib());
    CoreMesh mesh(doc);
    int ng = 2;
    perturb(mesh, ng);
    for (int macro = 0; macro < 2; macro++) {
        XSMesh xs(mesh, macro ? MeshTreatment::PLANE : MeshTreatment::TRUE);
        auto f = fine(mesh, macro);
        sx_check(xs.n_reg_expanded() == (int)f.size(), "number of regions covered");
        sx_check((int)mesh.n_reg(macro ? MeshTreatment::PLANE : MeshTreatment::TRUE) == (int)f.size(),
                 "number of regions in the mesh");
        std::vector<int> seen(f.size(), 0);
        for (auto &r : xs)
            for (int i : r.reg()) {
                sx_check(i >= 0 && i < (int)f.size(), "region exists");
                if (i < 0 || i >= (int)f.size())
                    return;
                seen[i]++;
                const Material &m = mesh.mat_lib()[f[i].mat + 1];
                for (int g = 0; g < ng; g++) {
                    sx_near(r.xsmactr(g), m.xstr(g), 0, "transport cross section of the region's material");
                    sx_near(r.xsmacnf(g), m.xsnf(g), 0, "nu-fission of the region's material");
                    sx_near(r.xsmacf(g), m.xsf(g), 0, "fission of the region's material");
                    sx_near(r.xsmacch(g), m.xsch(g), 0, "spectrum of the region's material");
                    for (int j = 0; j < ng; j++)
                        sx_near(scat(r, g, j), dense(m.xssc(), g, j), 0, "scattering of the region's material");
                    sx_near(r.xsmacrm(g), m.xstr(g) - dense(m.xssc(), g, g), 1e-12, "removal");
                }
            }
        for (int s : seen)
            sx_check(s == 1, "every region has exactly one set of cross sections");
    }
    sx_reach("mapping");
}
// volume- and flux-weighted homogenization
static void homog(bool weighted)
{
    Doc doc(std::string(CORE3) + matlib());
    CoreMesh mesh(doc);
    int ng = 2, col = sx_param("COL", 0), mp = sx_param("MP", 0);
    if (!weighted)
        perturb(mesh, ng);
    else // a transport-corrected moderator may have negative self-scatter
        const_cast<real_t *>(mesh.mat_lib()[3].xssc().to(0).from)[0] = -0.05;
    auto f = fine(mesh, true);
    XSMeshHomogenized xs(mesh);
    sx_check((int)xs.size() == 4, "one set of cross sections per pin and macroplane");
    sx_check(xs.n_reg_expanded() == 6, "number of cells covered");
    ArrayB2 flux(f.size(), ng);
    flux = 1.0;
    if (weighted) {
        // only the pin under examination gets symbolic flux
        for (int i = 0; i < (int)f.size(); i++)
            for (int g = 0; g < ng; g++)
                flux(i, g) = f[i].plane == mp && f[i].col == col && (f[i].reg % 6 == 1 || f[i].pin != 1)
                                 ? sreal(nm("phi", i, g), 0.1, 10.0)
                                 : 1.0 + 0.3 * ((i * 7 + g * 3) % 11);
        int st = xs.state();
        xs.set_flux(flux);
        xs.update();
        sx_check(xs.state() != st, "an update is announced");
    }
    const XSMeshRegion &r = xs[mp * 2 + col];
    // cells of the region
    std::vector<int> want;
    for (int p = 0; p < 3; p++)
        if ((p > 0) == (mp > 0))
            want.push_back(p * 2 + col);
    sx_check(r.reg() == want, "cells that use the homogenized pin");
    double A = 0, fs = 0;
    std::vector<double> fsr(f.size(), 0.0);
    for (int i = 0; i < (int)f.size(); i++)
        if (f[i].plane == mp && f[i].col == col) {
            A += f[i].area;
            const Material &m = mesh.mat_lib()[f[i].mat + 1];
            for (int g = 0; g < ng; g++)
                fsr[i] += m.xsnf(g) * flux(i, g) * f[i].area;
            fs += fsr[i];
        }
    for (int g = 0; g < ng; g++) {
        double w = 0, tr = 0, nf = 0, ff = 0, ch = 0;
        std::vector<double> s(ng, 0.0), wg(ng, 0.0);
        for (int i = 0; i < (int)f.size(); i++)
            if (f[i].plane == mp && f[i].col == col) {
                const Material &m = mesh.mat_lib()[f[i].mat + 1];
                double v          = flux(i, g) * f[i].area;
                w += v;
                tr += m.xstr(g) * v;
                nf += m.xsnf(g) * v;
                ff += m.xsf(g) * v;
                ch += m.xsch(g) * fsr[i];
                for (int j = 0; j < ng; j++) {
                    s[j] += dense(m.xssc(), g, j) * flux(i, j) * f[i].area;
                    wg[j] += flux(i, j) * f[i].area;
                }
            }
        sx_observe(nm("tr", g).c_str(), r.xsmactr(g));
        sx_near(r.xsmactr(g) * w, tr, 1e-9, "collision rate is preserved");
        sx_near(r.xsmacnf(g) * w, nf, 1e-9, "fission neutron production is preserved");
        sx_near(r.xsmacf(g) * w, ff, 1e-9, "fission rate is preserved");
        sx_near(r.xsmacch(g) * fs, ch, 1e-9, "fission neutrons emitted in the group are preserved");
        for (int j = 0; j < ng; j++)
            sx_near(scat(r, g, j) * wg[j], s[j], 1e-9, "scattering rate is preserved");
        sx_near(r.xsmacrm(g), r.xsmactr(g) - scat(r, g, g), 1e-9, "removal is transport less self-scatter");
    }
    sx_check(r.is_fissile() == (fs > 0), "fissile exactly if it produces fission neutrons");
    sx_reach("homog");
}
static void expanded()
{
    Doc doc(std::string(CORE3) + matlib());
    CoreMesh mesh(doc);
    auto f = fine(mesh, true);
    int ng = 2, n = f.size();
    XSMeshHomogenized xs(mesh);
    n = xs.n_reg_expanded();
    ExpandedXS e(&xs);
    ExpandedXS shared(e);
    ArrayB1 split(n), none;
    for (int i = 0; i < n; i++)
        split(i) = sreal(nm("sp", i), 0.0, 1.0);
    ArrayB2 flux(f.size(), ng);
    for (int i = 0; i < (int)f.size(); i++)
        for (int g = 0; g < ng; g++)
            flux(i, g) = i == 5 ? sreal(nm("phi", i, g), 0.1, 10.0) : 1.0;
    int last = 0;
    bool sp  = false;
    for (int k = 0; k < 3; k++) {
        int op = sx_choose(nm("op", k).c_str(), 5);
        if (op == 4) {
            xs.set_flux(flux);
            xs.update();
            op = last;
            sp = false;
            shared.expand(op);
        } else {
            last = op & 1;
            sp   = op >= 2;
            auto &t = k == 1 ? shared : e;
            if (sp)
                t.expand(last, split);
            else
                t.expand(last, none);
        }
        for (auto &r : xs)
            for (int i : r.reg()) {
                sx_near(e[i], r.xsmactr(last) + (sp ? split(i) : 0.0), 1e-9,
                        "expanded values are those of the group last asked for");
                sx_near(shared.xs()(i), e[i], 0, "sharing objects see the same values");
            }
    }
    sx_reach("expanded");
}
static void source()
{
    Doc doc(std::string(CORE3) + matlib());
    CoreMesh mesh(doc);
    int ng = 2, which = sx_param("WITHXS", 0);
    XSMesh xs(mesh, MeshTreatment::PLANE);
    auto f = fine(mesh, true);
    int n  = f.size();
    ArrayB2 flux(n, ng);
    ArrayB1 fs(n), aux(n), tr(n);
    for (int i = 0; i < n; i++) {
        fs(i)  = sreal(nm("fs", i), 0.0, 100.0);
        aux(i) = sreal(nm("aux", i), -100.0, 100.0);
        tr(i)  = i == 1 ? sreal("tr", 1e-4, 50.0) : (i % 3 == 0 ? 3e-4 : i % 3 == 1 ? 0.7 : 21.0) * (1 + 0.01 * i);
        for (int g = 0; g < ng; g++)
            flux(i, g) = sreal(nm("phi", i, g), 0.0, 100.0);
    }
    SourceIsotropic q(n, &xs, flux);
    // an external source: one row of regions per group
    int EXT = sx_param("EXT", 0);
    ArrayB2 ext(ng, n);
    for (int i = 0; i < n; i++)
        for (int g = 0; g < ng; g++)
            ext(g, i) = EXT ? 0.25 * (g + 1) + 0.0625 * i : 0.0;
    if (EXT) {
        {
            H5Node file("ext.h5", H5Access::WRITE);
            file.write("/source", ext);
        }
        Doc node("<source file=\"ext.h5\"/>");
        q.add_external(node.child("source"));
    }
    const double fpi = 4 * 3.14159265358979323846;
    // twice over, so that nothing is left from the previous group
    for (int k = 0; k < 3; k++) {
        int g = sx_choose(nm("g", k).c_str(), ng);
        q.initialize_group(g);
        int order = sx_choose(nm("order", k).c_str(), 2);
        if (order == 0) {
            q.fission(fs, g);
            q.in_scatter(g);
        } else {
            q.in_scatter(g);
            q.fission(fs, g);
        }
        q.auxiliary(aux);
        // inner iterations change the flux and redo the self scatter only
        for (int in = 0; in < 2; in++) {
            if (which)
                q.self_scatter(g, tr);
            else
                q.self_scatter(g);
            auto &t = q.get_transport(0);
            for (int i = 0; i < n; i++) {
                const Material &m = mesh.mat_lib()[f[i].mat + 1];
                double x          = m.xsch(g) * fs(i) + aux(i) + ext(g, i);
                for (int j = 0; j < ng; j++)
                    if (j != g)
                        x += dense(m.xssc(), g, j) * flux(i, j);
                sx_near(q[i], x, 1e-9, "source before self-scatter");
                x += dense(m.xssc(), g, g) * flux(i, g);
                sx_near(t[i], x / (which ? fpi * tr(i) : fpi), 1e-9, "emission density per unit angle");
            }
            if (k == 1)
                for (int i = 0; i < n; i++)
                    flux(i, g) = flux(i, g) * 0.5 + 0.25;
        }
        q.scale(VecF(n, 3.0));
    }
    sx_reach("source");
}
extern "C" void sx_main()
{
    write_xslib();
    int ng = sx_param("NG", 3);
    switch (sx_param("PART", 0)) {
    case 0: matrix(ng); break;
    case 1: cdf(ng); break;
    case 2: equality(ng); break;
    case 3: material(ng); break;
    case 4: mapping(); break;
    case 5: homog(false); break;
    case 6: homog(true); break;
    case 7: expanded(); break;
    case 8: source(); break;
    case 9: regions(); break;
    }
}

// The Sn sweep on a small core: neutron balance of every cell, including the
// currents handed to the coarse mesh, and agreement of the scalar flux with
// the diamond-difference equations solved independently, for every initial
// flux and every fission source.
#include "common.hpp"
#include "core/angular_quadrature.hpp"
#include "core/coarse_data.hpp"
#include "core/exponential.hpp"
#include "sweepers/sn_sweeper_factory.hpp"
#include "sweepers/cmdo/correction_data.hpp"
#include "sweepers/cmdo/sn_sweeper_factory_cdd.hpp"
#include "sweepers/sn/sn_sweeper.hpp"
using namespace mocc;

extern "C" void sx_main()
{
    int BCS = sx_param("BCS", 0), TWOD = sx_param("TWOD", 0), INNER = sx_param("INNER", 1),
        GROUP = sx_param("GROUP", 0), GS = sx_param("GS", 0), SC = sx_param("SC", 0), REF = sx_param("REF", 0),
        SWEEPS = sx_param("SWEEPS", 1), CDD = sx_param("CDD", 0), MACRO = sx_param("MACRO", 0);
    bool FF = SC == 3;
    static const char *AXIAL[] = {"dd", "sc", "fw", "dd_ff", "pmb"}; // SC
    write_xslib();
    Bcs b;
    if (BCS == 1)
        b.n = b.s = b.e = b.w = b.t = b.b = "reflect";
    if (BCS == 2)
        b.e = b.s = b.b = "reflect";
    if (BCS == 3)
        b.n = b.w = b.t = "reflect";
    std::string xml = "<mesh id=\"1\" type=\"rect\" pitch=\"1.2\"><sub_x>1</sub_x><sub_y>1</sub_y></mesh>"
                      "<pin id=\"1\" mesh=\"1\">1</pin><pin id=\"2\" mesh=\"1\">2</pin><pin id=\"3\" mesh=\"1\">3</pin>"
                      "<lattice id=\"1\" nx=\"3\" ny=\"2\"> 1 2 3  2 3 1 </lattice>"
                      "<lattice id=\"2\" nx=\"3\" ny=\"2\"> 3 3 2  1 1 3 </lattice>";
    if (TWOD) {
        b.t = b.b = "reflect";
        xml += "<assembly id=\"1\" np=\"1\" hz=\"1.0\"><lattices>1</lattices></assembly>";
    } else if (sx_param("THICK", 0))
        xml += "<assembly id=\"1\" np=\"2\"><hz>9 14</hz><lattices>1 2</lattices></assembly>";
    else if (MACRO)
        xml += "<assembly id=\"1\" np=\"3\"><hz>0.9 1.4 0.6</hz><lattices>{ 1 1 } { 2 }</lattices></assembly>";
    else
        xml += "<assembly id=\"1\" np=\"2\"><hz>0.9 1.4</hz><lattices>1 2</lattices></assembly>";
    xml += "<core nx=\"1\" ny=\"1\"" + bc_attr(b) + ">1</core>";
    xml += matlib();
    Doc doc(xml);
    CoreMesh mesh(doc);
    Doc sw(std::string("<sweeper type=\"sn\" equation=\"") + (CDD ? "cdd" : "dd") + "\" axial=\"" + AXIAL[SC] + "\" boundary_update=\"" +
           (GS ? "gs" : "jacobi") + "\" n_inner=\"" + std::to_string(INNER) +
           "\"><ang_quad type=\"ls\" order=\"4\"/><source scattering=\"P0\"/></sweeper>");
    sn::UP_SnSweeper_t sn;
    std::shared_ptr<CorrectionData> cor;
    if (CDD) {
        auto pr = cmdo::SnSweeperFactory_CDD(sw.child("sweeper"), mesh);
        sn      = std::move(pr.first);
        cor     = pr.second;
        int np  = mesh.nx() * mesh.ny() * mesh.macroplanes().size();
        sx_check(cor->n_cell() == np, "correction factors by macroplane");
        for (int g = 0; g < (int)sn->n_group(); g++)
            for (int a = 0; a < sn->ang_quad().ndir() / 2; a++)
                for (int i = 0; i < np; i++) {
                    int k = i + 7 * a + 3 * g;
                    cor->alpha(i, a, g, Normal::X_NORM) = 0.5 + 0.01 * (k % 5);
                    cor->alpha(i, a, g, Normal::Y_NORM) = 0.53 - 0.01 * (k % 7);
                    cor->beta(i, a, g)                  = 0.97 + 0.01 * (k % 6);
                }
    } else
        sn = SnSweeperFactory(sw.child("sweeper"), mesh);
    sn->initialize();
    auto src = sn->create_source(sw.child("sweeper").child("source"));
    sn->assign_source(src.get());
    CoarseData cd(mesh, sn->n_group());
    sn->set_coarse_data(&cd);
    int n  = sn->n_reg();
    int ng = sn->n_group();
    sx_check(n == (int)(mesh.nx() * mesh.ny() * mesh.nz()), "one Sn region per pin and plane");
    for (int i = 0; i < n; i++)
        for (int g = 0; g < ng; g++)
            sn->flux()(i, g) = FF ? 0.5 + 0.1 * ((5 * i + g) % 9) : sreal(nm("phi", i, g), 0.5, 2.0);
    ArrayB1 fs(n);
    for (int i = 0; i < n; i++)
        fs(i) = FF ? 0.02 : sreal(nm("fs", i), 1.0, 2.0);
    if (FF) // the fixup branches on the flux: two degrees of freedom
        fs(1) = sreal("fs1", 0.0, 40.0), fs(n - 3) = sreal("fs2", 0.0, 40.0);
    ArrayB2 old(n, ng);
    old    = sn->flux();
    int g  = GROUP;
    int nx = mesh.nx(), ny = mesh.ny(), nz = mesh.nz();
    // cross sections by cell
    std::vector<double> xstr(n), qx(n);
    std::vector<double> self(n), chi(n);
    std::vector<int> seen(n, 0);
    for (auto &xsr : sn->xs_mesh())
        for (int i : xsr.reg()) {
            seen[i]++;
            xstr[i] = xsr.xsmactr(g);
            self[i] = scat(xsr, g, g);
            double q = xsr.xsmacch(g) * fs(i);
            for (int gg = 0; gg < ng; gg++)
                if (gg != g)
                    q += scat(xsr, g, gg) * old(i, gg);
            qx[i] = q;
        }
    for (int i = 0; i < n; i++)
        sx_check(seen[i] == 1, "every cell has cross sections");
    for (int s = 0; s < SWEEPS; s++) {
        src->initialize_group(g);
        src->fission(fs, g);
        src->in_scatter(g);
        if (s == SWEEPS - 1)
            for (int i = 0; i < n; i++)
                old(i, g) = sn->flux()(i, g);
        sn->sweep(g);
    }
    for (int i = 0; i < n; i++)
        sx_observe(nm("phi", i).c_str(), sn->flux()(i, g));
    for (int i = 0; i < n; i++)
        for (int gg = 0; gg < ng; gg++)
            if (gg != g)
                sx_near(sn->flux()(i, gg), old(i, gg), 1e-12, "other groups' flux is untouched");
    if (INNER == 1) {
        const Surface S[] = {Surface::EAST, Surface::NORTH, Surface::WEST, Surface::SOUTH, Surface::TOP, Surface::BOTTOM};
        const double sg[] = {1, 1, -1, -1, 1, -1};
        for (int i = 0; i < n; i++) {
            double leak = 0;
            for (int s = 0; s < (TWOD ? 4 : 6); s++)
                leak += sg[s] * cd.current(mesh.coarse_surf(i, S[s]), g) * mesh.coarse_area(i, S[s]);
            double vol = mesh.coarse_volume(i);
            sx_near(leak + xstr[i] * sn->flux()(i, g) * vol, (qx[i] + self[i] * old(i, g)) * vol, 1e-8,
                    "cell balance: leakage plus collisions equals source");
        }
        sx_reach("balance");
    }
    if (REF) {
        // independent solution of the diamond-difference equations; boundary
        // values start isotropic and are exchanged by mirror direction
        AngularQuadrature aq(sw.child("sweeper").child("ang_quad"));
        int na = TWOD ? aq.ndir() / 2 : aq.ndir();
        int nd = TWOD ? 2 : 3, ext[3] = {nx, ny, nz};
        double sumw = 0;
        for (int a = 0; a < na; a++)
            sumw += aq[a].weight;
        auto cell = [&](const int *c) { return (c[2] * ny + c[1]) * nx + c[0]; };
        auto area = [&](int d, int c) { return d == 0 ? mesh.dx(c) : d == 1 ? mesh.dy(c) : mesh.dz(c); };
        auto reflects = [&](int d, bool hi) {
            const char *k = d == 0 ? (hi ? b.e : b.w) : d == 1 ? (hi ? b.n : b.s) : (hi ? b.t : b.b);
            return k[0] == 'r';
        };
        // in[a][d][face cell]: incoming angular flux
        std::vector<std::array<std::vector<double>, 3>> in(na), nxt(na);
        const double start = 1.0 / FPI;
        for (int a = 0; a < na; a++)
            for (int d = 0; d < nd; d++) {
                double dir = d == 0 ? aq[a].ox : d == 1 ? aq[a].oy : aq[a].oz;
                in[a][d].assign(n, reflects(d, dir < 0) ? start : 0.0);
            }
        ArrayB1 ph0(n);
        for (int i = 0; i < n; i++)
            ph0(i) = old(i, g);
        std::vector<double> net(mesh.n_surf()), sfl(mesh.n_surf());
        // psi is in-weight * in + out-weight * out in each dimension; CDD
        // scales the two by the factors of the cell's macroplane
        auto weights = [&](int a, int d, const int *c, int i, double &wi, double &wo) {
            wi = wo = 0.5;
            if (d < 2 && CDD && SC != 4) {
                int ia = mesh.macroplane_index()[c[2]] * nx * ny + c[1] * nx + c[0], a2 = a % (aq.ndir() / 2);
                wi = wo = cor->alpha(ia, a2, g, d ? Normal::Y_NORM : Normal::X_NORM) * cor->beta(ia, a2, g);
            }
            if (d == 2 && SC == 1) {
                double tau = xstr[i] * mesh.dz(c[2]) / std::fabs(aq[a].oz);
                wi         = 1 / tau - 1 / (std::exp(tau) - 1);
                wo         = 1 - wi;
            }
            if (d == 2 && SC == 2)
                wi = 0, wo = 1;
        };
        for (int it = 0; it < INNER; it++) {
            std::vector<double> q(n), t(n, 0.0);
            std::fill(net.begin(), net.end(), 0.0);
            std::fill(sfl.begin(), sfl.end(), 0.0);
            for (int i = 0; i < n; i++)
                q[i] = (qx[i] + self[i] * ph0(i)) / FPI;
            nxt = in;
            for (int a = 0; a < na; a++) {
                double w      = aq[a].weight * FPI / sumw;
                double dir[3] = {aq[a].ox, aq[a].oy, aq[a].oz};
                auto face     = in[a];
                int c[3];
                int ez = TWOD ? 1 : nz;
                for (int kz = 0; kz < ez; kz++)
                    for (int ky = 0; ky < ny; ky++)
                        for (int kx = 0; kx < nx; kx++) {
                            c[0]  = dir[0] > 0 ? kx : nx - 1 - kx;
                            c[1]  = dir[1] > 0 ? ky : ny - 1 - ky;
                            c[2]  = TWOD ? 0 : dir[2] > 0 ? kz : nz - 1 - kz;
                            int i = cell(c);
                            double num = q[i], den = xstr[i];
                            double *f[3];
                            for (int d = 0; d < nd; d++) {
                                int o[3] = {c[0], c[1], c[2]};
                                o[d]     = 0;
                                f[d]     = &face[d][cell(o)];
                                // incoming partial on the domain boundary
                                bool first = dir[d] > 0 ? c[d] == 0 : c[d] == ext[d] - 1;
                                if (first) {
                                    Surface s = d == 0 ? (dir[0] > 0 ? Surface::WEST : Surface::EAST)
                                              : d == 1 ? (dir[1] > 0 ? Surface::SOUTH : Surface::NORTH)
                                                       : (dir[2] > 0 ? Surface::BOTTOM : Surface::TOP);
                                    net[mesh.coarse_surf(i, s)] += w * dir[d] * *f[d];
                                    sfl[mesh.coarse_surf(i, s)] += w * *f[d];
                                }
                                double wi, wo, k = std::fabs(dir[d]) / area(d, c[d]);
                                weights(a, d, c, i, wi, wo);
                                num += k * (wi / wo + 1) * *f[d];
                                den += k / wo;
                            }
                            double psi = num / den;
                            t[i] += w * psi;
                            for (int d = 0; d < nd; d++) {
                                double wi, wo;
                                weights(a, d, c, i, wi, wo);
                                *f[d] = (psi - wi * *f[d]) / wo;
                                Surface s = d == 0 ? (dir[0] < 0 ? Surface::WEST : Surface::EAST)
                                          : d == 1 ? (dir[1] < 0 ? Surface::SOUTH : Surface::NORTH)
                                                   : (dir[2] < 0 ? Surface::BOTTOM : Surface::TOP);
                                net[mesh.coarse_surf(i, s)] += w * dir[d] * *f[d];
                                sfl[mesh.coarse_surf(i, s)] += w * *f[d];
                            }
                        }
                // hand the outgoing values to the mirrored directions
                for (int d = 0; d < nd; d++) {
                    int m = -1;
                    for (int k = 0; k < na; k++) {
                        bool ok = true;
                        for (int e = 0; e < 3; e++) {
                            double de = e == 0 ? aq[k].ox : e == 1 ? aq[k].oy : aq[k].oz;
                            if (TWOD && e == 2)
                                continue;
                            ok = ok && std::fabs(de - (e == d ? -dir[e] : dir[e])) < 1e-9;
                        }
                        if (ok)
                            m = k;
                    }
                    if (m < 0)
                        sx_fail("every direction has its mirror image in the quadrature");
                    bool hi = dir[d] > 0;
                    auto &dst = GS ? in : nxt;
                    dst[m][d] = reflects(d, hi) ? face[d] : std::vector<double>(n, 0.0);
                }
            }
            if (!GS)
                in = nxt;
            for (int i = 0; i < n; i++)
                ph0(i) = t[i];
        }
        // step characteristics goes through the exponential table
        const double TOL = SC == 1 ? 1e-4 : 1e-7;
        for (int i = 0; i < n; i++)
            sx_near(sn->flux()(i, g), ph0(i), TOL, "the flux solves the discrete-ordinates equations");
        for (int i = 0; i < n; i++)
            for (int s = 0; s < (TWOD ? 4 : 6); s++) {
                int is = mesh.coarse_surf(i, AllSurfaces[s]);
                sx_near(cd.current(is, g), net[is], TOL, "the coarse current is the net flow through the surface");
                sx_near(cd.surface_flux(is, g), sfl[is], TOL, "the coarse surface flux is the flux on the surface");
            }
        sx_reach("reference");
    }
    sx_reach("swept");
}

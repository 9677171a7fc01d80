// The coarse-mesh finite difference system: for any transport currents,
// surface fluxes and cell fluxes handed to it, the linear system it builds is
// the neutron balance of each coarse cell, the currents it returns satisfy that
// balance, and nothing changes when the solution is the flux it started from.
#include "common.hpp"
#include <array>
#include <iostream>
#include <map>
#include <memory>
#include <unordered_map>
#ifndef PUBLIC_ONLY
#define private public
#endif
#include "core/cmfd.hpp"
#undef private
#include "core/xs_mesh_homogenized.hpp"
using namespace mocc;

// The preconditioner of the linear solver plays no part in the runs that do not
// solve the system.
extern "C" void *sx_noprec(void *self, const void *)
{
    return self;
}

extern "C" void sx_main()
{
    int PLANES = sx_param("PLANES", 2), BCS = sx_param("BCS", 0), DR = sx_param("DR", 1), DA = sx_param("DA", 1),
        SAME = sx_param("SAME", 0), PART = sx_param("PART", 0), SYM = sx_param("SYM", 0);
    write_xslib();
    Bcs b;
    if (BCS == 1)
        b.n = b.e = b.t = "reflect";
    if (BCS == 2)
        b.s = b.w = b.b = "reflect";
    std::string xml = "<mesh id=\"1\" type=\"rect\" pitch=\"1.2\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
                      "<pin id=\"1\" mesh=\"1\">1 3</pin><pin id=\"2\" mesh=\"1\">2 3</pin>"
                      "<pin id=\"3\" mesh=\"1\">1 2</pin>";
    int NX = sx_param("NX", 2), NY = sx_param("NY", 1);
    if (PART == 1) {
        NX = NY = 1;
        xml += "<lattice id=\"1\" nx=\"1\" ny=\"1\"> 2 </lattice>";
        PLANES = 1;
    } else
        for (int l = 1; l < 3; l++) {
            std::string n = " nx=\"" + std::to_string(NX) + "\" ny=\"" + std::to_string(NY) + "\">";
            xml += "<lattice id=\"" + std::to_string(l) + "\"" + n;
            for (int i = 0; i < NX * NY; i++)
                xml += l == 1 ? " 1\0 2\0 3\0 1" + 3 * (i % 4) : " 3\0 1\0 1\0 2" + 3 * (i % 4);
            xml += " </lattice>";
        }
    std::vector<double> hz;
    std::vector<int> mp; // macroplane of each plane
    if (PLANES == 1) {
        xml += "<assembly id=\"1\" np=\"1\"><hz>1.5</hz><lattices>1</lattices></assembly>";
        hz = {1.5};
        mp = {0};
    } else if (PLANES == 2) {
        xml += "<assembly id=\"1\" np=\"2\"><hz>0.9 1.4</hz><lattices>1 2</lattices></assembly>";
        hz = {1.4, 0.9}; // the input lists planes top first
        mp = {0, 1};
    } else {
        xml += "<assembly id=\"1\" np=\"3\"><hz>0.9 1.4 0.6</hz><lattices>{ 1 1 } { 2 }</lattices></assembly>";
        hz = {0.6, 1.4, 0.9};
        mp = {0, 1, 1};
    }
    xml += "<core nx=\"1\" ny=\"1\"" + bc_attr(b) + ">1</core>" + matlib();
    Doc doc(xml);
    CoreMesh mesh(doc);
    auto xsm = std::make_shared<XSMeshHomogenized>(mesh);
    Doc in("<cmfd max_iter=\"0\"/>");
    CMFD cmfd(in.child("cmfd"), &mesh, xsm);
    CoarseData &cd = cmfd.coarse_data();
    int nz = hz.size(), nmp = mp.back() + 1, ng = 2, NP = NX * NY, nc = NP * nmp, ns = mesh.n_surf();
    sx_check((int)mesh.nz() == nz && (int)mesh.n_surf() == cd.current.extent(0) && cd.flux.extent(0) == nc,
             "coarse arrays have the size of the mesh");
    std::vector<double> H(nmp, 0.0);
    for (int z = 0; z < nz; z++)
        H[mp[z]] += hz[z];
    double P = 1.2;
    // cross sections of each coarse cell
    std::vector<std::array<double, 2>> tr(nc), nf(nc), chi(nc);
    std::vector<std::array<std::array<double, 2>, 2>> sc(nc);
    std::vector<int> seen(nc, 0);
#ifdef PUBLIC_ONLY
    for (const auto &x : *xsm)
#else
    for (const auto &x : cmfd.xsmesh_)
#endif
        for (int i : x.reg()) {
            seen[i]++;
            for (int g = 0; g < ng; g++) {
                tr[i][g]  = x.xsmactr(g);
                nf[i][g]  = x.xsmacnf(g);
                chi[i][g] = x.xsmacch(g);
                for (int f = 0; f < ng; f++)
                    sc[i][g][f] = scat(x, g, f);
            }
        }
    for (int i = 0; i < nc; i++)
        sx_check(seen[i] == 1, "every coarse cell has cross sections");
    if (PART == 1) {
        // one cell, one outer iteration of the whole solve
        ArrayB2 f0(1, ng);
        double t0 = 0;
        for (int g = 0; g < ng; g++) {
            f0(0, g) = cd.flux(0, g) = g == SYM ? sreal(nm("phi", g), 0.5, 2.0) : 1.0 + 0.3 * g;
            t0 += nf[0][g] * f0(0, g);
        }
        double k = SYM == 2 ? sreal("k", 0.5, 1.5) : 1.1, k0 = k;
        cmfd.solve(k);
        double dl[6], A[] = {P * hz[0], P * hz[0], P * hz[0], P * hz[0], P * P, P * P}, h[] = {P, P, P, P, hz[0], hz[0]};
        double L[2], f1[2], t1 = 0, V = P * P * hz[0];
        const char *bc[] = {b.e, b.n, b.w, b.s, b.t, b.b};
        for (int g = 0; g < ng; g++) {
            double D = 1.0 / (3 * tr[0][g]), lk = 0;
            for (int s = 0; s < 6; s++) {
                dl[s] = bc[s][0] == 'v' ? 2 * (D / h[s]) * 0.25 / (D / h[s] + 0.25) : 0;
                lk += dl[s] * A[s];
            }
            double q = chi[0][g] * t0 / k0;
            for (int f = 0; f < ng; f++)
                if (f != g)
                    q += sc[0][g][f] * (f < g ? f1[f] : f0(0, f));
            f1[g] = q * V / (lk + V * (tr[0][g] - sc[0][g][g]));
            t1 += nf[0][g] * f1[g];
            sx_near(cd.flux(0, g), f1[g], 1e-9, "the flux solves the cell balance");
        }
        sx_near(k * t0, k0 * t1, 1e-9, "k follows the fission rate");
        sx_observe("k", k);
        sx_reach("one cell");
        return;
    }
#ifndef PUBLIC_ONLY
    for (int i = 0; i < nc; i++)
        for (int g = 0; g < ng; g++)
            cd.flux(i, g) = sreal(nm("phi", i, g), 1e-4, 2.0);
    for (int s = 0; s < ns; s++)
        for (int g = 0; g < ng; g++) {
            cd.current(s, g)      = sreal(nm("J", s, g), -0.1, 0.1);
            cd.surface_flux(s, g) = sreal(nm("sf", s, g), 1e-4, 2.0);
        }
    ArrayB2 J0(ns, ng), S0(ns, ng), F0(nc, ng), F1(nc, ng);
    J0 = cd.current;
    S0 = cd.surface_flux;
    F0 = cd.flux;
    cd.set_has_radial_data(DR);
    cd.set_has_axial_data(DA);
    double k = sreal("k", 0.5, 1.5);
    cmfd.setup_solve();
    cmfd.fission_source(k);
    double tf = 0;
    for (int i = 0; i < nc; i++)
        for (int g = 0; g < ng; g++)
            tf += nf[i][g] * F0(i, g);
    if (SAME)
        F1 = F0;
    else
        for (int i = 0; i < nc; i++)
            for (int g = 0; g < ng; g++)
                F1(i, g) = sreal(nm("psi", i, g), 1e-4, 2.0);
    ArrayB2 R(nc, ng);
    for (int g = 0; g < ng; g++) {
        cmfd.source_.initialize_group(g);
        cmfd.source_.fission(cmfd.fs_, g);
        cmfd.source_.in_scatter(g);
        cmfd.source_.scale(cmfd.mesh_.coarse_volume());
        for (int i = 0; i < nc; i++)
            cmfd.x_[i] = F1(i, g);
        Eigen::Matrix<real_t, Eigen::Dynamic, 1> r = cmfd.m_[g] * cmfd.x_ - cmfd.source_.get();
        for (int i = 0; i < nc; i++)
            R(i, g) = r[i];
    }
    cd.flux = F1;
    cmfd.store_currents();
    const Surface S[] = {Surface::EAST, Surface::NORTH, Surface::WEST, Surface::SOUTH, Surface::TOP, Surface::BOTTOM};
    const char *bc[]  = {b.e, b.n, b.w, b.s, b.t, b.b};
    const double sg[] = {1, 1, -1, -1, 1, -1};
    for (int i = 0; i < nc; i++)
        for (int g = 0; g < ng; g++) {
            int x = i % NX, y = i / NX % NY, m = i / NP, z0 = 0;
            while (mp[z0] != m)
                z0++;
            int z1 = z0;
            while (z1 + 1 < nz && mp[z1 + 1] == m)
                z1++;
            double V = P * P * H[m], q = 0, leak = 0;
            for (int f = 0; f < ng; f++)
                q += chi[i][g] * nf[i][f] * F0(i, f) / k;
            for (int f = 0; f < ng; f++)
                if (f != g)
                    q += sc[i][g][f] * F0(i, f);
            for (int s = 0; s < 6; s++) {
                // coarse current over this face, from the stored fine one
                double area = s < 4 ? P * H[m] : P * P, h = s < 4 ? P : H[m], lk = 0, in = 0, sin = 0, sout = 0;
                int a = s == 5 ? z0 : (s == 4 ? z1 : z0), c = s == 5 ? z0 : z1;
                for (int z = a; z <= c; z++) {
                    Position p(x, y, z);
                    int fs    = mesh.coarse_surf(mesh.coarse_cell(p), S[s]);
                    double fa = s < 4 ? P * hz[z] : P * P;
                    lk += sg[s] * cd.current(fs, g) * fa;
                    in += sg[s] * J0(fs, g) * fa;
                    sin += S0(fs, g) * fa;
                    sout += cd.surface_flux(fs, g) * fa;
                    sx_near(cd.partial_current(fs, g)[0] - cd.partial_current(fs, g)[1], cd.current(fs, g), 1e-9,
                            "partial currents differ by the net current");
                    sx_near(cd.partial_current(fs, g)[0] + cd.partial_current(fs, g)[1], 0.5 * cd.surface_flux(fs, g),
                            1e-9, "partial currents add up to half the surface flux");
                }
                leak += lk;
                bool outer = s == 0 ? x == NX - 1 : s == 2 ? x == 0 : s == 4 ? m == nmp - 1 : s == 5 ? m == 0 : s == 1 ? y == NY - 1 : y == 0;
                bool data  = s < 4 ? DR : DA;
                if (data && SAME) {
                    sx_near(lk, in, 1e-9, "the currents given are the currents returned when the flux is unchanged");
                    sx_near(sout, sin, 1e-9, "the surface flux given is returned when the flux is unchanged");
                }
                if (!data) {
                    double D = 1.0 / (3 * tr[i][g]) / h, d2 = 0.25, fr = 0;
                    if (!outer) {
                        int j     = s == 0 ? i + 1 : s == 2 ? i - 1 : s == 1 ? i + NX : s == 3 ? i - NX : s == 4 ? i + NP : i - NP;
                        double hj = s < 4 ? P : H[j / NP];
                        d2        = 1.0 / (3 * tr[j][g]) / hj;
                        fr        = F1(j, g);
                    } else if (bc[s][0] == 'r')
                        d2 = 0;
                    sx_near(lk, area * 2 * D * d2 / (D + d2) * (F1(i, g) - fr), 1e-9, "diffusion current");
                    sx_near(sout, area * (D * F1(i, g) + d2 * fr) / (D + d2), 1e-9, "diffusion surface flux");
                    sx_reach("diffusion");
                }
            }
            sx_near(R(i, g), leak + V * (tr[i][g] - sc[i][g][g]) * F1(i, g) - V * q, 1e-8,
                    "the linear system is the balance of the returned currents");
            sx_observe(nm("R", i, g).c_str(), R(i, g));
        }
    for (int z = 1; z < nz; z++)
        if (mp[z] == mp[z - 1])
            for (int x = 0; x < NP; x++)
                for (int g = 0; g < ng; g++)
                    sx_near(cd.current(mesh.coarse_surf(mesh.coarse_cell(Position(x % NX, x / NX, z)), Surface::BOTTOM), g), 0,
                            1e-12, "no current is claimed inside a macroplane");
    sx_reach("balance");
#endif
}

// The 2D3D sweep: what it hands from sweeper to sweeper.  The flux of every
// plane must be that of a MoC sweep of the plane with the axial leakage as
// source, the Sn flux that of an Sn sweep with the correction factors.  The two
// stand-alone sweeps are covered by properties of their own.
#include <array>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include "common.hpp"
#include "core/angular_quadrature.hpp"
#include "core/coarse_data.hpp"
#include "util/timers.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#define private public
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#undef private
using namespace mocc;

// correction factors and homogenized cross sections keep the values they have:
// both are rational in the flux and have checks of their own
extern "C" __attribute__((used)) void sx_nofactors(void *, size_t, size_t)
{
}
extern "C" __attribute__((used)) void sx_nohomog(void *)
{
}
struct Three {
    double v[3];
};
extern "C" __attribute__((used)) Three sx_noresid(void *)
{
    return {{0, 0, 0}};
}
extern "C" void sx_main()
{
    int MACRO = sx_param("MACRO", 0), GROUP = sx_param("GROUP", 0), OPT = sx_param("OPT", 0), OUTER = sx_param("OUTER", 1);
    write_xslib();
    Bcs b;
    b.e = b.s = "reflect";
    std::string xml = "<mesh id=\"1\" type=\"rect\" pitch=\"1.2\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
                      "<pin id=\"1\" mesh=\"1\">1 1</pin><pin id=\"2\" mesh=\"1\">2 3</pin>"
                      "<lattice id=\"1\" nx=\"2\" ny=\"2\"> 1 2  2 2 </lattice>"
                      "<lattice id=\"2\" nx=\"2\" ny=\"2\"> 2 2  1 2 </lattice>";
    xml += MACRO ? "<assembly id=\"1\" np=\"3\"><hz>0.9 1.4 0.6</hz><lattices>{ 1 1 } { 2 }</lattices></assembly>"
                 : "<assembly id=\"1\" np=\"2\"><hz>0.9 1.4</hz><lattices>1 2</lattices></assembly>";
    xml += "<core nx=\"1\" ny=\"1\"" + bc_attr(b) + ">1</core>" + matlib();
    Doc doc(xml);
    CoreMesh mesh(doc);
    const char *opt[] = {"", " relax=\"0.6\"", " tl=\"f\"", " moc_project=\"t\"", " inactive_moc=\"1\"", " moc_modulo=\"2\"", " expose_sn=\"t\" sn_project=\"t\""};
    Doc sw(std::string("<sweeper type=\"2d3d\"") + opt[OPT] +
           "><ang_quad type=\"ls\" order=\"2\"/><moc_sweeper n_inner=\"1\" boundary_update=\"jacobi\"><ang_quad type=\"ls\" order=\"2\"/><rays spacing=\"0.35\"/></moc_sweeper>"
           "<sn_sweeper equation=\"cdd\" axial=\"dd\" n_inner=\"1\" boundary_update=\"jacobi\"><ang_quad type=\"ls\" order=\"2\"/></sn_sweeper>"
           "<source scattering=\"P0\"/></sweeper>");
    auto node = sw.child("sweeper");
    cmdo::PlaneSweeper_2D3D ps(node, mesh);
    // a second sweeper of a kind finds the timers of the first
    for (auto n : {"MoC Sweeper", "Sn Sweeper"}) {
        RootTimer[n].tic();
        RootTimer[n]["Initialization"].tic();
    }
    moc::MoCSweeper rm(node.child("moc_sweeper"), mesh);
    auto pr  = cmdo::SnSweeperFactory_CDD(node.child("sn_sweeper"), mesh);
    auto &rs = *pr.first;
    rs.set_ang_quad(rm.get_ang_quad());
    int ng = rm.n_group(), nm_ = rm.n_reg(), ns = rs.n_reg(), g = GROUP;
    sx_check(ps.n_reg_fission() == nm_ + ns, "fission source for both sweepers");
    sx_check((int)ps.n_reg() == (OPT == 6 ? ns : nm_), "the sweeper exposed");
    ps.initialize();
    rm.initialize();
    rs.initialize();
    CoarseData cd(mesh, ng), cm(mesh, ng), cs(mesh, ng);
    ps.set_coarse_data(&cd);
    rm.set_coarse_data(&cm);
    rs.set_coarse_data(&cs);
    auto src = ps.create_source(node.child("source")), sm = rm.create_source(node.child("source")),
         ss = rs.create_source(node.child("source"));
    ps.assign_source(src.get());
    rm.assign_source(sm.get());
    rs.assign_source(ss.get());
    for (int i = 0; i < nm_; i++)
        for (int gg = 0; gg < ng; gg++)
            ps.moc_sweeper_.flux()(i, gg) = rm.flux()(i, gg) = 1 + 0.1 * ((3 * i + gg) % 7);
    for (int i = 0; i < ns; i++)
        for (int gg = 0; gg < ng; gg++)
            ps.sn_sweeper_->flux()(i, gg) = rs.flux()(i, gg) = 1 + 0.07 * ((5 * i + gg) % 11);
    rs.get_homogenized_xsmesh()->set_flux(rm.flux());
    // homogenized cross sections for the flux at the start, in both
    ps.sn_sweeper_->get_homogenized_xsmesh()->update();
    rs.get_homogenized_xsmesh()->update();
    ArrayB1 fs(nm_ + ns), fm(nm_), fn(ns);
    int np = mesh.macroplanes().size(), nc = mesh.n_cell_plane();
    std::vector<double> tl(np * nc, 0.0);
    for (int it = 0; it < OUTER; it++) {
        if (OPT == 6 || OPT == 3 || OUTER > 1) { // quotients below, or several sweeps: few degrees of freedom
            double u = sreal(nm("u", it), 1.0, 2.0), v = OPT == 6 || OPT == 3 ? 1.5 : sreal(nm("v", it), 1.0, 2.0);
            for (int i = 0; i < nm_ + ns; i++)
                fs(i) = i % 3 == 1 ? u : i % 3 ? v : 0.3 * u + 0.7 * v;
        } else
            for (int i = 0; i < nm_ + ns; i++)
                fs(i) = sreal(nm("fs", it, i), 1.0, 2.0);
        for (int i = 0; i < ns; i++)
            fn(i) = fs(i);
        for (int i = 0; i < nm_; i++)
            fm(i) = fs(ns + i);
        double js = OPT == 6 ? 0 : sreal(nm("j", it), -0.02, 0.02);
        for (int s = 0; s < (int)mesh.n_surf(); s++)
            for (int gg = 0; gg < ng; gg++)
                if (mesh.surface_normal(s) == Normal::Z_NORM)
                    cd.current(s, gg) = OPT == 6 || OPT == 3 ? 0.01 * (s % 7) : OUTER > 1 ? js * (1 + s % 7) + 0.02 * (s % 3) : sreal(nm("J", it, s * 2 + gg), -0.2, 0.2);
        // leakage into each macroplane
        const double relax = OPT == 1 ? 0.6 : 1.0;
        ArrayB1 tlr(nm_);
        int ip = 0, ireg = 0;
        for (const auto &mp : mesh.macroplanes()) {
            int ipin = 0;
            for (const auto pin : mp) {
                Position lo = mesh.pin_position(ipin), hi = lo;
                lo.z = mp.iz_min, hi.z = mp.iz_max;
                double h = 0;
                for (int iz = mp.iz_min; iz <= (int)mp.iz_max; iz++)
                    h += mesh.dz(iz);
                double d = (cd.current(mesh.coarse_surf(mesh.coarse_cell(lo), Surface::BOTTOM), g) -
                            cd.current(mesh.coarse_surf(mesh.coarse_cell(hi), Surface::TOP), g)) / h;
                double &t = tl[ip * nc + lo.y * mesh.nx() + lo.x];
                t         = (1 - relax) * t + relax * d;
                for (int k = 0; k < (int)pin->n_reg(); k++)
                    tlr(ireg++) = t;
                ipin++;
            }
            ip++;
        }
        bool moc = OPT == 4 ? it >= 1 : OPT == 5 ? it % 2 == 0 : true;
        ArrayB2 mflux(nm_, ng), sflux(ns, ng);
        mflux = ps.moc_sweeper_.flux();
        sflux = ps.sn_sweeper_->flux();
        // group zero counts the outer iterations
        for (int gg = 0; gg <= (g ? 1 : 0); gg++) {
            if (gg != g && g == 1) {
                src->initialize_group(0);
                src->fission(fs, 0);
                src->in_scatter(0);
                ps.sweep(0);
                sm->initialize_group(0);
                // keep the references at the same state
                rm.flux() = ps.moc_sweeper_.flux();
                rs.flux() = ps.sn_sweeper_->flux();
                continue;
            }
            sm->initialize_group(g);
            sm->fission(fm, g);
            sm->in_scatter(g);
            if (OPT != 2)
                rm.apply_transverse_leakage(g, tlr);
            if (moc)
                rm.sweep(g);
            src->initialize_group(g);
            src->fission(fs, g);
            src->in_scatter(g);
            ps.sweep(g);
            // the factors and cross sections the sweep above has used
            for (int a = 0; a < rs.ang_quad().ndir() / 2; a++)
                for (int i = 0; i < np * nc; i++) {
                    pr.second->alpha(i, a, g, Normal::X_NORM) = ps.corrections_->alpha(i, a, g, Normal::X_NORM);
                    pr.second->alpha(i, a, g, Normal::Y_NORM) = ps.corrections_->alpha(i, a, g, Normal::Y_NORM);
                    pr.second->beta(i, a, g)                  = ps.corrections_->beta(i, a, g);
                }
            ss->initialize_group(g);
            ss->fission(fn, g);
            ss->in_scatter(g);
            if (OPT == 3) {
                // the flux averaged over the height of a plane is that of MoC
                ArrayB1 pin(mesh.n_reg(MeshTreatment::PIN_PLANE));
                rm.get_pin_flux_1g(g, pin, MeshTreatment::PIN_PLANE);
                int ip = 0;
                for (const auto &mp : mesh.macroplanes()) {
                    for (int i = 0; i < nc; i++) {
                        double sum = 0, h = 0;
                        for (int iz = mp.iz_min; iz <= (int)mp.iz_max; iz++) {
                            sum += rs.flux()(iz * nc + i, g) * mesh.dz(iz);
                            h += mesh.dz(iz);
                        }
                        for (int iz = mp.iz_min; iz <= (int)mp.iz_max; iz++)
                            rs.flux()(iz * nc + i, g) *= pin(ip * nc + i) * h / sum;
                    }
                    ip++;
                }
            }
            rs.sweep(g);
        }
        for (int p = 0; p < np * nc && OPT != 2; p++)
            sx_near(ps.tl_(g, p), tl[p], 1e-12, "transverse leakage is the net axial inflow");
        if (OPT == 6) {
            // Sn flux projected onto the regions, keeping the shape in a pin
            int ireg = 0, ip = 0;
            ArrayB1 pin(mesh.n_reg(MeshTreatment::PIN_PLANE));
            rs.get_pin_flux_1g(g, pin, MeshTreatment::PIN_PLANE);
            for (const auto &mp : mesh.macroplanes()) {
                int ipin = 0;
                for (const auto p : mp) {
                    double s = 0, r = 0;
                    for (int k = 0; k < (int)p->n_reg(); k++) {
                        s += ps.moc_sweeper_.flux()(ireg + k, g) * p->areas()[k];
                        r += rm.flux()(ireg + k, g) * p->areas()[k];
                    }
                    Position q = mesh.pin_position(ipin++);
                    double f   = pin(ip * nc + q.y * mesh.nx() + q.x);
                    sx_near(s / p->area(), f, 1e-7, "the flux of a pin is that of the Sn sweep");
                    for (int k = 0; k < (int)p->n_reg(); k++, ireg++)
                        sx_near(ps.moc_sweeper_.flux()(ireg, g) * r, rm.flux()(ireg, g) * s, 1e-7, "projection keeps the shape within a pin");
                }
                ip++;
            }
            ArrayB1 got(mesh.n_reg(MeshTreatment::PIN));
            ps.get_pin_flux_1g(g, got, MeshTreatment::PIN);
            for (int i = 0; i < ns; i++)
                sx_near(got(i), rs.flux()(i, g), 1e-9, "the exposed pin flux is that of the Sn sweep");
        } else {
            for (int i = 0; i < nm_; i++)
                sx_near(ps.moc_sweeper_.flux()(i, g), rm.flux()(i, g), 1e-9, "the flux of a plane is that of MoC with axial leakage");
            ArrayB1 got(mesh.n_reg(MeshTreatment::PIN)), ref(mesh.n_reg(MeshTreatment::PIN));
            ps.get_pin_flux_1g(g, got, MeshTreatment::PIN);
            rm.get_pin_flux_1g(g, ref, MeshTreatment::PIN);
            for (int i = 0; i < ns; i++)
                sx_near(got(i), ref(i), 1e-9, "the exposed pin flux is that of MoC");
        }
        for (int i = 0; i < ns; i++)
            sx_near(ps.sn_sweeper_->flux()(i, g), rs.flux()(i, g), 1e-9, "the Sn flux is that of a corrected Sn sweep");
        for (int s = 0; s < (int)mesh.n_surf(); s++) {
            sx_near(cd.current(s, g), cs.current(s, g), 1e-9, "currents are those of the Sn sweep");
            sx_near(cd.surface_flux(s, g), cs.surface_flux(s, g), 1e-9, "surface fluxes are those of the Sn sweep");
        }
        for (int i = 0; i < nm_; i++)
            for (int gg = g + 1; gg < ng; gg++)
                sx_near(ps.moc_sweeper_.flux()(i, gg), mflux(i, gg), 1e-12, "other groups' flux is untouched");
        sx_reach("swept");
    }
    // fission sources of both, one after the other
    ArrayB1 all(nm_ + ns), one(nm_), two(ns);
    ps.calc_fission_source(1.25, all);
    ps.moc_sweeper_.calc_fission_source(1.25, one);
    ps.sn_sweeper_->calc_fission_source(1.25, two);
    for (int i = 0; i < nm_ + ns; i++)
        sx_near(all(i), i < ns ? two(i) : one(i - ns), 1e-12, "fission source of each sweeper");
    ps.store_old_flux();
    for (int o = 0; o < 2; o++)
        sx_near(ps.total_fission(o), OPT == 6 ? ps.sn_sweeper_->total_fission() : ps.moc_sweeper_.total_fission(), 1e-9, "total fission of the sweeper exposed");
    for (int i = 0; i < nm_ && OPT != 6; i++) // depends on the factors there
        sx_observe(nm("phi", i).c_str(), ps.moc_sweeper_.flux()(i, g));
}

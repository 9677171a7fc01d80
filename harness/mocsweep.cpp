// The MoC sweep on a small core, for every starting flux and fission source:
// neutron balance of every pin (reported currents against collisions and
// source), and agreement of the flux with the characteristic equations solved
// independently along the same rays, with rays continued by position at
// reflective faces.
#include "common.hpp"
#include <array>
#include <map>
#include <memory>
#include <set>
#include <iostream>
#include "core/angular_quadrature.hpp"
#include "core/coarse_data.hpp"
#define protected public
#include "sweepers/moc/moc_sweeper.hpp"
#undef protected
#include "sweepers/moc/ray_data.hpp"
#define private public
#include "sweepers/cmdo/moc_sweeper_2d3d.hpp"
#undef private
using namespace mocc;

struct End {
    double x, y;
};
// start and end point of a ray, as the ray prints them
static void ends(const moc::Ray &r, End &a, End &b)
{
    std::ostringstream o;
    o.precision(15);
    o << r;
    std::string s = o.str();
    double v[4];
    int k = 0;
    for (size_t i = 0; i < s.size() && k < 4;) {
        if (std::isdigit(s[i]) || s[i] == '-') {
            size_t n = 0;
            v[k++]   = std::stod(s.substr(i), &n);
            i += n;
        } else
            i++;
    }
    if (k < 4)
        sx_fail("harness: cannot read the end points of a ray");
    a = {v[0], v[1]};
    b = {v[2], v[3]};
}

// norms of the change of the correction factors, only reported
struct Three {
    double v[3];
};
extern "C" __attribute__((used)) Three sx_noresid(void *)
{
    return {{0, 0, 0}};
}
extern "C" void sx_main()
{
    int BCS = sx_param("BCS", 0), INNER = sx_param("INNER", 1), GROUP = sx_param("GROUP", 0), GS = sx_param("GS", 0),
        REF = sx_param("REF", 0), CYL = sx_param("CYL", 0), PLANES = sx_param("PLANES", 1), COR = sx_param("COR", 0),
        PINMOD = sx_param("PINMOD", 0), CMDO = sx_param("CMDO", 0), SPLIT = sx_param("SPLIT", 0), TL = sx_param("TL", 0);
    write_xslib();
    Bcs b;
    if (BCS == 1)
        b.n = b.s = b.e = b.w = "reflect";
    if (BCS == 2)
        b.e = b.s = "reflect";
    if (BCS == 3)
        b.n = b.w = "reflect";
    b.t = b.b = "reflect";
    std::string xml;
    if (CYL)
        xml += "<mesh id=\"1\" type=\"cyl\" pitch=\"1.2\"><radii>0.41</radii><sub_radii>1</sub_radii><sub_azi>4</sub_azi></mesh>"
               "<pin id=\"1\" mesh=\"1\">1 3</pin><pin id=\"2\" mesh=\"1\">2 3</pin>";
    else
        xml += "<mesh id=\"1\" type=\"rect\" pitch=\"1.2\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
               "<pin id=\"1\" mesh=\"1\">1 1</pin><pin id=\"2\" mesh=\"1\">2 3</pin>";
    xml += "<lattice id=\"1\" nx=\"2\" ny=\"2\"> 1 2  2 2 </lattice>"
           "<lattice id=\"2\" nx=\"2\" ny=\"2\"> 2 2  1 2 </lattice>";
    if (PLANES == 1)
        xml += "<assembly id=\"1\" np=\"1\" hz=\"1.5\"><lattices>1</lattices></assembly>";
    else if (PLANES == 2)
        xml += "<assembly id=\"1\" np=\"2\"><hz>0.9 1.4</hz><lattices>1 2</lattices></assembly>";
    else if (PLANES == 4) // the lower macroplane has two planes
        xml += "<assembly id=\"1\" np=\"3\"><hz>0.9 1.4 0.6</hz><lattices>{ 1 } { 2 2 }</lattices></assembly>";
    else // two macroplanes of two and one planes
        xml += "<assembly id=\"1\" np=\"3\"><hz>0.9 1.4 0.6</hz><lattices>{ 1 1 } { 2 }</lattices></assembly>";
    xml += "<core nx=\"1\" ny=\"1\"" + bc_attr(b) + ">1</core>" + matlib();
    Doc doc(xml);
    CoreMesh mesh(doc);
    const char *cor[] = {"flat", "angle", "none"};
    Doc sw(std::string("<sweeper type=\"moc\" boundary_update=\"") + (GS ? "gs" : "jacobi") + "\" n_inner=\"" +
           std::to_string(INNER) + "\" tl_splitting=\"" + (SPLIT ? "t" : "f") + "\"><ang_quad type=\"ls\" order=\"4\"/><rays spacing=\"0.35\" volume_correction=\"" +
           cor[COR] + "\" modularity=\"" + (PINMOD ? "pin" : "core") +
           "\"/><source scattering=\"P0\"/></sweeper>");
    auto node = sw.child("sweeper");
    std::unique_ptr<moc::MoCSweeper> msp;
    auto *two = CMDO ? new cmdo::MoCSweeper_2D3D(node, mesh) : nullptr;
    msp.reset(CMDO ? two : new moc::MoCSweeper(node, mesh));
    moc::MoCSweeper &ms = *msp;
    if (CMDO)
        two->set_self_coupling();
    ms.initialize();
    auto src = ms.create_source(node.child("source"));
    ms.assign_source(src.get());
    CoarseData cd(mesh, ms.n_group());
    ms.set_coarse_data(&cd);
    int n = ms.n_reg(), ng = ms.n_group(), g = GROUP;
    for (int i = 0; i < n; i++)
        for (int gg = 0; gg < ng; gg++)
            ms.flux()(i, gg) = CMDO || (SPLIT == 1 && (i == 1 || i == 4)) ? 1 + 0.1 * ((3 * i + gg) % 7) : sreal(nm("phi", i, gg), 0.5, 2.0);
    ArrayB1 fs(n);
    if (CMDO) { // quotients of fluxes are checked: two degrees of freedom
        double u = sreal("fs_u", 1.0, 2.0), v = sreal("fs_v", 1.0, 2.0);
        for (int i = 0; i < n; i++)
            fs(i) = SPLIT && (i == 1 || i == 4) ? 1.0 : i % 3 ? u : v;
    } else
        for (int i = 0; i < n; i++)
            fs(i) = SPLIT == 1 && (i == 1 || i == 4) ? 1.0 : sreal(nm("fs", i), 1.0, 2.0);
    // axial currents belong to someone else and must survive
    for (int s = 0; s < (int)mesh.n_surf(); s++)
        for (int gg = 0; gg < ng; gg++)
            cd.current(s, gg) = sreal(nm("J", s, gg), -1.0, 1.0);
    ArrayB2 J0(mesh.n_surf(), ng);
    J0 = cd.current;
    ArrayB2 old(n, ng);
    old = ms.flux();
    std::vector<double> xstr(n), qx(n), self(n);
    std::vector<int> seen(n, 0);
    for (auto &xsr : ms.xs_mesh())
        for (int i : xsr.reg()) {
            seen[i]++;
            xstr[i]  = xsr.xsmactr(g);
            self[i]  = scat(xsr, g, g);
            double q = xsr.xsmacch(g) * fs(i);
            for (int gg = 0; gg < ng; gg++)
                if (gg != g)
                    q += scat(xsr, g, gg) * old(i, gg);
            qx[i] = q;
        }
    for (int i = 0; i < n; i++)
        sx_check(seen[i] == 1, "every region has cross sections");
    src->initialize_group(g);
    src->fission(fs, g);
    src->in_scatter(g);
    std::vector<double> more(n, 0.0); // removal by splitting
    if (TL) {
        ArrayB1 tl(n);
        for (int i = 0; i < n; i++) {
            // with splitting, two regions may end up with a negative source;
            // for the sweep their data are concrete, because the exponential
            // table is looked up with the cross section
            bool neg = SPLIT && (i == 1 || i == 4);
            tl(i)    = SPLIT == 1 && neg ? (sx_choose(nm("neg", i).c_str(), 2) ? -1.0 : 0.1)
                       : CMDO           ? 0.05 * (i % 4)
                                         : sreal(nm("tl", i), SPLIT && !neg ? 0 : -1.0, 0.5);
            double s = qx[i] + tl(i);
            if (neg && s < 0) {
                more[i] = -s / old(i, g);
                qx[i]   = 0;
                sx_reach("split");
            } else
                qx[i] = s;
        }
        ms.apply_transverse_leakage(g, tl);
        if (SPLIT)
            for (int i = 0; i < n; i++) {
                sx_near((*src)[i], qx[i], 1e-12, "the source is what is left of it");
                sx_near(ms.split_(i), more[i], 1e-12, "negative sources become removal");
            }
        if (SPLIT == 2)
            return;
        sx_reach("leakage");
    }
    ms.sweep(g);
    for (int i = 0; i < n; i++)
        sx_observe(nm("phi", i).c_str(), ms.flux()(i, g));
    for (int i = 0; i < n; i++)
        for (int gg = 0; gg < ng; gg++)
            if (gg != g)
                sx_near(ms.flux()(i, gg), old(i, gg), 1e-12, "other groups' flux is untouched");
    for (int s = 0; s < (int)mesh.n_surf(); s++)
        for (int gg = 0; gg < ng; gg++)
            if (gg != g || mesh.surface_normal(s) == Normal::Z_NORM)
                sx_near(cd.current(s, gg), J0(s, gg), 1e-12, "axial and other groups' currents are untouched");
    const auto &mps = mesh.macroplanes();
    if (INNER == 1) {
        // pin by pin in every macroplane
        const Surface S[] = {Surface::EAST, Surface::NORTH, Surface::WEST, Surface::SOUTH};
        const double sg[] = {1, 1, -1, -1};
        int ireg = 0, imp = 0;
        for (const auto &mp : mps) {
            int ipin = 0;
            for (const auto pin : mp) {
                double col = 0, q = 0;
                for (int k = 0; k < (int)pin->n_reg(); k++, ireg++) {
                    double v = pin->areas()[k] * mp.height;
                    col += (xstr[ireg] + more[ireg]) * ms.flux()(ireg, g) * v;
                    q += (qx[ireg] + self[ireg] * old(ireg, g)) * v;
                }
                Position pos = mesh.pin_position(ipin);
                double leak  = 0;
                for (int iz = mp.iz_min; iz <= (int)mp.iz_max; iz++) {
                    pos.z  = iz;
                    int ic = mesh.coarse_cell(pos);
                    for (int s = 0; s < 4; s++)
                        leak += sg[s] * cd.current(mesh.coarse_surf(ic, S[s]), g) * mesh.coarse_area(ic, S[s]);
                }
                sx_near(leak + col, q, 1e-8, "pin balance: leakage plus collisions equals source");
                ipin++;
            }
            imp++;
        }
        sx_check(ireg == n, "every region belongs to a pin");
        sx_reach("balance");
    }
    if (REF) {
        AngularQuadrature aq0(node.child("ang_quad"));
        moc::RayData rays(node.child("rays"), aq0, mesh);
        const AngularQuadrature &aq = rays.ang_quad();
        int no = aq.ndir_oct(), na = 4 * no;
        // directed rays: dr = (angle, ray, sense)
        struct DR {
            double wt, rst;
            std::vector<int> reg;
            std::vector<double> len;
            End s, e;
            double ox, oy, space, alpha;
            std::vector<int> face, after; // coarse faces and the segments before them
            std::vector<int> cell;        // coarse cell of each segment
            int ang;
            int next;     // continuation at a reflective face or -1
            int order;    // position of its angle in the sweep
        };
        double hx = mesh.hx_core(), hy = mesh.hy_core();
        double sumw = 0;
        for (int a = 0; a < na; a++)
            sumw += aq[a].weight;
        std::vector<double> ref(n), xsf(n); // cross section seen by the flux
        for (int i = 0; i < n; i++)
            xsf[i] = xstr[i] + more[i];
        ArrayB1 phi(n);
        for (int i = 0; i < n; i++)
            phi(i) = old(i, g);
        // region offset and geometry of each macroplane
        struct PL {
            int first, geo;
            double h;
            std::vector<DR> d;
            std::vector<double> in, out, net, sfl;
            std::vector<std::vector<double>> fsum, vsum, xsum, norm;
        };
        int ns = mesh.n_surf_plane();
        std::vector<PL> pls;
        int first = 0;
        for (const auto &mp : mps) {
            PL p;
            p.first = first;
            p.geo   = mesh.unique_plane_ids()[mp.iz_min];
            p.h     = mp.height;
            first += mesh.unique_plane(p.geo).n_reg();
            for (int a = 0; a < 2 * no; a++)
                for (const auto &r : rays[p.geo][a])
                    for (int sense = 0; sense < 2; sense++) {
                        DR d;
                        double sg = sense ? -1 : 1;
                        d.ox      = sg * aq[a].ox;
                        d.oy      = sg * aq[a].oy;
                        double st = std::sqrt(1 - aq[a].oz * aq[a].oz);
                        d.rst     = 1 / st;
                        d.wt      = aq[a].weight * FPI / sumw * rays.spacing(a) * p.h * st;
                        for (int k = 0; k < r.nseg(); k++) {
                            int kk = sense ? r.nseg() - 1 - k : k;
                            d.reg.push_back(r.seg_index(kk) + p.first);
                            d.len.push_back(r.seg_len(kk));
                        }
                        ends(r, d.s, d.e);
                        if (sense)
                            std::swap(d.s, d.e);
                        d.order = a;
                        d.space = rays.spacing(a);
                        d.alpha = aq[a].alpha;
                        d.ang   = sense ? aq.reverse(a) : a;
                        int c   = sense ? r.cm_cell_bw() : r.cm_cell_fw(), k = 0;
                        d.face.push_back(sense ? r.cm_surf_bw() : r.cm_surf_fw());
                        d.after.push_back(0);
                        for (const auto &cm : r.cm_data()) {
                            Surface f = sense ? cm.bw : cm.fw;
                            if (f == Surface::INVALID)
                                continue;
                            for (int q = 0; q < (int)(sense ? cm.nseg_bw : cm.nseg_fw); q++, k++)
                                d.cell.push_back(c);
                            d.face.push_back(mesh.coarse_surf(c, f));
                            d.after.push_back(k);
                            c = mesh.coarse_neighbor(c, f);
                        }
                        d.next  = -1;
                        p.d.push_back(d);
                    }
            for (auto &d : p.d) {
                bool xe = std::fabs(d.e.x) < 1e-5 || std::fabs(d.e.x - hx) < 1e-5;
                bool refl = xe ? (d.ox > 0 ? b.e : b.w)[0] == 'r' : (d.oy > 0 ? b.n : b.s)[0] == 'r';
                if (!refl)
                    continue;
                double mx = xe ? -d.ox : d.ox, my = xe ? d.oy : -d.oy;
                int found = 0;
                for (size_t k = 0; k < p.d.size(); k++) {
                    auto &c = p.d[k];
                    if (std::fabs(c.ox - mx) < 1e-6 && std::fabs(c.oy - my) < 1e-6 &&
                        std::fabs(c.s.x - d.e.x) < 1e-4 && std::fabs(c.s.y - d.e.y) < 1e-4) {
                        d.next = k;
                        found++;
                    }
                }
                sx_check(found == 1, "a ray meets exactly one mirrored ray at a reflective face");
                if (found != 1)
                    return;
            }
            p.in.assign(p.d.size(), 0.0);
            std::vector<int> isnext(p.d.size(), 0);
            for (auto &d : p.d)
                if (d.next >= 0)
                    isnext[d.next]++;
            for (size_t k = 0; k < p.d.size(); k++) {
                bool xs   = std::fabs(p.d[k].s.x) < 1e-5 || std::fabs(p.d[k].s.x - hx) < 1e-5;
                bool refl = xs ? (p.d[k].ox > 0 ? b.w : b.e)[0] == 'r' : (p.d[k].oy > 0 ? b.s : b.n)[0] == 'r';
                sx_check(isnext[k] == (refl ? 1 : 0), "every ray start on a reflective face is fed by one ray");
                p.in[k] = refl ? 1.0 / FPI : 0.0;
            }
            pls.push_back(p);
        }
        for (int it = 0; it < INNER; it++) {
            std::vector<double> q(n), t(n, 0.0);
            for (int i = 0; i < n; i++)
                q[i] = (qx[i] + self[i] * phi(i)) / (FPI * xsf[i]);
            for (auto &p : pls) {
                p.net.assign(ns, 0.0);
                p.sfl.assign(ns, 0.0);
                p.fsum.assign(4 * no, std::vector<double>(ns, 0.0));
                p.vsum.assign(4 * no, std::vector<double>(mesh.n_cell_plane(), 0.0));
                p.xsum = p.norm = p.vsum;
                auto nxt = p.in;
                for (int a = 0; a < 2 * no; a++) {
                    std::vector<std::pair<int, double>> upd;
                    for (size_t k = 0; k < p.d.size(); k++) {
                        auto &d = p.d[k];
                        if (d.order != a)
                            continue;
                        double psi = p.in[k];
                        size_t f   = 0;
                        for (size_t s = 0; s <= d.reg.size(); s++) {
                            for (; f < d.face.size() && d.after[f] == (int)s; f++) {
                                bool xn   = mesh.surface_normal(d.face[f]) == Normal::X_NORM;
                                double dw = aq[d.order].weight * FPI / sumw * d.space / mesh.coarse_area(d.face[f]) * mesh.dz(0) /
                                            std::fabs(xn ? std::cos(d.alpha) : std::sin(d.alpha));
                                p.net[d.face[f]] += dw * psi * (xn ? d.ox : d.oy);
                                p.sfl[d.face[f]] += dw * psi;
                                p.fsum[d.ang][d.face[f]] += psi;
                            }
                            if (s == d.reg.size())
                                break;
                            int i     = d.reg[s];
                            double tl = d.len[s] * d.rst;
                            double di = (psi - q[i]) * (1 - std::exp(-xsf[i] * tl));
                            t[i] += d.wt * di;
                            psi -= di;
                            double v = tl * q[i] + di / xsf[i];
                            if (s < d.cell.size()) {
                                p.vsum[d.ang][d.cell[s]] += v;
                                p.xsum[d.ang][d.cell[s]] += v * xstr[i];
                                p.norm[d.ang][d.cell[s]] += tl;
                            }
                        }
                        sx_check(f == d.face.size() && d.cell.size() == d.reg.size(), "rays cross faces at segment ends");
                        if (d.next >= 0)
                            upd.push_back({d.next, psi});
                    }
                    for (auto &u : upd)
                        (GS ? p.in : nxt)[u.first] = u.second;
                }
                if (!GS)
                    p.in = nxt;
            }
            for (int i = 0; i < n; i++)
                phi(i) = q[i] * FPI;
            int ireg = 0;
            for (const auto &mp : mps)
                for (const auto pin : mp)
                    for (int k = 0; k < (int)pin->n_reg(); k++, ireg++)
                        phi(ireg) += t[ireg] / (xsf[ireg] * pin->areas()[k] * mp.height);
        }
        for (int i = 0; i < n; i++)
            sx_near(ms.flux()(i, g), phi(i), 2e-5, "the flux solves the characteristic equations");
        int imp = 0;
        first   = 0;
        for (const auto &mp : mps) {
            auto &p = pls[imp];
            for (int iz = mp.iz_min; iz <= (int)mp.iz_max; iz++)
                for (int c = 0; c < (int)mesh.n_cell_plane(); c++) {
                    Position pos = mesh.coarse_position(c);
                    pos.z        = iz;
                    for (int s = 0; s < 4; s++) {
                        int a = mesh.coarse_surf(c, AllSurfaces[s]), b = mesh.coarse_surf(mesh.coarse_cell(pos), AllSurfaces[s]);
                        sx_near(cd.current(b, g), p.net[a], 2e-5, "the coarse current is the net flow through the surface");
                        sx_near(cd.surface_flux(b, g), p.sfl[a], 2e-5, "the coarse surface flux is the flux on the surface");
                    }
                }
            if (CMDO) {
                // homogenized transport cross section of each pin
                std::vector<double> hom, areas;
                int r = first;
                for (const auto pin : mp) {
                    double a = 0, b = 0;
                    for (int k = 0; k < (int)pin->n_reg(); k++, r++) {
                        a += old(r, g) * pin->areas()[k] * xstr[r];
                        b += old(r, g) * pin->areas()[k];
                    }
                    hom.push_back(a / b);
                }
                for (int c = 0; c < (int)mesh.n_cell_plane(); c++) {
                    Position pos = mesh.coarse_position(c);
                    int ic       = imp * mesh.n_cell_plane() + c;
                    for (int a = 0; a < na; a++) {
                        double v  = p.vsum[a][c] / p.norm[a][c];
                        double fx = p.fsum[a][mesh.coarse_surf(c, Surface::EAST)] + p.fsum[a][mesh.coarse_surf(c, Surface::WEST)];
                        double fy = p.fsum[a][mesh.coarse_surf(c, Surface::NORTH)] + p.fsum[a][mesh.coarse_surf(c, Surface::SOUTH)];
                        int a0    = a < 2 * no ? a : aq.reverse(a);
                        fx *= rays.spacing(a0) / std::fabs(std::cos(aq[a0].alpha)) / mesh.pin_dy()[pos.y];
                        fy *= rays.spacing(a0) / std::fabs(std::sin(aq[a0].alpha)) / mesh.pin_dx()[pos.x];
                        const auto &co = *two->corrections_;
                        sx_near(co.alpha(ic, a, g, Normal::X_NORM) * fx, v, 2e-5, "x correction: cell flux over face fluxes");
                        sx_near(co.alpha(ic, a, g, Normal::Y_NORM) * fy, v, 2e-5, "y correction: cell flux over face fluxes");
                        int ip = pos.y * mesh.nx() + pos.x;
                        sx_near(co.beta(ic, a, g) * hom[ip] * p.vsum[a][c], p.xsum[a][c], 2e-5,
                                "cross-section correction: angular over scalar flux weighting");
                    }
                }
                sx_reach("corrections");
            }
            first += mesh.unique_plane(p.geo).n_reg();
            imp++;
        }
        sx_reach("reference");
    }
    sx_reach("swept");
}

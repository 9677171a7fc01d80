// What a sweeper reports about its flux and how an outside pin flux is put
// back: pin averages, projection keeping the shape inside a pin, fission
// source and rate, pin powers, and rescaling of the incoming angular flux.
#include "common.hpp"
#include <array>
#include <complex>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include "core/angular_quadrature.hpp"
#ifdef INCOMING
#define private public
#define protected public
#endif
#include "core/boundary_condition.hpp"
#include "core/coarse_data.hpp"
#include "core/transport_sweeper.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/sn/sn_sweeper.hpp"
#undef private
#undef protected
#include "sweepers/sn_sweeper_factory.hpp"
using namespace mocc;

extern "C" void sx_main()
{
    int SN = sx_param("SN", 0), WHAT = sx_param("WHAT", 0), OLD = sx_param("OLD", 1), PINT = sx_param("PIN", 0),
        G = sx_param("G", 0);
    write_xslib();
    Bcs b;
    b.n = b.s = b.e = b.w = b.t = b.b = "reflect";
    // two assemblies side by side, each one pin wide and two deep; three
    // planes, the upper two forming one macroplane (planes listed top first)
    std::string xml =
        "<mesh id=\"1\" type=\"rect\" pitch=\"1.2\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
        "<mesh id=\"2\" type=\"cyl\" pitch=\"1.2\"><radii>0.41</radii><sub_radii>1</sub_radii><sub_azi>4</sub_azi></mesh>"
        "<pin id=\"1\" mesh=\"1\">1 3</pin><pin id=\"2\" mesh=\"2\">2 3</pin><pin id=\"3\" mesh=\"1\">3 3</pin>"
        "<lattice id=\"1\" nx=\"1\" ny=\"2\"> 1 2 </lattice><lattice id=\"2\" nx=\"1\" ny=\"2\"> 2 3 </lattice>"
        "<assembly id=\"1\" np=\"3\"><hz>0.9 1.4 0.6</hz><lattices>{ 1 1 } { 2 }</lattices></assembly>"
        "<assembly id=\"2\" np=\"3\"><hz>0.9 1.4 0.6</hz><lattices>{ 2 2 } { 2 }</lattices></assembly>"
        "<core nx=\"2\" ny=\"1\"" + bc_attr(b) + ">1 2</core>" + matlib();
    Doc doc(xml);
    CoreMesh mesh(doc);
    const double hz[] = {0.6, 1.4, 0.9}, H[] = {0.6, 2.3}, P = 1.2;
    const int mp[] = {0, 1, 1};
    // region areas of each pin type: halves, or quarter circles and the rest
    const double A1 = PI * 0.41 * 0.41;
    std::vector<std::vector<double>> PA(3, std::vector<double>(2, P * P / 2));
    PA[1].assign(4, A1 / 4);
    PA[1].resize(8, (P * P - A1) / 4);
    // pin type by macroplane and position; the input lists the north pin first
    const int PT[2][2][2] = {{{2, 2}, {1, 1}}, {{1, 2}, {0, 1}}}; // [mp][y][x]
    std::unique_ptr<TransportSweeper> up;
    TransportSweeper *s;
    Doc sw(SN ? "<sweeper type=\"sn\" n_inner=\"1\" equation=\"dd\"><ang_quad type=\"ls\" order=\"4\"/></sweeper>"
              : "<sweeper type=\"moc\" n_inner=\"1\"><ang_quad type=\"ls\" order=\"4\"/><rays spacing=\"0.35\"/></sweeper>");
    if (SN)
        up = SnSweeperFactory(sw.child("sweeper"), mesh);
    else
        up.reset(new moc::MoCSweeper(sw.child("sweeper"), mesh));
    s = up.get();
    s->initialize();
    int n = s->n_reg(), ng = s->n_group();
    CoarseData cd(mesh, ng);
    s->set_coarse_data(&cd);
    // where each region is: cell (x,y), plane or macroplane, volume
    struct R {
        int x, y, z, m;
        double v;
    };
    std::vector<R> reg;
    if (SN) {
        for (int z = 0; z < 3; z++)
            for (int y = 0; y < 2; y++)
                for (int x = 0; x < 2; x++)
                    reg.push_back({x, y, z, mp[z], P * P * hz[z]});
    } else {
        for (int m = 0; m < 2; m++)
            for (int x = 0; x < 2; x++)
                for (int y = 0; y < 2; y++)
                    for (int k = 0; k < (int)PA[PT[m][y][x]].size(); k++)
                        reg.push_back({x, y, -1, m, PA[PT[m][y][x]][k] * H[m]});
    }
    sx_check((int)reg.size() == n, "number of regions");
    ArrayB2 F(n, ng);
    for (int i = 0; i < n; i++)
        for (int g = 0; g < ng; g++)
            F(i, g) = s->flux()(i, g) = sreal(nm("phi", i, g), 1e-3, 2.0);
    if (WHAT == 0) {
        // averages and projection
        auto tr   = PINT ? MeshTreatment::PIN : MeshTreatment::PIN_PLANE;
        int np    = PINT ? 12 : 8;
        auto cell = [&](const R &r, int z) { return (PINT ? z : r.m) * 4 + r.y * 2 + r.x; };
        auto avg  = [&](const ArrayB2 &f, int g, std::vector<double> &a) {
            std::vector<double> v(np, 0.0);
            a.assign(np, 0.0);
            for (int i = 0; i < n; i++)
                for (int z = 0; z < 3; z++)
                    if (mp[z] == reg[i].m && (reg[i].z < 0 || reg[i].z == z)) {
                        int c   = cell(reg[i], z);
                        double w = SN ? reg[i].v : reg[i].v * hz[z] / H[reg[i].m];
                        a[c] += f(i, g) * w;
                        v[c] += w;
                    }
            for (int c = 0; c < np; c++)
                a[c] /= v[c];
        };
        std::vector<double> a;
        for (int g = 0; g < ng; g++) {
            ArrayB1 f(np);
            f = -1;
            s->get_pin_flux_1g(g, f, tr);
            avg(F, g, a);
            for (int c = 0; c < np; c++) {
                sx_near(f(c), a[c], 1e-9, "the pin flux is the volume average over the pin");
                sx_observe(nm("pin", c, g).c_str(), f(c));
            }
        }
        int g = G;
        avg(F, g, a);
        ArrayB1 t(np);
        for (int c = 0; c < np; c++)
            t(c) = sreal(nm("set", c), 1e-3, 2.0);
        double e = s->set_pin_flux_1g(g, t, tr), e2 = 0;
        for (int i = 0; i < n; i++) {
            double num = 0, den = 0;
            if (SN) {
                int c = cell(reg[i], reg[i].z);
                num   = t(c);
                den   = a[c];
            } else
                // a sweeper that knows only macroplanes takes the average
                for (int z = 0; z < 3; z++)
                    if (mp[z] == reg[i].m) {
                        num += t(cell(reg[i], z)) * hz[z];
                        den += a[cell(reg[i], z)] * hz[z];
                    }
            sx_near(s->flux()(i, g) * den, F(i, g) * num, 1e-9, "the projection scales every region of a pin alike");
            for (int gg = 0; gg < ng; gg++)
                if (gg != g)
                    sx_near(s->flux()(i, gg), F(i, gg), 1e-12, "other groups are untouched");
        }
        if (!PINT || SN) {
            for (int c = 0; c < np; c++)
                e2 += (t(c) - a[c]) * (t(c) - a[c]);
            double N = SN ? 1 : np;
            if (!(SN && !PINT))
                sx_near(e * e * N * N, e2, 1e-9, "the residual measures the change of the pin flux");
        }
        sx_reach("projection");
    } else if (WHAT == 1) {
        // fission source, rate, residual and powers
        double k = sreal("k", 0.5, 1.5), tf = 0, r = 0, tp = 0;
        s->store_old_flux();
        ArrayB1 fs(n);
        fs = 7.0;
        s->calc_fission_source(k, fs);
        std::vector<double> nf(n, 0.0), pw(n, 0.0);
        for (auto &x : s->xs_mesh())
            for (int i : x.reg())
                for (int g = 0; g < ng; g++) {
                    nf[i] += x.xsmacnf(g) * F(i, g);
                    pw[i] += x.xsmacf(g) * F(i, g) * reg[i].v;
                }
        for (int i = 0; i < n; i++) {
            sx_near(fs(i) * k, nf[i], 1e-9, "fission source is production over k");
            tf += nf[i] * reg[i].v;
            tp += pw[i];
        }
        sx_near(s->total_fission(false), tf, 1e-9, "total fission rate");
        // a second flux: the old one stays what it was
        double tf2 = 0;
        for (int i = 0; i < n; i++) {
            double v = sreal(nm("psi", i), 1e-3, 2.0);
            r += (v - F(i, 0)) * (v - F(i, 0));
            s->flux()(i, 0) = v;
        }
        for (auto &x : s->xs_mesh())
            for (int i : x.reg())
                for (int g = 0; g < ng; g++)
                    tf2 += x.xsmacnf(g) * s->flux()(i, g) * reg[i].v;
        sx_near(s->total_fission(false), tf2, 1e-9, "total fission rate of the new flux");
        sx_near(s->total_fission(true), tf, 1e-9, "total fission rate of the stored flux");
        double fr = s->flux_residual();
        sx_near(fr * fr, r, 1e-9, "flux residual is the norm of the change");
        for (int i = 0; i < n; i++)
            s->flux()(i, 0) = F(i, 0);
        auto p = s->pin_powers();
        int nz = SN ? 3 : 2, nfuel = 0;
        std::vector<double> ref(nz * 4, 0.0);
        for (int i = 0; i < n; i++)
            ref[(SN ? reg[i].z : reg[i].m) * 4 + reg[i].y * 2 + reg[i].x] += pw[i];
        // fuelled pins: pins 1 and 2 contain fissile material, pin 3 none
        if (SN)
            for (int z = 0; z < 3; z++)
                for (int c = 0; c < 4; c++)
                    nfuel += PT[mp[z]][c / 2][c % 2] != 2;
        else
            nfuel = 3; // most fuelled plane
        for (int z = 0; z < nz; z++)
            for (int c = 0; c < 4; c++)
                sx_near(p(z, c / 2, c % 2) * tp, ref[z * 4 + c] * nfuel, 1e-9,
                        "pin power is proportional to the fission rate in the pin");
        sx_reach("fission");
    }
#ifdef INCOMING
    else {
        // incoming angular flux follows the surface it enters through
        int ns = mesh.n_surf();
        for (int i = 0; i < ns; i++)
            for (int g = 0; g < ng; g++)
                for (int d = 0; d < 2; d++) {
                    cd.partial_current(i, g)[d]     = sreal(nm("jn", 2 * i + d, g), 1e-3, 10.0);
                    cd.partial_current_old(i, g)[d] = sreal(nm("jo", 2 * i + d, g), 1e-3, 10.0);
                }
        if (!SN) // one value per macroplane, as the coarse solver stores them
            for (int i = mesh.plane_surf_xy_begin(2), j = mesh.plane_surf_xy_begin(1); i < (int)mesh.plane_surf_end(2); i++, j++)
                for (int g = 0; g < ng; g++) {
                    cd.partial_current(i, g)     = cd.partial_current(j, g);
                    cd.partial_current_old(i, g) = cd.partial_current_old(j, g);
                }
        cd.set_has_old_partial(OLD);
        auto want = [&](double in, int is, int g, int side) {
            auto &a = cd.partial_current(is, g);
            auto &o = cd.partial_current_old(is, g);
            if (OLD)
                return in * (a[0] + a[1]) / (o[0] + o[1]);
            // first time: isotropic, from the partial current coming in (Sn) or
            // from the surface flux (MoC)
            return SN ? a[side] / PI : (a[0] + a[1]) / (2 * PI);
        };
        int cnt = 0;
        if (SN) {
            auto *sn = dynamic_cast<sn::SnSweeper *>(s);
            auto &aq = sn->ang_quad_;
            BoundaryCondition old(ng, aq, mesh.boundary(), BC_Size_t{{2 * 3, 2 * 3, 2 * 2}});
            for (int g = 0; g < ng; g++)
                for (int a = 0; a < aq.ndir(); a++)
                    for (int nn = 0; nn < 3; nn++) {
                        auto f = sn->bc_in_.get_face(g, a, (Normal)nn);
                        auto q = old.get_face(g, a, (Normal)nn);
                        sx_check(f.first == q.first, "boundary size");
                        for (int i = 0; i < f.first; i++)
                            q.second[i] = f.second[i] = (g == G && a % 5 == 0) ? sreal(nm("in", cnt++), 1e-3, 10.0) : 0.3;
                    }
            s->update_incoming_flux();
            for (int g = 0; g < ng; g++)
                for (int a = 0; a < aq.ndir(); a++)
                    for (int nn = 0; nn < 3; nn++) {
                        auto f = sn->bc_in_.get_face(g, a, (Normal)nn);
                        auto q = old.get_face(g, a, (Normal)nn);
                        double o[] = {aq[a].ox, aq[a].oy, aq[a].oz};
                        int nd[]   = {2, 2, 3};
                        for (int i = 0; i < f.first; i++) {
                            int c[3], u = nn == 0 ? 1 : 0, v = nn == 2 ? 1 : 2;
                            c[nn] = o[nn] > 0 ? 0 : nd[nn] - 1;
                            c[u]  = i % nd[u];
                            c[v]  = i / nd[u];
                            Surface lo[] = {Surface::WEST, Surface::SOUTH, Surface::BOTTOM},
                                    hi[] = {Surface::EAST, Surface::NORTH, Surface::TOP};
                            int is = mesh.coarse_surf(mesh.coarse_cell(Position(c[0], c[1], c[2])),
                                                      o[nn] > 0 ? lo[nn] : hi[nn]);
                            // partial current 0 is along the axis, 1 against it
                            sx_near(f.second[i], want(q.second[i], is, g, o[nn] > 0 ? 1 : 0), 1e-9,
                                    "incoming flux is rescaled with its own surface");
                        }
                    }
        } else {
            auto *ms = dynamic_cast<moc::MoCSweeper *>(s);
            struct Q {
                double *p;
                double v;
                int is, g;
            };
            std::vector<Q> qs;
            for (int g = 0; g < ng; g++)
                for (int m = 0; m < 2; m++) {
                    int z = m ? 1 : 0, geo = mesh.unique_plane_ids()[z];
                    for (int a = 0; a < (int)ms->rays_[geo].size(); a++)
                        for (auto &r : ms->rays_[geo][a])
                            for (int d = 0; d < 2; d++) {
                                int ang   = d ? ms->ang_quad_.reverse(a) : a;
                                double *p = ms->boundary_[m].get_boundary(g, ang).second + r.bc(d);
                                *p = (g == G && a % 3 == 0) ? sreal(nm("in", cnt++), 1e-3, 10.0) : 0.3;
                                // the surface, from where the ray enters
                                std::ostringstream o;
                                o.precision(15);
                                o << r;
                                std::string str = o.str();
                                double v[4];
                                int k = 0;
                                for (size_t i = 0; i < str.size() && k < 4;)
                                    if (std::isdigit(str[i]) || str[i] == '-') {
                                        size_t l = 0;
                                        v[k++]   = std::stod(str.substr(i), &l);
                                        i += l;
                                    } else
                                        i++;
                                double x = v[2 * d], y = v[2 * d + 1];
                                // entering through a corner of a pin cell: either surface will do
                                double cx = x / P - std::round(x / P), cy = y / P - std::round(y / P);
                                if (std::abs(cx) < 1e-6 && std::abs(cy) < 1e-6)
                                    continue;
                                Surface f = x < 1e-9 ? Surface::WEST : x > 2 * P - 1e-9 ? Surface::EAST
                                            : y < 1e-9 ? Surface::SOUTH : Surface::NORTH;
                                int ix = std::min(1, (int)(x / P)), iy = std::min(1, (int)(y / P));
                                qs.push_back({p, *p, mesh.coarse_surf(mesh.coarse_cell(Position(ix, iy, z)), f), g});
                            }
                }
            s->update_incoming_flux();
            for (auto &q : qs)
                sx_near(*q.p, want(q.v, q.is, q.g, 0), 1e-9, "incoming flux is rescaled with its own surface");
        }
        sx_reach("incoming");
    }
#endif
}

// Exchange of angular fluxes at the domain boundary.
#include "common.hpp"
#include "core/angular_quadrature.hpp"
#include "core/boundary_condition.hpp"
using namespace mocc;

static const Boundary KINDS[] = {Boundary::VACUUM, Boundary::REFLECT, Boundary::PRESCRIBED};
static const Surface LO[] = {Surface::WEST, Surface::SOUTH, Surface::BOTTOM},
                     HI[] = {Surface::EAST, Surface::NORTH, Surface::TOP};
static double comp(const Angle &a, int n)
{
    return n == 0 ? a.ox : n == 1 ? a.oy : a.oz;
}
// the direction with component n turned round, found by its cosines
static int mirror(const AngularQuadrature &q, int a, int n)
{
    for (int b = 0; b < q.ndir(); b++) {
        bool same = true;
        for (int k = 0; k < 3; k++)
            same = same && std::abs(comp(q[b], k) - (k == n ? -1 : 1) * comp(q[a], k)) < 1e-6;
        if (same)
            return b;
    }
    return -1;
}
extern "C" void sx_main()
{
    int dim = sx_param("DIM", 3), all = sx_param("ALL", 0), vary = sx_param("VARY", 0), ng = 2;
    Doc d("<ang_quad type=\"ls\" order=\"" + std::to_string(sx_param("ORDER", 2)) + "\"/>");
    AngularQuadrature q(d.child("ang_quad"));
    int na = dim == 2 ? q.ndir() / 2 : q.ndir();
    std::vector<BC_Size_t> sz(na);
    for (int a = 0; a < na; a++) {
        // mirror images have the same size; otherwise sizes are free
        int m = vary ? (a % (na / (dim == 2 ? 4 : 8))) : 0;
        sz[a] = {{vary == 2 ? 0 : 2 + m, 1 + m, dim == 3 ? 2 : 0}};
        if (vary == 3)
            sz[a] = {{1, 0, 2}};
    }
    std::array<Boundary, 6> bc;
    int only = -1;
    if (all) {
        int c = sx_choose("kinds", 9);
        for (int f = 0; f < 6; f++)
            bc[f] = KINDS[(c % 3 + f * (1 + c / 3 % 2) + (c / 3 == 2 ? f / 2 : 0)) % 3];
    } else {
        only = sx_choose("angle", na);
        for (int f = 0; f < 6; f++)
            bc[f] = Boundary::VACUUM;
        // the faces this direction leaves through are free, the others differ
        for (int n = 0; n < 3; n++) {
            int k = sx_choose(nm("kind", n).c_str(), 3), up = comp(q[only], n) > 0;
            bc[(int)(up ? HI[n] : LO[n])] = KINDS[k];
            bc[(int)(up ? LO[n] : HI[n])] = KINDS[(k + 1) % 3];
        }
    }
    BoundaryCondition in(ng, q, bc, sz, dim), out(1, q, bc, sz, dim);
    // nothing enters where there is vacuum, a guess elsewhere
    double guess = sreal("guess", 0.1, 2.0);
    in.initialize_scalar(guess);
    int tot = 0;
    for (int g = 0; g < ng; g++)
        for (int a = 0; a < na; a++)
            for (int n = 0; n < 3; n++) {
                auto f = in.get_face(g, a, (Normal)n);
                sx_check(f.first == sz[a][n], "number of values on a face");
                tot += f.first;
                Boundary k = bc[(int)(comp(q[a], n) > 0 ? LO[n] : HI[n])];
                for (int i = 0; i < f.first; i++) {
                    if (k == Boundary::PRESCRIBED)
                        sx_check(f.second[i] > 0, "a prescribed face lets something in");
                    else
                        sx_near(f.second[i], k == Boundary::VACUUM ? 0.0 : guess, 0, "initial incoming flux");
                }
            }
    sx_check(in.size() == tot, "size");
    // arbitrary contents, every storage location distinct
    std::vector<std::vector<double>> v(ng * na * 3), w(na * 3);
    int ni = 0, no = 0;
    for (int g = 0; g < ng; g++)
        for (int a = 0; a < na; a++)
            for (int n = 0; n < 3; n++) {
                auto f = in.get_face(g, a, (Normal)n);
                for (int i = 0; i < f.first; i++) {
                    f.second[i] = sreal(nm("in", ni++), 0.0, 1.0);
                    v[(g * na + a) * 3 + n].push_back(f.second[i]);
                }
            }
    for (int a = 0; a < na; a++)
        for (int n = 0; n < 3; n++) {
            auto f = out.get_face(0, a, (Normal)n);
            for (int i = 0; i < f.first; i++) {
                f.second[i] = sreal(nm("out", no++), 2.0, 3.0);
                w[a * 3 + n].push_back(f.second[i]);
            }
        }
    BoundaryCondition copy(in);
    int G = sx_param("G", 1);
    if (all)
        in.update(G, out);
    else
        in.update(G, only, out);
    for (int g = 0; g < ng; g++)
        for (int a = 0; a < na; a++) {
            int k = 0;
            auto whole = in.get_boundary(g, a);
            for (int n = 0; n < 3; n++) {
                auto f = in.get_face(g, a, (Normal)n);
                auto c = copy.get_face(g, a, (Normal)n);
                if (f.first == 0)
                    continue;
                // incoming direction a arrived as its mirror image
                int m      = mirror(q, a, n);
                Boundary b = bc[(int)(comp(q[a], n) > 0 ? LO[n] : HI[n])];
                std::vector<double> buf(f.first);
                in.copy_face(g, a, (Normal)n, buf.data());
                for (int i = 0; i < f.first; i++) {
                    double want = v[(g * na + a) * 3 + n][i];
                    if (g == G && (all || m == only)) {
                        if (b == Boundary::VACUUM)
                            want = 0;
                        else if (b == Boundary::REFLECT)
                            want = w[m * 3 + n][i];
                    }
                    sx_near(f.second[i], want, 0, "incoming flux after the exchange");
                    sx_near(c.second[i], v[(g * na + a) * 3 + n][i], 0, "a copy has its own values");
                    sx_near(whole.second[k++], want, 0, "faces of a direction are stored together");
                    sx_near(buf[i], want, 0, "copied face");
                }
            }
            sx_check(whole.first == k, "number of values of a direction");
        }
    for (int a = 0; a < na; a++)
        for (int n = 0; n < 3; n++) {
            auto f = out.get_face(0, a, (Normal)n);
            for (int i = 0; i < f.first; i++)
                sx_near(f.second[i], w[a * 3 + n][i], 0, "the outgoing flux is only read");
        }
    sx_observe("in", in.get_boundary(G, 0).second[0]);
    sx_reach("exchange");
}

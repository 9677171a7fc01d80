// Shared input builders.  Geometry and cross sections are concrete (parsed by
// the real input code); what a harness makes symbolic it says itself.
#pragma once
#include "sx.h"
#include <cmath>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "pugixml.hpp"
#include "util/blitz_typedefs.hpp"
#include "util/global_config.hpp"
#include "core/core_mesh.hpp"

inline std::string nm(const char *p, int i)
{
    return std::string(p) + std::to_string(i);
}
inline std::string nm(const char *p, int i, int j)
{
    return std::string(p) + std::to_string(i) + "_" + std::to_string(j);
}
inline double sreal(const std::string &n, double lo, double hi)
{
    return sx_real(n.c_str(), lo, hi);
}

// Three materials, two groups: fuel with downscatter, fuel with up- and
// downscatter, moderator.
inline void write_xslib()
{
    std::ofstream f("lib.xsl");
    f << "test library\n 2 3\n 1.0E+06 0.6\n"
         "XSMACRO fuel1 0\n 0.012 0.008 0.0033 0.9\n 0.11 0.15 0.06 0.1\n 0.25 0.0\n 0.02 0.41\n"
         "XSMACRO fuel2 0\n 0.021 0.011 0.0041 0.8\n 0.19 0.31 0.12 0.2\n 0.31 0.003\n 0.015 0.39\n"
         "XSMACRO mod 0\n 0.0007 0.0 0.0 0.0\n 0.03 0.0 0.0 0.0\n 0.35 0.0005\n 0.045 1.1\n";
}
struct Bcs {
    const char *n = "vacuum", *s = "vacuum", *e = "vacuum", *w = "vacuum", *t = "vacuum", *b = "vacuum";
};
// Rectangular pins only, 1x1 mesh each, given pitch; one lattice per plane
// kind.  planes: string of lattice ids top first (may contain braces)
inline std::string bc_attr(const Bcs &b)
{
    std::ostringstream o;
    o << " north=\"" << b.n << "\" south=\"" << b.s << "\" east=\"" << b.e << "\" west=\"" << b.w
      << "\" top=\"" << b.t << "\" bottom=\"" << b.b << "\"";
    return o.str();
}
inline std::string matlib()
{
    return "<material_lib path=\"lib.xsl\"><material id=\"1\" name=\"fuel1\"/>"
           "<material id=\"2\" name=\"fuel2\"/><material id=\"3\" name=\"mod\"/></material_lib>";
}
struct Doc {
    pugi::xml_document d;
    Doc(const std::string &s)
    {
        if (!d.load_string(s.c_str()))
            sx_fail("harness: XML does not parse");
    }
    operator pugi::xml_node()
    {
        return d.root();
    }
    pugi::xml_node child(const char *n)
    {
        return d.child(n);
    }
};
// dense view of a packed scattering row
template <class XSR> double scat(const XSR &x, int to, int from)
{
    auto &r = x.xsmacsc().to(to);
    return (from >= (int)r.min_g && from <= (int)r.max_g) ? r[from] : 0.0;
}

// Symbolic numbers in input text.
#pragma once
#include "common.hpp"
#include <cstdlib>
#include <cstring>
#include <map>
// a number written as @name is symbolic
static std::map<std::string, double> sym;
extern "C" __attribute__((used)) double sx_as_double(const pugi::xml_attribute *a, double dflt)
{
    if (!*a)
        return dflt;
    const char *at = std::strchr(a->value(), '@');
    auto it        = at ? sym.find(at) : sym.end();
    return it != sym.end() ? it->second : std::strtod(a->value(), nullptr);
}
// the native run reads the number in front of the name
static std::string text(std::string xml)
{
    for (auto &v : sym) {
        std::ostringstream o;
        o.precision(17);
        o << "\"" << sx_concrete(v.second) << v.first << "\"";
        std::string key = "\"" + v.first + "\"";
        for (size_t i; (i = xml.find(key)) != std::string::npos;)
            xml.replace(i, key.size(), o.str());
    }
    return xml;
}

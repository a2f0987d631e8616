// A user's own value type, with exactly what Docs/Pages/CustomTypeFAQ.md asks for (std::hash, <, ==) and text conversions.
// It owns memory and its hash collides, so bitwise copies, missed destructions and reliance on good hashes show.
#pragma once
#include <string>
#include <functional>
#include "Strings/ToString.h"
#include "Strings/FromString.h"
struct Cust {
    int* p; explicit Cust(int v = 0) : p(new int(v)) {} Cust(const Cust& o) : p(new int(*o.p)) {} ~Cust() { delete p; }
    Cust& operator=(const Cust& o) { if (this != &o) { int* q = new int(*o.p); delete p; p = q; } return *this; }
};
inline bool operator==(const Cust& a, const Cust& b) { return *a.p == *b.p; }
inline bool operator<(const Cust& a, const Cust& b) { return *a.p < *b.p; }
template <> struct std::hash<Cust> { std::size_t operator()(const Cust& c) const { return (std::size_t)(*c.p & 1); } };
namespace mvlt {
template <> inline std::string ToString(const Cust& c) noexcept { return "<" + std::to_string(*c.p) + ",\">"; }
template <> inline bool FromString(const std::string& s, Cust& c) noexcept
{
    if (s.size() < 5 || s.size() > 8 || s[0] != '<' || s.compare(s.size() - 3, 3, ",\">")) return false;
    for (size_t i = 1; i + 3 < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false;
    *c.p = std::stoi(s.substr(1)); return true;
}
}

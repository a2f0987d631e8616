// Text forms of the simulated value types, shared by clients, model and generator.
// A value token is a type letter and the shortest text that reads back as the value:
// i int32, l int64, h int16, c int8, u uint64, w uint32, k uint16, y uint8, b bool (0/1), d double, f float, s string (encoded), z the user's own type (its number).
#pragma once
#include <string>
#include <cstdio>
#include <cstdlib>
namespace num {
inline double rd(char t, const char* s) { return t == 'f' ? (double)strtof(s, 0) : strtod(s, 0); }
inline std::string shortest(char t, double v) { char b[64]; if (v != v) return "nan"; for (int p = 1; p <= 17; ++p) { snprintf(b, sizeof b, "%.*g", p, v); if (rd(t, b) == v) break; } return b; }
// what the library writes: six decimals where that loses nothing, else as many digits as needed
inline std::string libText(char t, double v) { std::string s = std::to_string(v); char b[64]; if (v != v) return "nan"; for (int p = 6; p <= (t == 'f' ? 9 : 17) && rd(t, s.c_str()) != v; ++p) { snprintf(b, sizeof b, "%.*g", p, v); s = b; } return s; }
inline bool isFloat(char t) { return t == 'd' || t == 'f'; }
// text of a non-string token as the library shows it, and back
inline std::string plain(const std::string& tok)
{
    if (isFloat(tok[0])) return libText(tok[0], rd(tok[0], tok.c_str() + 1));
    if (tok[0] == 'b') return tok[1] == '0' ? "false" : "true";
    if (tok[0] == 'z') return "<" + tok.substr(1) + ",\">";
    return tok.substr(1);
}
inline std::string token(char t, const std::string& text)
{
    if (isFloat(t)) return t + shortest(t, rd(t, text.c_str()));
    if (t == 'b') return text == "true" ? "b1" : "b0";
    if (t == 'z') return t + text.substr(1, text.size() < 4 ? 0 : text.size() - 4);
    return t + text;
}
inline bool lessRaw(char t, const char* a, const char* b) // texts or token bodies
{
    if (isFloat(t)) { double x = rd(t, a), y = rd(t, b); return x < y || (x == x && y != y); } // NaN is one value after all numbers
    if (t == 'u') return strtoull(a, 0, 10) < strtoull(b, 0, 10);
    if (t == 'b') return (*a == 't' || *a == '1') < (*b == 't' || *b == '1');
    if (t == 'z') return atoi(a + (*a == '<')) < atoi(b + (*b == '<'));
    return strtoll(a, 0, 10) < strtoll(b, 0, 10);
}
}

// Plans: what the simulated clients do in one execution, as data.
#pragma once
#include "model.h"
#include <cstdio>
struct Rng { uint64_t s; explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int n(int k) { return k <= 1 ? 0 : (int)(next() % (uint64_t)k); }
    bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; } };
struct POp { int id, thr, parent; std::string name; Toks a; };       // parent >= 0: runs inside that op's callback
struct Plan {
    std::map<std::string, long long> cfg; std::string trace, td; std::vector<std::string> env; std::set<std::string> dom; std::vector<POp> ops;
    std::string meta; // free flags: nolin, small (build variant)
    bool has(const char* f) const { return (" " + meta + " ").find(std::string(" ") + f + " ") != std::string::npos; }
    std::string text() const
    {
        std::string o = "# meta " + meta + "\ncfg";
        for (auto& c : cfg) o += " " + c.first + "=" + std::to_string(c.second);
        o += "\n";
        for (auto& e : env) o += e + "\n";
        for (auto& d : dom) o += "dom " + d + "\n";
        if (!td.empty()) o += "td " + td + "\n";
        for (auto& p : ops) { o += p.parent >= 0 ? "sub " : "op "; o += std::to_string(p.id) + " " + std::to_string(p.parent >= 0 ? p.parent : p.thr) + " " + p.name; for (auto& x : p.a) o += " " + x; o += "\n"; }
        if (!trace.empty()) o += "trace " + trace + "\n";
        return o;
    }
    static Plan parse(const std::string& t)
    {
        Plan p; std::map<int, int> thrOf;
        for (auto& line : split(t, '\n')) {
            Toks k; for (auto& x : split(line, ' ')) if (!x.empty()) k.push_back(x);
            if (k.empty()) continue;
            if (k[0] == "#") { if (k.size() > 1 && k[1] == "meta") { p.meta.clear(); for (size_t i = 2; i < k.size(); ++i) p.meta += (i > 2 ? " " : "") + k[i]; } continue; }
            if (k[0] == "cfg") for (size_t i = 1; i < k.size(); ++i) { size_t e = k[i].find('='); p.cfg[k[i].substr(0, e)] = atoll(k[i].c_str() + e + 1); }
            else if (k[0] == "trace") p.trace = line.substr(6);
            else if (k[0] == "td") p.td = k[1];
            else if (k[0] == "dom") p.dom.insert(k[1]);
            else if (k[0] == "op" || k[0] == "sub") {
                POp o; o.id = AI(k[1]); o.name = k[3]; o.a.assign(k.begin() + 4, k.end());
                if (k[0] == "op") { o.parent = -1; o.thr = AI(k[2]); thrOf[o.id] = o.thr; } else { o.parent = AI(k[2]); o.thr = thrOf[o.parent]; thrOf[o.id] = o.thr; }
                p.ops.push_back(o);
            } else if (k[0][0] != '#') p.env.push_back(line);
        }
        return p;
    }
};
// which slots an operation needs, creates or destroys: v vault, s set, m lock; + creates first, - destroys
static inline const char* slotSig(const std::string& n)
{
    static const std::map<std::string, const char*> m = {
        { "newv", "+v" }, { "delv", "-v" }, { "copyv", "+vv" }, { "asgv", "vv" }, { "movev", "+vv" }, { "mvav", "vv" },
        { "news", "+s" }, { "dels", "-s" }, { "scopyc", "+ss" }, { "smovec", "+ss" }, { "sasgn", "ss" }, { "smova", "ss" },
        { "sjoin", "ss" }, { "sexcl", "ss" }, { "sint", "ss" }, { "sunion", "sss" }, { "sinter", "sss" }, { "seq", "ss" }, { "spid", "ss" }, { "sne", "ss" },
        { "req", "vs" }, { "reqx", "vs" }, { "sreq", "ss" }, { "sreqx", "ss" }, { "size", "v" }, { "sorted", "v" }, { "sortby", "v" }, { "save", "v" },
        { "newm", "+m" }, { "delm", "-m" }, { "lock", "m" }, { "uuid", "" }, { "box", "" }, { "tmpname", "" }, { "file", "" }, { "faults", "" }, { "put", "" }, { "btfmt", "" } };
    auto it = m.find(n);
    if (it != m.end()) return it->second;
    static const std::set<std::string> vops = { "addkey", "adduk", "addukl", "updkey", "rmkey", "keyval", "keys", "ukeys", "haskey", "keytype", "create", "erase", "erasek", "erasem", "get", "getm", "tostr", "json", "print", "ptable", "dropdata", "dropvault", "load", "loadh", "errs", "audit" };
    if (vops.count(n)) return "v";
    if (n[0] == 's') return "s";
    return "";
}
static inline bool validPlan(const Plan& p)
{
    std::set<std::string> ex; std::map<int, const POp*> by;
    auto run = [&](const POp& o) {
        const char* g = slotSig(o.name); char mode = 0; int i = 0;
        if (*g == '+' || *g == '-') mode = *g++;
        for (; g[i]; ++i) {
            if (i >= (int)o.a.size()) return false;
            std::string s = std::string(1, g[i]) + o.a[i];
            if (i == 0 && mode == '+') { if (ex.count(s)) return false; }
            else if (!ex.count(s)) return false;
        }
        if (o.name == "lock") for (char c : o.a[1]) if (c >= '0' && c <= '9' && !ex.count(std::string("m") + c)) return false;
        if (mode == '+') ex.insert(std::string(1, g[0]) + o.a[0]);
        if (mode == '-') ex.erase(std::string(1, g[0]) + o.a[0]);
        return true;
    };
    std::set<int> thr; for (auto& o : p.ops) thr.insert(o.thr);
    for (auto& o : p.ops) by[o.id] = &o;
    for (int t : thr) for (auto& o : p.ops) if (o.thr == t) { if (o.parent >= 0 && !by.count(o.parent)) return false; if (!run(o)) return false; }
    return true;
}

// Seeded generation of plans, one profile per property.
#pragma once
#include "plan.h"
struct Profile {
    const char* id; const char* w;      // operation weights for parallel clients and sequential histories
    double seqP; int seqLo, seqHi;      // share and length of sequential histories
    int thrLo, thrHi, perLo, perHi;     // clients and operations per client
    int nvLo, nvHi; double err, special, subs, leak, fault, uniq, memP; int recHi; const char* mode; // mode: "", csvsave, csvload, csvbad, lock, uuid
};
#define REC "create:9 erase:5 erasek:3 erasem:2 get:5 getm:4 size:3 rset:9 rget:5 rsetm:4 rstr:1 sorted:3 rvalid:2 haskey:1 "
#define SETS "req:6 sreq:3 sadd:5 srm:4 srmk:2 srmm:2 schk:2 ssize:3 sget:2 sgetm:3 ssorted:3 stostr:2 sjoin:3 sexcl:3 sint:3 sunion:2 sinter:2 sasgn:2 scopyc:2 dels:2 news:2 smovec:1 smova:2 sclear:2 sreset:1 seq:2 spid:1 sne:1 svalid:1 "
#define SCHEMA "addkey:4 adduk:2 addukl:4 updkey:4 rmkey:4 keyval:3 keys:2 ukeys:2 haskey:2 keytype:2 skeyval:2 skeys:1 sukeys:1 shaskey:1 skeytype:1 "
#define REFS "rcopy:3 rcopyc:1 rmove:2 rmovec:1 rreset:2 reqq:2 rneq:1 rkeys:2 rhas:2 rid:1 rtostr:3 rjson:2 rvalid:4 "
#define DUMPS "tostr:3 json:2 stostr:2 sjson:1 rtostr:2 sortby:3 ssortby:2 print:1 sprint:1 rprint:1 ptable:1 sptable:1 "
static const Profile PROFILES[] = {
    { "C01", REC "dropdata:1 req:1 rtostr:1 ", 0.05, 10, 25, 2, 4, 2, 5, 1, 1, 0.04, 0, 0, 0, 0, 0.6, 0.25, 6, "" },
    { "C02", REC SCHEMA "dropdata:1 req:4 reqx:1 sreq:2 sorted:4 asgv:1 copyv:1 load:2 save:1 audit:3 saudit:2 sadd:3 srm:2 ssorted:2 sgetm:2 ", 0.6, 15, 45, 2, 3, 2, 5, 1, 2, 0.03, 0.3, 0, 0, 0, 0.6, 0.15, 8, "" },
    { "C03", "create:14 rset:12 rsetm:6 erase:5 erasek:3 get:4 getm:2 rget:3 adduk:2 addukl:4 rmkey:3 addkey:2 updkey:2 keyval:1 ukeys:1 load:3 loadh:1 copyv:1 asgv:1 movev:1 mvav:1 sorted:2 req:2 dropdata:1 sgetm:1 ", 0.4, 12, 35, 2, 4, 2, 5, 1, 2, 0.03, 0.1, 0.1, 0, 0, 1.0, 0.2, 6, "" },
    { "C04", REC SETS "addkey:2 rmkey:2 updkey:1 addukl:1 adduk:1 dropdata:1 saudit:3 ssortby:1 sreqx:1 dropvault:1 delv:1 newv:1 movev:1 mvav:1 ", 0.45, 12, 40, 2, 4, 2, 5, 1, 2, 0.03, 0.05, 0.05, 0, 0, 0.4, 0.15, 6, "" },
    { "C05", SETS "sjoin:8 sexcl:8 sint:8 sunion:7 sinter:7 sasgn:4 scopyc:3 smova:4 smovec:3 seq:5 sne:3 erase:4 erasek:2 create:4 rset:4 saudit:3 addkey:1 rmkey:1 sadd:4 srm:4 sclear:2 dropdata:1 ", 0.45, 12, 40, 2, 4, 2, 5, 1, 2, 0.03, 0, 0, 0, 0, 0.2, 0.15, 6, "" },
    { "C06", REC REFS "sget:2 sgetm:2 ssorted:2 ssortby:3 sortby:3 sreq:2 req:2 sadd:2 srm:2 dropdata:3 dropvault:1 delv:2 newv:2 copyv:1 movev:1 mvav:1 asgv:1 addkey:1 rmkey:2 ", 0.4, 12, 40, 2, 4, 2, 5, 1, 2, 0.04, 0, 0.1, 0, 0, 0.4, 0.2, 6, "" },
    { "C07", REC SETS SCHEMA REFS DUMPS "reqx:3 sreqx:2 dropdata:2 dropvault:2 delv:2 newv:2 copyv:2 movev:2 mvav:2 asgv:2 load:1 save:1 loadh:1 errs:1 box:3 ", 0.5, 12, 45, 2, 4, 2, 5, 1, 3, 0.06, 0.1, 0.1, 0.6, 0.05, 0.5, 0.15, 6, "" },
    { "C08", "lock:1 ", 0.05, 3, 8, 2, 4, 1, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0.3, 0, "lock" },
    { "C09", REC SETS SCHEMA REFS DUMPS "reqx:2 dropdata:1 load:1 save:1 ", 0.0, 5, 10, 2, 4, 2, 6, 1, 3, 0.03, 0.05, 0.35, 0, 0, 0.4, 0.1, 5, "" },
    { "C10", REC SETS SCHEMA REFS DUMPS "reqx:2 dropdata:2 load:1 save:1 errs:2 loadh:1 copyv:1 ", 0.0, 5, 10, 2, 4, 2, 6, 1, 2, 0.03, 0.05, 0.15, 0, 0, 0.4, 0.15, 5, "" },
    { "C11", "sorted:7 tostr:7 json:4 stostr:5 sjson:2 getm:6 sgetm:3 req:7 reqx:4 sreq:4 sortby:6 ssortby:4 ssorted:4 rtostr:5 rjson:3 rkeys:2 rsetm:10 rset:6 create:6 erase:6 erasem:2 load:3 save:4 file:1 addkey:2 rmkey:2 dropdata:1 size:2 keys:1 ukeys:1 copyv:1 print:5 sprint:3 rprint:2 ptable:1 sptable:1 ", 0.08, 8, 20, 2, 4, 2, 5, 1, 2, 0.02, 0.1, 0.25, 0, 0, 0.3, 0.2, 7, "" },
    { "C12", SCHEMA SCHEMA "create:7 rset:3 rget:3 getm:3 sgetm:3 tostr:2 stostr:2 rtostr:2 rkeys:2 rhas:2 req:3 sreq:1 sadd:2 ssorted:2 sorted:2 erase:2 audit:1 saudit:1 copyv:1 asgv:1 movev:1 ", 0.45, 12, 35, 2, 4, 2, 5, 1, 2, 0.04, 0.1, 0.1, 0, 0, 0.6, 0.2, 6, "" },
    { "C13", "", 0.7, 2, 5, 2, 3, 2, 4, 1, 1, 0, 0.3, 0, 0, 0.8, 0.3, 0.1, 8, "csvsave" },
    { "C14", "", 0.8, 2, 5, 2, 3, 2, 3, 2, 2, 0, 0.7, 0, 0, 0.35, 0.3, 0.1, 8, "csvround" },
    { "C15", "", 0.8, 2, 6, 2, 3, 2, 3, 1, 1, 0, 0.4, 0, 0, 0.5, 0.5, 0.1, 5, "csvload" },
    { "C16", "req:14 sreq:8 reqx:9 sreqx:5 create:5 rset:6 rsetm:2 erase:3 erasek:1 sadd:2 srm:2 saudit:3 ssorted:2 sgetm:2 news:1 dels:1 addkey:1 rmkey:1 dropdata:1 sreset:1 ", 0.5, 12, 40, 2, 4, 2, 4, 1, 3, 0.06, 0.2, 0.1, 0, 0, 0.3, 0.15, 8, "" },
    { "C17", REC SETS SCHEMA REFS "rset:6 rsetm:5 rget:5 get:4 sget:3 getm:4 erasek:3 erasem:3 req:4 keyval:3 skeyval:3 updkey:3 dropdata:1 delv:1 newv:1 dropvault:1 reqx:6 sreqx:4 ", 0.7, 15, 45, 2, 3, 2, 5, 2, 3, 0.4, 0.1, 0, 0, 0, 0.6, 0.1, 5, "" },
    { "C18", REC "copyv:6 asgv:6 movev:5 mvav:5 newv:2 delv:2 dropvault:2 dropdata:1 addkey:3 addukl:2 adduk:2 updkey:3 rmkey:2 keyval:3 ukeys:2 keys:2 req:4 sadd:3 saudit:2 sgetm:2 ssorted:2 audit:3 skeys:1 sreq:1 svalid:1 rtostr:1 ", 0.6, 15, 40, 2, 3, 3, 6, 1, 3, 0.03, 0.1, 0, 0, 0, 0.6, 0.15, 6, "" },
    { "C19", "uuid:8 tmpname:4 ", 0.2, 4, 16, 2, 4, 2, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0.3, 0, "uuid" },
    { "C22", REC SETS SCHEMA REFS DUMPS "reqx:2 rset:4 get:3 rget:4 dropdata:1 btfmt:2 delv:1 newv:1 copyv:1 ", 0.4, 10, 30, 2, 4, 2, 6, 1, 2, 0.3, 0.05, 0.15, 0, 0, 0.4, 0.1, 5, "debug" },
    { "C20", REC SETS "sortby:8 ssortby:5 req:8 reqx:2 addukl:4 loadh:1 addkey:2 rmkey:2 lock:3 copyv:1 dropdata:1 tostr:2 ", 0.2, 10, 25, 2, 4, 2, 5, 2, 3, 0.03, 0, 0.7, 0, 0, 0.4, 0.15, 5, "" },
};
struct KeyG { std::string name; char t; bool u; };
struct Gen {
    Rng r; const Profile& pf; Plan p; int nid = 1; long rid = 1;
    std::vector<KeyG> ks[6]; bool vex[6] = {}, sex[16] = {}; int spar[16]; unsigned smask[16] = {}; int nv = 0, nsh = 0, nt = 0; bool seq = false; int curThr = 0; bool special = false; std::vector<int> usedRefs; std::set<int> rused; std::set<std::string> files; int nm = 0; std::string mtype;
    bool big = false, faults = false, junk = false, schemaOps = false; std::string tmpf; int nfile = 0;
    static const Profile& pick(const Profile& f, uint64_t seed) // C09 also explores the locks by themselves
    {
        if (strcmp(f.id, "C09") || (seed * 0x9e3779b97f4a7c15ull >> 33) % 10 >= 3) return f;
        for (auto& x : PROFILES) if (!strcmp(x.id, "C08")) return x;
        return f;
    }
    Gen(const Profile& f, uint64_t seed) : r(seed), pf(pick(f, seed)) { for (int& x : spar) x = 0; }
    std::string N(long x) { return std::to_string(x); }
    POp& op(const std::string& name, const Toks& a, int thr = -1) { POp o; o.id = nid++; o.thr = thr < 0 ? curThr : thr; o.parent = -1; o.name = name; o.a = a; p.ops.push_back(o); return p.ops.back(); }
    std::string V(const std::string& t) { p.dom.insert(t); return t; }
    std::string str()
    {
        if (special && r.p(0.01)) { static const int len[] = { 15, 16, 17, 63, 64, 255, 256, 1000, 5000 }; std::string o; int n = len[r.n(9)]; bool q = r.p(0.3); for (int i = 0; i < n; ++i) o += q && r.p(0.05) ? ",\"\n;"[r.n(4)] : (char)('a' + (i + n) % 26); return o; }
        if (special && r.p(0.03)) { std::string o; for (int i = 0, n = 1 + r.n(4); i < n; ++i) o += (char)(r.p(0.3) ? "\0\b\f\x1f\x7f\xff\x80\x1a"[r.n(8)] : r.n(256)); return o; } // any bytes
        if (special && r.p(0.6)) {
            static const char* sp[] = { "", ",", "\"", "\n", "\r\n", "\r", "a,b", "a\"b", "\"a\"", "a\nb", "a\rb", ";", "a;b", " a", "a ", "\"\"", ",,", "\t", "a\r", "|", "'", "\\", "a\\b", "\x01", "\"\n", "end\n", "x\r\n", "1", "-", "\xc3\xa9" };
            return sp[r.n(sizeof sp / sizeof *sp)];
        }
        static const char* s[] = { "", "a", "b", "c", "ab" };
        return s[r.n(5)];
    }
    std::string val(char t, const std::string& key = "")
    {
        if (key == "Id") return "l" + N(1 + r.n((int)rid));
        switch (t) {
        case 's': return V("s" + enc(str()));
        case 'd': { static const char* d[] = { "d0", "d0.5", "d1.5", "d-2", "d0.1", "d1e-09", "d5000000000.25", "d1e+300", "d-0.001", "d123456.789", "dnan", "dinf", "d-inf" }; return V(d[r.n(special ? 13 : 4)]); }
        case 'f': { static const char* d[] = { "f0", "f0.5", "f-2", "f0.1", "f1e-09", "f1e+20", "f123456.79", "fnan", "finf" }; return V(d[r.n(special ? 9 : 3)]); }
        case 'l': { static const char* d[] = { "l0", "l1", "l2", "l9000000000", "l-1", "l9223372036854775807", "l-9223372036854775808" }; return V(d[r.n(special ? 7 : 5)]); }
        case 'h': { static const char* d[] = { "h0", "h1", "h-1", "h32767", "h-32768" }; return V(d[r.n(special ? 5 : 3)]); }
        case 'u': { static const char* d[] = { "u0", "u1", "u7", "u18446744073709551615" }; return V(d[r.n(4)]); }
        case 'w': { static const char* d[] = { "w0", "w1", "w7", "w4294967295" }; return V(d[r.n(4)]); }
        case 'k': { static const char* d[] = { "k0", "k1", "k300", "k65535" }; return V(d[r.n(4)]); }
        case 'c': { static const char* d[] = { "c0", "c1", "c-1", "c127", "c-128" }; return V(d[r.n(special ? 5 : 3)]); }
        case 'z': { static const char* d[] = { "z0", "z1", "z2", "z9999" }; return V(d[r.n(4)]); }
        case 'y': { static const char* d[] = { "y0", "y1", "y200", "y255" }; return V(d[r.n(4)]); }
        case 'b': return V(r.p(0.5) ? "b1" : "b0");
        default: { static const char* d[] = { "i0", "i1", "i2", "i3", "i4", "i-1", "i2147483647", "i-2147483648" }; return V(d[r.n(special ? 8 : 6)]); }
        }
    }
    char otherType(char t) { static const char c[] = "isldhufbwkcyz"; char x; do x = c[r.n(r.p(0.7) ? 4 : 13)]; while (x == t); return x; }
    KeyG key(int v) { if (v < 0 || v >= 6 || ks[v].empty() || r.p(0.01)) return { "A", 'i', false }; return ks[v][(size_t)r.n((int)ks[v].size())]; }
    // key and a value for it; sometimes a wrong name or type
    void kv(int v, std::string& k, std::string& x)
    {
        KeyG g = key(v); k = g.name; x = val(g.t, g.name);
        if (r.p(pf.err)) { if (r.p(0.5)) k = "Zz"; else x = val(otherType(g.t)); }
    }
    int vault() // an existing vault this client may use
    {
        for (int k = 0; k < 20; ++k) { int v = seq ? r.n(6) : r.p(0.8) ? r.n(nv) : ownV(); if (v >= 0 && vex[v]) return v; }
        return -1;
    }
    int ownV() { if (curThr < 1) return r.n(6); int v = nt <= 2 ? 2 * curThr + r.n(2) : 1 + curThr; return v < nv ? -1 : v; } // vaults below nv are shared
    bool mine(int v) { return seq || v >= nv; }
    int ownR() { return seq || curThr < 1 ? r.n(20) : 10 + 6 * (curThr - 1) + r.n(6); }
    int anyR() { int x = seq ? r.n(20) : r.p(0.65) && !usedRefs.empty() ? usedRefs[(size_t)r.n((int)usedRefs.size())] : ownR(); rused.insert(x); return x; }
    int ownS(bool ex) { for (int k = 0; k < 12; ++k) { int s = seq ? r.n(8) : 4 + 3 * (curThr - 1) + r.n(3); if (sex[s] == ex) return s; } return -1; }
    int anyS() { for (int k = 0; k < 12; ++k) { int s = seq ? r.n(8) : r.p(0.5) && nsh ? r.n(nsh) : 4 + 3 * (curThr - 1) + r.n(3); if (sex[s]) return s; } return -1; }
    Toks record(int v, bool full = false)
    {
        Toks a; long id = rid++; std::vector<std::string> f; f.push_back("Id=l" + N(id));
        for (auto& k : ks[v]) { if (k.name == "Id") continue; if (full || r.p(k.u ? 0.85 : 0.6)) f.push_back(k.name + "=" + val(k.t)); }
        if (r.p(pf.err)) { std::string k, x; kv(v, k, x); if (k != "Id") { bool dup = false; for (auto& y : f) if (y.substr(0, y.find('=')) == k) dup = true; if (!dup) f.push_back(k + "=" + x); } }
        for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[(size_t)r.n((int)i)]);
        a = f; return a;
    }
    std::string amount() { if (r.p(0.05)) return "0"; if (big && r.p(0.9)) return r.p(0.8) ? "-" : "100"; int x = r.n(10); return x < 6 ? "-" : x == 6 ? "1" : x == 7 ? "2" : x == 8 ? "3" : "100"; }
    std::string keep() { if (!r.p(0.25)) return "-"; int x = ownR(); rused.insert(x); return N(x); }
    std::string pred(int v) { int x = r.n(6); if (x == 0) return "T"; if (x == 1) return "F"; std::string k, y; kv(v, k, y); return std::string(x < 4 ? "e" : "n") + ":" + k + ":" + y; }
    std::string expr(int v, int d)
    {
        if (d > 0 && r.p(0.75)) { bool an = r.p(0.6); return std::string(an ? "&" : "/") + "(" + expr(v, d - 1) + ")(" + expr(v, d - 1) + ")"; }
        if (d > 0 && r.p(0.4)) { // bounds of one key: an interval
            KeyG g = key(v); std::string a = val(g.t, g.name), b = val(r.p(0.95) ? g.t : otherType(g.t), g.name), o = "&("; bool pr = r.p(0.3);
            std::string k2 = r.p(0.95) ? g.name : key(v).name;
            std::string e1 = std::string(1, "GH"[r.n(2)]) + ":" + g.name + ":" + a, e2 = std::string(1, "LM"[r.n(2)]) + ":" + k2 + ":" + b;
            if (pr) { std::string q; do q = pred(v); while (q.size() > 60); (r.p(0.5) ? e1 : e2) += ":" + q; }
            if (r.p(0.2)) std::swap(e1, e2);
            return o + e1 + ")(" + e2 + ")";
        }
        std::string k, x; kv(v, k, x); std::string e = std::string(1, "EGHLM"[r.n(5)]) + ":" + k + ":" + x;
        if (r.p(0.25)) { std::string q; do q = pred(v); while (q.size() > 60); e += ":" + q; }
        return e;
    }
    // the highest slot in which the vault of a set may be by now: requests and set operations can fail and keep the
    // vault a set had before, and moving a vault takes its sets along
    int topPar(int s) { int t = spar[s]; for (int v = 0; v < 6; ++v) if (smask[s] >> v & 1) t = std::max(t, v); return t; }
    // reads of the same vault, anything on a higher numbered one
    void subs(int v, bool sameOk, double prob)
    {
        if (!r.p(prob)) return;
        int par = p.ops.back().id, n = 1 + r.n(3);
        for (int i = 0; i < n; ++i) {
            POp o; o.id = nid++; o.parent = par; o.thr = curThr; int hi = -1;
            if (!seq) { for (int k = v + 1; k < nv; ++k) if (vex[k] && r.p(0.6)) hi = k; } else for (int k = v + 1; k < 6; ++k) if (vex[k] && r.p(0.5)) hi = k;
            if (hi < 0 && !sameOk) continue;
            int c = hi >= 0 && (r.p(0.7) || !sameOk) ? hi : v; std::string k, x; kv(c, k, x);
            switch (c == v ? r.n(5) : r.n(11)) {
            case 0: o.name = "size"; o.a = { N(c) }; break;
            case 1: o.name = "getm"; o.a = { N(c), k, x, amount(), "-" }; break;
            case 2: o.name = "sorted"; o.a = { N(c), k, N(r.n(2)), amount(), "-" }; break;
            case 3: o.name = "haskey"; o.a = { N(c), k }; break;
            case 4: o.name = "keys"; o.a = { N(c) }; break;
            case 5: case 6: { o.name = "create"; o.a = { N(c), "-" }; for (auto& y : record(c)) o.a.push_back(y); break; }
            case 7: o.name = "erasek"; o.a = { N(c), k, x }; break;
            case 8: o.name = "erasem"; o.a = { N(c), k, x, amount() }; break;
            case 9: o.name = "tostr"; o.a = { N(c) }; break;
            default: o.name = "addkey"; o.a = { N(c), "X", val('i') }; break;
            }
            p.ops.push_back(o);
        }
    }
    std::string csvField(const std::string& f, char sep, double q) { bool need = r.p(q); for (char c : f) if (c == sep || c == '"' || c == '\n' || c == '\r') need = true; if (!need) return f; std::string o = "\""; for (char c : f) { if (c == '"') o += '"'; o += c; } return o + "\""; }
    std::string outside(char t) // a whole number just beyond the type, or not quite a number
    {
        static const char* odd[] = { "-", "1.5", "1-", "0x1", "1e1" }; if (r.p(0.3)) return odd[r.n(5)];
        bool lo = r.p(0.4);
        switch (t) {
        case 'i': return lo ? "-2147483649" : r.p(0.5) ? "2147483648" : "4294967296";
        case 'l': return lo ? "-9223372036854775809" : "9223372036854775808";
        case 'h': return lo ? "-32769" : r.p(0.5) ? "32768" : "65536";
        case 'c': return lo ? "-129" : r.p(0.5) ? "128" : "256";
        case 'u': return lo ? "-1" : "18446744073709551616";
        case 'w': return lo ? "-1" : "4294967296";
        case 'k': return lo ? "-1" : "65536";
        case 'z': { static const char* z[] = { "<>", "<,\">", "<1,\"", "1", "<x,\">" }; return z[r.n(5)]; }
        case 'y': return lo ? "-1" : "256";
        default: return "tru";
        }
    }
    // a well-formed file for vault v; bad = share of rows with an unacceptable field
    std::string csvFile(int v, char sep, bool hdr, double bad, int rows, const std::vector<KeyG>& cols, bool unknownCol)
    {
        std::string o, nl = r.p(0.5) ? "\r\n" : "\n";
        auto line = [&](const std::vector<std::string>& f, bool last) {
            for (size_t i = 0; i < f.size(); ++i) { if (i) o += sep; std::string x = csvField(f[i], sep, 0.1); if (f.size() == 1 && x.empty()) x = "\"\""; o += x; }
            if (!last || r.p(0.7)) o += nl;
        };
        std::vector<std::string> h; for (auto& c : cols) h.push_back(dec(c.name));
        if (unknownCol && hdr && !h.empty()) { std::string& u = h[(size_t)r.n((int)h.size())]; if (u != "Id") u = "Zz"; }
        if (hdr) line(h, rows == 0);
        for (int i = 0; i < rows; ++i) {
            std::vector<std::string> f; int badAt = r.p(bad) && cols.size() > 0 ? r.n((int)cols.size()) : -1;
            for (size_t c = 0; c < cols.size(); ++c) {
                if (cols[c].name == "Id") { f.push_back(N(rid++)); if ((int)c == badAt) f.back() = r.p(0.5) ? "x" : "1x"; continue; }
                std::string tok = val(cols[c].t), t = cols[c].t == 's' ? dec(tok.substr(1)) : tok.substr(1);
                if (cols[c].t != 's' && r.p(0.7)) t = num::plain(tok); else if (cols[c].t == 'b' || cols[c].t == 'z') t = num::plain(tok);
                if ((int)c == badAt && cols[c].t != 's') { static const char* b[] = { "", "abc", "1x", "--1", "x", "99999999999999999999", "-99999999999999999999" }; t = b[r.n(num::isFloat(cols[c].t) ? 5 : 7)]; if (num::isFloat(cols[c].t)) { static const char* q[] = { "1e", "1e+", "e5", ".", "-", "-.", "1.2.3", "1e5x", "1e400", "-1e400", "1,5", "1-", "nan1" }; if (r.p(0.6)) t = q[r.n(13)]; } else if (r.p(0.4)) t = outside(cols[c].t); }
                f.push_back(t);
            }
            if (r.p(bad * 0.3) && f.size() > 2 && cols.back().name != "Id") f.pop_back();
            else if (r.p(bad * 0.3)) f.push_back("extra");
            line(f, i + 1 == rows);
        }
        return o;
    }
    std::vector<KeyG> shuffled(std::vector<KeyG> k) { for (size_t i = k.size(); i > 1; --i) std::swap(k[i - 1], k[(size_t)r.n((int)i)]); return k; }
    std::string keyArg(const std::vector<KeyG>& k) { std::string s; for (auto& x : k) s += (s.empty() ? "" : ",") + x.name; return s; }
    std::string lockProgram(int m, int depth, bool plain, bool heldR)
    {
        std::string o; int n = depth == 0 ? 1 + r.n(2) : depth == 1 ? r.n(3) : r.n(2);
        for (int i = 0; i < n; ++i) {
            if (r.p(0.4)) o += ".";
            if (depth >= 4 || (plain && depth >= 1)) { if (depth >= 1 && r.p(0.5)) o += "."; continue; }
            char c = "rwRW"[r.n(4)]; o += c; o += "(";
            o += lockProgram(m, depth + 1, plain, true);
            if (!plain && m + 1 < nm && mtype[m + 1] == 'r' && r.p(0.15)) { o += N(m + 1); o += "w(."; o += lockProgram(m + 1, 3, false, true); o += ")"; o += N(m); }
            o += ")";
        }
        return o;
    }
    void gen1(const std::string& n)
    {
        std::string k, x; int v = vault();
        auto vs = [&]() { return N(v); };
        static const std::set<std::string> onlyOwnVault = { "dropvault", "delv", "asgv", "movev", "mvav" };
        if (n == "lock") { if (!nm) return; int m = r.n(nm); std::string pr = lockProgram(m, 0, mtype[m] == 'p', false); if (pr.empty()) pr = "r()"; if (mtype[m] == 'r' && r.p(0.02)) { std::string in = "."; bool first = r.p(0.5); for (int i = 0, n = r.p(0.1) ? 250 + r.n(100) : 6 + r.n(60); i < n; ++i) in = std::string(1, first ? "wW"[r.n(2)] : "rwRW"[r.n(4)]) + "(" + in + (r.p(0.1) ? "." : "") + ")"; pr = in; } op("lock", { N(m), pr }); return; }
        if (n == "uuid") { op("uuid", {}); return; }
        if (n == "box") { static const char* kd[] = { "saver", "map", "hmap", "mmap", "hmmap", "csv" }; op("box", { kd[r.n(faults ? 5 : 6)], N(1 + r.n(14)), N((long)(r.next() & 0xffffff)) }); return; }
        if (n == "tmpname") { static const char* pre[] = { "%61", "", "pre-", "x_" }; op("tmpname", { pre[r.n(4)] }); if (p.ops.back().a[0].empty()) p.ops.back().a[0] = "a"; return; }
        // ---- vault life cycle
        if (n == "newv" || n == "copyv" || n == "movev") {
            int d = -1; for (int i = 0; i < 8 && d < 0; ++i) { int c = ownV(); if (c >= 0 && c < 6 && !vex[c]) d = c; }
            if (d < 0) return;
            if (n == "newv") { op("newv", { N(d) }); vex[d] = true; ks[d].clear(); schema(d); return; }
            if (v < 0 || (n == "movev" && !mine(v)) || v == d) return;
            op(n, { N(d), vs() }); vex[d] = true; ks[d] = ks[v]; if (n == "movev") { ks[v].clear(); for (auto& m : smask) if (m >> v & 1) m |= 1u << d; }
            return;
        }
        if (onlyOwnVault.count(n)) {
            int d = -1; for (int i = 0; i < 8 && d < 0; ++i) { int c = ownV(); if (c >= 0 && c < 6 && vex[c] && mine(c)) d = c; }
            if (d < 0) return;
            if (n == "dropvault") { op(n, { N(d) }); ks[d].clear(); if (r.p(0.7)) schema(d); return; }
            if (n == "delv") { op(n, { N(d) }); vex[d] = false; ks[d].clear(); return; }
            if (v < 0 || (n == "mvav" && !mine(v))) return;
            op(n, { N(d), vs() }); if (d != v) { ks[d] = ks[v]; if (n == "mvav") { ks[v].clear(); for (auto& m : smask) if (m >> v & 1) m |= 1u << d; } }
            return;
        }
        // ---- sets
        if (n == "news") { int s = ownS(false); if (s < 0) return; op(n, { N(s) }); sex[s] = true; smask[s] = 0; return; }
        if (n == "dels") { int s = ownS(true); if (s < 0) return; op(n, { N(s) }); sex[s] = false; return; }
        if (n == "scopyc" || n == "smovec") { int d = ownS(false), s = n == "scopyc" ? anyS() : ownS(true); if (d < 0 || s < 0) return; op(n, { N(d), N(s) }); sex[d] = true; spar[d] = spar[s]; smask[d] = smask[s]; return; }
        if (n == "sasgn" || n == "smova") { int d = ownS(true), s = n == "sasgn" ? anyS() : ownS(true); if (d < 0 || s < 0) return; op(n, { N(d), N(s) }); spar[d] = spar[s]; smask[d] |= smask[s]; return; }
        if (n == "sreset") { int s = ownS(true); if (s < 0) return; op(n, { N(s) }); return; }
        if (n == "sadd" || n == "srm" || n == "schk") { int s = anyS(); if (s < 0) return; op(n, { N(s), N(anyR()) }); return; }
        if (n == "sclear" || n == "svalid" || n == "ssize" || n == "stostr" || n == "skeys" || n == "sukeys") { int s = anyS(); if (s < 0) return; op(n, { N(s) }); return; }
        if (n == "sjson") { int s = anyS(); if (s < 0) return; op(n, { N(s), N(r.n(2)) + N(r.n(2)) + N(r.n(2)) }); return; }
        if (n == "saudit") { if (!seq) return; int s = anyS(); if (s < 0) return; op(n, { N(s), N(r.n(2)) }); return; }
        if (n == "spid" && !seq) return;
        if (n == "sjoin" || n == "spid" || n == "sexcl" || n == "sint" || n == "seq" || n == "sne") { int a = anyS(), b = anyS(); if (a < 0 || b < 0) return; op(n, { N(a), N(b) }); return; }
        if (n == "sunion" || n == "sinter") { int a = anyS(), b = anyS(), c = ownS(true); if (a < 0 || b < 0 || c < 0) return; op(n, { N(a), N(b), N(c) }); spar[c] = spar[a]; smask[c] |= smask[a] | smask[b]; return; }
        // ---- handles
        if (n == "rset" || n == "rget" || n == "rstr" || n == "rsetm" || n == "rhas") {
            int q = anyR(); int g = r.p(0.8) ? 0 : r.n(nv > 0 ? nv : 1); kv(g, k, x);
            if (n == "rset" || n == "rsetm") if (k == "Id") { k = "A"; x = val('i'); }
            if (n == "rset" || n == "rget") op(n, { N(q), k, x });
            else if (n == "rsetm") { Toks a{ N(q) }; std::set<std::string> u; int c = 1 + r.n(4); for (int i = 0; i < c; ++i) { kv(g, k, x); if (k == "Id" || !u.insert(k).second) continue; a.push_back(k + "=" + x); } if (a.size() == 1) a.push_back("A=" + val('i')); op(n, a); }
            else op(n, { N(q), k });
            return;
        }
        if (n == "rvalid" || n == "rkeys" || n == "rid" || n == "rtostr") { op(n, { N(anyR()) }); return; }
        if (n == "rprint") { op(n, { N(anyR()) }); return; }
        if (n == "btfmt") { if (seq) op(n, { N(r.n(2)) }); return; }
        if (n == "rjson") { op(n, { N(anyR()), N(r.n(2)) }); return; }
        if (n == "rcopy" || n == "rcopyc") { int d = ownR(); rused.insert(d); op(n, { N(d), N(anyR()) }); return; }
        if (n == "rmove" || n == "rmovec") { int d = ownR(), s = ownR(); if (d == s) return; rused.insert(d); rused.insert(s); op(n, { N(d), N(s) }); return; }
        if (n == "rreset") { op(n, { N(ownR()) }); return; }
        if (n == "reqq" || n == "rneq") { op(n, { N(anyR()), N(anyR()) }); return; }
        // ---- on a set or a vault
        bool onS = n[0] == 's' && n != "size" && n != "sorted" && n != "sortby" && n != "save"; std::string b = onS ? n.substr(1) : n, c; int g = v, top = v;
        if (onS) { int s = anyS(); if (s < 0) return; c = N(s); g = spar[s]; top = topPar(s); } else { if (v < 0) return; c = vs(); }
        kv(g, k, x);
        if (b == "keyval") { op(n, { c, k, x.substr(0, 1) }); return; }
        if (b == "keys" || b == "ukeys" || b == "size" || b == "tostr") { op(n, { c }); return; }
        if (b == "haskey" || b == "keytype") { op(n, { c, k }); return; }
        if (b == "erasek" || b == "rmk") { op(n, { c, k, x }); return; }
        if (b == "erasem" || b == "rmm") { op(n, { c, k, x, amount() }); return; }
        if (b == "get") { int q = ownR(); rused.insert(q); op(n, { c, k, x, N(q) }); return; }
        if (b == "getm") { std::string kp = keep(); Toks a{ c, k, x, amount(), kp }; if (r.p(0.2)) { int q = ownR(); rused.insert(q); a.push_back(N(q)); } op(n, a); return; }
        if (b == "sorted") { op(n, { c, k, N(r.n(2)), amount(), keep() }); return; }
        if (b == "sortby") { KeyG rk = key(g); op(n, { c, k, N(r.n(2)), amount(), rk.name + ":" + std::string(1, r.p(0.95) ? rk.t : 'i'), N(r.p(0.3) ? 1 + r.n(3) : 0), keep() }); subs(top, vex[top], pf.subs); return; }
        if (b == "req") {
            int t = onS && r.p(0.03) ? AI(c) : ownS(true); if (t < 0) return;
            if (onS && t == AI(c) && !(seq || (t >= 4))) return;
            std::string x2 = x.size() ? val(x[0], k) : x; bool pr = r.p(0.35);
            std::string am = amount(); int kind = r.n(6);
            if (r.p(0.12)) { // few distinct values, a limit and a condition at once
                for (auto& kk : ks[g]) if (!kk.u && kk.t == 'i' && kk.name == "A") { k = "A"; x = "i" + N(r.n(3)); x2 = "i" + N(1 + r.n(3)); kind = r.p(0.5) ? 0 : r.n(6); pr = true; am = N(1 + r.n(3)); if (r.p(0.5)) x = V(x), x2 = V(x2); }
            }
            op(n, { c, N(t), N(kind), k, x, x2, r.p(0.5) ? "-" : N(r.n(2)) + N(r.n(2)), am, pr ? pred(g) : "-" });
            spar[t] = g; smask[t] |= onS ? smask[AI(c)] : 1u << g; if (pr) subs(top, vex[top], pf.subs);
            return;
        }
        if (b == "reqx") { int t = ownS(true); if (t < 0) return; if (onS && t == AI(c)) return; op(n, { c, N(t), expr(g, r.p(0.05) ? 4 : 1 + r.n(2)), N(r.p(0.5) ? 0 : r.n(28)) }); spar[t] = g; smask[t] |= onS ? smask[AI(c)] : 1u << g; return; }
        if (b == "print" || b == "ptable") {
            if (b == "ptable" && !seq) return;
            std::vector<KeyG> cols = shuffled(ks[g]); if (cols.size() > 1) cols.resize((size_t)(1 + r.n((int)cols.size()))); std::string kl = r.p(0.5) || cols.empty() ? "-" : keyArg(cols);
            if (kl != "-" && r.p(pf.err)) kl += ",Zz";
            op(n, { c, N(r.n(2)), amount(), b == "print" && r.p(0.5) ? "-"   : k, N(r.n(2)), kl }); return;
        }
        if (b == "json") { op(n, { c, N(r.n(2)) + N(r.n(2)) + N(r.n(2)) }); return; }
        if (b == "save") {
            std::string f = "/sim/o" + N(curThr) + (r.p(0.5) ? "a" : "b"); std::vector<KeyG> cols = shuffled(ks[g]); if (cols.empty()) return; if (r.p(0.4) && cols.size() > 1) cols.resize((size_t)(1 + r.n((int)cols.size())));
            static const char* multi[] = { "::", ", ", "<>", ";;;" }; op(n, { c, f, enc(r.p(0.1) ? std::string(multi[r.n(4)]) : std::string(1, ",;|\t"[r.n(4)])), N(r.p(0.8)), r.p(0.4) ? "-" : keyArg(cols) });
            if (r.p(0.6)) op("file", { f });
            return;
        }
        if (onS) return;
        if (n == "addkey") { std::string nm2 = r.p(pf.err) && !ks[v].empty() ? key(v).name : r.p(0.5) ? "X" : "Y"; char t = nm2 == "X" ? 'i' : 's'; op(n, { c, nm2, val(t) }); addK(v, nm2, t, false); return; }
        if (n == "adduk" || n == "addukl") { std::string nm2 = r.p(pf.err) && !ks[v].empty() ? key(v).name : r.p(0.5) ? "P" : "Q"; char t = nm2 == "P" ? 'i' : 's'; if (n == "adduk") op(n, { c, nm2, std::string(1, t) }); else { int m = r.n(8); op(n, { c, nm2, std::string(1, t), m == 0 ? "const" : m == 1 ? "mod2" : "id" }); } addK(v, nm2, t, true); if (n == "addukl") subs(v, false, pf.subs); return; }
        if (n == "updkey") { op(n, { c, k, x }); return; }
        if (n == "rmkey") { if (k == "Id") k = "A"; op(n, { c, k }); if (r.p(0.5)) { for (auto& q : ks[v]) if (q.name == k) { if (r.p(0.7)) { op("addkey", { c, k, val(q.t) }); } break; } } return; }
        if (n == "create") { int q = ownR(); std::string ref = r.p(0.6) ? N(q) : "-"; if (ref != "-") rused.insert(q); Toks a{ c, ref }; for (auto& y : record(v)) a.push_back(y); op(n, a); return; }
        if (n == "erase") { op(n, { c, N(anyR()) }); return; }
        if (n == "dropdata") { op(n, { c }); return; }
        if (n == "audit") { if (!seq) return; op(n, { c, N(r.n(2)) }); return; }
        if (n == "errs") { op(n, { c }); return; }
        if (n == "load" || n == "loadh") {
            bool hasId = false; for (auto& q : ks[v]) if (q.name == "Id") hasId = true; if (!hasId) return;
            char sep = ",;|"[r.n(3)]; bool hdr = n == "loadh" || r.p(0.6), user = !hdr && r.p(0.5); std::vector<KeyG> cols = hdr || user ? shuffled(ks[v]) : ks[v];
            if ((hdr || user) && cols.size() > 2 && r.p(0.4)) { KeyG l = cols.back(); if (l.name != "Id") cols.pop_back(); }
            // without key names columns follow the key order, which is only known here when no client changes the schema
            if (!hdr && !user && (schemaOps || r.p(0.5))) user = true;
            std::string f = "/sim/l" + N(curThr) + "_" + N(nfile++ % 3);
            op("put", { f, enc(csvFile(v, sep, hdr, r.p(0.4) ? 0.35 : 0, r.p(0.06) ? 10 + r.n(40) : r.n(5), cols, r.p(0.05))) });
            if (n == "load") op(n, { c, f, enc(std::string(1, sep)), N(hdr), user ? keyArg(cols) : "-" });
            else { op(n, { c, f, enc(std::string(1, sep)), r.p(0.5) ? "blankB" : "none" }); subs(v, false, pf.subs); }
            if (r.p(0.4)) op("errs", { c });
            return;
        }
    }
    void addK(int v, const std::string& n, char t, bool u) { for (auto& k : ks[v]) if (k.name == n) return; ks[v].push_back({ n, t, u }); }
    void schema(int v)
    {
        std::vector<KeyG> k; k.push_back({ "Id", 'l', junk || r.p(0.3) });
        k.push_back({ "A", 'i', false });
        if (r.p(0.75)) k.push_back({ "B", 's', false });
        if (r.p(0.3)) k.push_back({ "C", 'd', false });
        if (r.p(0.25)) k.push_back({ "D", 'l', false });
        double rare = pf.mode[0] == 'c' ? 0.2 : 0.06;
        if (r.p(rare)) k.push_back({ "E", 'b', false });
        if (r.p(rare)) k.push_back({ "F", 'f', false });
        if (r.p(rare)) k.push_back({ "G", 'h', false });
        if (r.p(rare)) k.push_back({ "H", 'u', false });
        if (r.p(rare)) k.push_back({ "J", "wkcyzz"[r.n(6)], false });
        if (r.p(pf.uniq)) k.push_back({ "U", r.p(0.8) ? 'i' : "lzwdyhfbk"[r.n(9)], true });
        if (r.p(pf.uniq * 0.4)) k.push_back({ "W", 's', true });
        if (special && r.p(0.35)) { // names that need quoting or are unusual
            static const char* odd[] = { "a,b", "q\"x", " s", "b ", "\xc3\xa9", "Record0", "two words", "x\\y", "%", "a;b", "'k'", "tab\tk", "l\nf", "r\r", "|", "a", "AA", "id", "null", "{}" };
            k.push_back({ enc(r.p(0.9) ? odd[r.n(20)] : std::string(70, 'k')), r.p(0.5) ? 'i' : 's', false });
        }
        if (r.p(0.02)) for (int i = 0, n = 6 + r.n(14); i < n; ++i) k.push_back({ "K" + N(i), "iisld"[r.n(5)], r.p(0.1) });
        k = shuffled(k);
        for (auto& q : k) {
            if (q.u) op("adduk", { N(v), q.name, std::string(1, q.t) });
            else op("addkey", { N(v), q.name, q.name == "Id" ? "l0" : val(q.t) });
            ks[v].push_back(q);
        }
    }
    std::vector<std::pair<std::string, int>> weights; int wsum = 0;
    void parseW(const char* w) { for (auto& e : split(w, ' ')) { if (e.empty()) continue; Toks t = split(e, ':'); weights.emplace_back(t[0], AI(t[1])); wsum += AI(t[1]); } }
    const std::string& pickW() { int x = r.n(wsum); for (auto& w : weights) { if (x < w.second) return w.first; x -= w.second; } return weights[0].first; }
    void schedule()
    {
        int s = r.n(20); auto& c = p.cfg;
        c["seed"] = (long long)(r.next() & 0x7fffffff);
        if (s < 9) { c["strategy"] = 1; static const int sw[] = { 30, 80, 150, 300, 500 }; c["switch"] = sw[r.n(5)]; }
        else if (s < 15) { c["strategy"] = 2; c["pctd"] = 1 + r.n(5); c["pctn"] = 60 + r.n(900); }
        else if (s < 18) c["strategy"] = 3;
        else c["strategy"] = 0;
        if (r.p(pf.memP) && c["strategy"] == 1) { c["mem"] = 1; static const int mp[] = { 20, 60, 150, 400 }; c["memper"] = mp[r.n(4)]; }
        if (r.p(pf.memP * 0.6) && c["strategy"] == 2) { c["mem"] = 1; c["pctn"] = 1500 + r.n(9000); }
        if (r.p(0.3)) c["spur"] = r.p(0.5) ? 8 : 40;
        c["reuse"] = r.n(2);
    }
    void faultsFor(bool rd, bool wr)
    {
        int k = 1 + (r.p(0.2) ? 1 : 0);
        for (int i = 0; i < k; ++i) {
            std::string nth = r.p(0.2) ? N(-(1 + r.n(3))) : N(1 + r.n(4));
            int x = r.n(10);
            if (wr && (!rd || r.p(0.5))) {
                static const char* err[] = { "EIO", "ENOSPC", "EDQUOT", "EFBIG" };
                if (x < 2) p.env.push_back("fault open " + nth + (r.p(0.5) ? " EACCES" : " EMFILE"));
                else if (x < 5) p.env.push_back("fault write " + nth + " " + err[r.n(4)]);
                else if (x == 5) p.env.push_back("fault write 0 short " + N(1 + r.n(7)));
                else if (x == 6) p.env.push_back("fault write " + N(1 + r.n(2)) + " full " + N(r.n(60)));
                else if (x == 7) p.env.push_back("fault write " + N(1 + r.n(3)) + " EINTR");
                else if (x == 8) p.env.push_back("fault close " + N(1 + r.n(2)) + (r.p(0.5) ? " EIO" : " ENOSPC"));
                else p.env.push_back("fault close " + N(1 + r.n(2)) + " lose " + N(r.n(40)));
            } else {
                if (x < 2) p.env.push_back("fault open " + nth + (r.p(0.5) ? " EACCES" : " EMFILE"));
                else if (x < 5) p.env.push_back("fault read " + nth + " EIO");
                else if (x == 5) p.env.push_back("fault read 0 short " + N(1 + r.n(9)));
                else if (x == 6) p.env.push_back("fault read " + N(1 + r.n(3)) + " EINTR");
                else if (x == 7) p.env.push_back("fault read " + nth + " short " + N(1 + r.n(20)));
                else if (x == 8) p.env.push_back("fault read " + N(-(1 + r.n(3))) + " eof");
                else p.env.push_back("fault seek " + N(1 + r.n(2)) + " ESPIPE");
            }
        }
    }
    void csvMode(int)
    {
        // the vault has been filled by setup; clients save, load and modify
        std::string mode = pf.mode; faults = r.p(pf.fault);
        if (r.p(0.5)) p.meta += " small";
        if (mode == "csvsave") {
            int n = 1 + r.n(pf.seqHi - 1);
            for (int i = 0; i < n; ++i) {
                if (r.p(0.35) && nsh) gen1("ssave"); else gen1("save");
                if (r.p(0.5)) gen1(r.p(0.5) ? "create" : r.p(0.5) ? "rset" : "erase");
            }
            if (faults) faultsFor(false, true);
        } else if (mode == "csvround") {
            bool hdr = r.p(0.7); std::vector<KeyG> cols = shuffled(ks[0]); char sep = ",;|\t:a"[r.n(6)];
            if (sep == 'a' && hdr) sep = '#';
            bool user = !hdr || r.p(0.5); std::string f = "/sim/rt";
            // same keys on both vaults (setup guarantees it)
            op("save", { "0", f, enc(std::string(1, sep)), N(hdr), user ? keyArg(cols) : "-" });
            if (r.p(0.3)) { gen1("rset"); }
            op("load", { "1", f, enc(std::string(1, sep)), N(hdr), hdr ? "-" : user ? keyArg(cols) : "-" });
            op("errs", { "1" });
            if (r.p(0.3)) { op("save", { "1", "/sim/rt2", enc(","), "1", "-" }); op("dropdata", { "1" }); op("load", { "1", "/sim/rt2", enc(","), "1", "-" }); op("errs", { "1" }); }
            if (faults) { // only faults the operating system is free to produce without losing data
                static const char* e[] = { "fault write 0 short 1", "fault write 0 short 5", "fault read 0 short 1", "fault read 0 short 3", "fault read 1 EINTR", "fault write 1 EINTR", "fault read 2 EINTR", "fault read 1 short 2" };
                p.env.push_back(e[r.n(8)]); if (r.p(0.3)) p.env.push_back(e[r.n(8)]);
            }
        } else {
            int n = 1 + r.n(pf.seqHi);
            if (junk) { p.meta += " nolin"; op("audit", { "0", "0" }); }
            for (int i = 0; i < n; ++i) {
                if (!junk) { gen1(r.p(0.7) ? "load" : "loadh"); op("errs", { "0" }); if (r.p(0.4)) gen1(r.p(0.5) ? "create" : "rset"); continue; }
                std::string d; int L = r.n(60); static const char* pieces[] = { ",", "\"", "\n", "\r", "\r\n", "Id", "A", "B", "U", "1", "2", "a", ";", "\"\"", "\n\n", "-", "x", "\xff", "Id,A\n", "99", ",,", "\"a\"b" };
                if (r.p(0.5)) { d = csvFile(0, ',', true, 0.3, r.n(4), shuffled(ks[0]), false); for (int q = 1 + r.n(4); q-- && !d.empty();) { int at = r.n((int)d.size()); if (r.p(0.4)) d.erase((size_t)at, (size_t)(1 + r.n(4))); else if (r.p(0.5)) d.insert((size_t)at, pieces[r.n(22)]); else d.resize((size_t)at); } }
                else for (int q = 0; q < L; ++q) d += pieces[r.n(22)];
                if (r.p(0.05)) d = std::string(1, '\0') + d;
                std::string f = "/sim/j" + N(i);
                op("put", { f, enc(d) });
                if (r.p(0.1)) { p.env.push_back("mkdir /sim/dir"); f = "/sim/dir"; } else if (r.p(0.05)) f = "/sim/none";
                bool h = r.p(0.6);
                if (r.p(0.8)) op("load", { "0", f, r.p(0.8) ? "%2C" : "%3B", N(h), h || r.p(0.5) ? "-" : keyArg(shuffled(ks[0])) }); else op("loadh", { "0", f, "%2C", "blankB" });
                op("errs", { "0" });
            }
            if (faults) faultsFor(true, false);
        }
    }
    Plan make()
    {
        parseW(pf.w); for (auto& w : weights) if (w.first == "addkey" || w.first == "rmkey" || w.first == "adduk" || w.first == "addukl") schemaOps = true;
        special = r.p(pf.special); std::string mode = pf.mode;
        seq = r.p(pf.seqP); bool leak = r.p(pf.leak);
        nt = seq ? 0 : pf.thrLo + r.n(pf.thrHi - pf.thrLo + 1); if (!seq && r.p(0.35)) nt = 2; if (!seq && mode == "lock" && r.p(0.04)) nt = 5 + r.n(4);
        schedule(); if (seq) { p.cfg.erase("mem"); p.cfg["strategy"] = 0; }
        if (mode == "lock" || strstr(pf.w, "lock:")) { nm = 1 + r.n(2); for (int i = 0; i < nm; ++i) { mtype += r.p(mode == "lock" ? 0.35 : 0.0) ? 'p' : 'r'; op("newm", { N(i), std::string(1, mtype[i]) }, 0); } }
        p.env.push_back("rnd " + N((long)(r.next() & 0xffffff)) + " " + N(mode == "uuid" ? (r.p(0.6) ? 0 : r.n(4)) : 0));
        bool savedSeq = seq; seq = true; curThr = 0;
        nv = pf.nvLo + r.n(pf.nvHi - pf.nvLo + 1);
        if (mode == "debug") { p.meta += " debug"; op("btfmt", { N(r.p(0.8)) }); if (r.p(0.6)) p.env.push_back("btlimit " + N(1 + r.n(9))); }
        junk = mode == "csvload" && r.p(0.3);   // arbitrary bytes: Id is unique, so that the audit can tell records apart
        for (int v = 0; v < nv; ++v) {
            op("newv", { N(v) }); vex[v] = true;
            if (mode == "csvround" && v == 1) { for (auto& q : ks[0]) { if (q.u) op("adduk", { "1", q.name, std::string(1, q.t) }); else op("addkey", { "1", q.name, val(q.t, q.name) }); ks[1].push_back(q); } continue; }
            schema(v);
            int n = r.n(pf.recHi + 1); if (v > 0) n = n / 2;
            if (mode == "csvround" && r.p(0.1)) n += 20;
            if (v == 0 && r.p(savedSeq ? 0.05 : 0.015)) { n += 8 + r.n(40); if (savedSeq && r.p(0.1) && ks[v].size() < 10) n += 60 + r.n(150); big = true; } // enough for hash tables to grow several times
            for (int i = 0; i < n; ++i) { Toks a{ N(v), "-" }; if (usedRefs.size() < 10 && r.p(0.8)) { a[1] = N((long)usedRefs.size()); rused.insert((int)usedRefs.size()); usedRefs.push_back((int)usedRefs.size()); } for (auto& y : record(v)) a.push_back(y); op("create", a); }
        }
        bool wantSets = strstr(pf.w, "sadd") || strstr(pf.w, "req:") || mode == "csvsave";
        if (wantSets && nv) {
            nsh = r.n(4);
            for (int s = 0; s < nsh; ++s) { op("news", { N(s) }); sex[s] = true; int v = r.p(0.75) ? 0 : r.n(nv); spar[s] = v; smask[s] = 1u << v; std::string k, x; kv(v, k, x); op("req", { N(v), N(s), N(r.p(0.6) ? 2 : r.n(6)), "A", r.p(0.6) ? "i-1" : val('i'), val('i'), "-", "-", "-" }); }
            if (!savedSeq) { for (int t = 1; t <= nt; ++t) for (int k = 0; k < 3; ++k) if (k == 0 || r.p(0.4)) { int s = 4 + 3 * (t - 1) + k; op("news", { N(s) }); sex[s] = true; spar[s] = 0; if (r.p(0.5)) { int v = r.n(nv); spar[s] = v; smask[s] = 1u << v; op("req", { N(v), N(s), "2", "A", "i-1", "i0", "-", amount(), "-" }); } } }
            else for (int s = 4; s < 6; ++s) { op("news", { N(s) }); sex[s] = true; }
        }
        if (!savedSeq && nv) for (int t = 1; t <= nt; ++t) for (int k = 0; k < 2; ++k) if (!usedRefs.empty() && r.p(0.6)) { int q = 10 + 6 * (t - 1) + k; rused.insert(q); op("rcopy", { N(q), N(usedRefs[(size_t)r.n((int)usedRefs.size())]) }); }
        if (mode == "csvsave" && nv == 1) { }
        seq = savedSeq;
        if (mode == "csvsave" || mode == "csvround" || mode == "csvload") {
            if (seq) { curThr = 0; csvMode(0); }
            else {
                curThr = 1; csvMode(1);
                if (!faults && mode != "csvround" && !junk) for (int t = 2; t <= nt; ++t) { curThr = t; int n = pf.perLo + r.n(pf.perHi - pf.perLo + 1); static const char* o[] = { "rset", "rsetm", "create", "erase", "save", "load", "size", "tostr", "errs" }; for (int i = 0; i < n; ++i) gen1(o[r.n(9)]); }
                else nt = 1;
            }
        } else if (seq) { int n = pf.seqLo + r.n(pf.seqHi - pf.seqLo + 1); if (r.p(0.02)) n *= 3 + r.n(3); for (int i = 0; i < n; ++i) gen1(pickW()); }
        else for (int t = 1; t <= nt; ++t) { curThr = t; int n = pf.perLo + r.n(pf.perHi - pf.perLo + 1); for (int i = 0; i < n; ++i) gen1(pickW()); }
        // afterwards everything is looked at
        curThr = 99;
        if (faults) op("faults", { "off" });
        int full = r.n(3) == 0;
        for (int v = 0; v < 6; ++v) if (vex[v]) op("audit", { N(v), N(full) });
        for (int s = 0; s < 16; ++s) if (sex[s]) op("saudit", { N(s), N(full) });
        for (int q : rused) { op("rvalid", { N(q) }); if (r.p(0.4)) op("rtostr", { N(q) }); else op("rget", { N(q), "Id", "l0" }); }
        if (nv && r.p(0.5)) { int v = r.n(nv); if (vex[v]) { Toks a{ N(v), "-" }; for (auto& y : record(v)) a.push_back(y); op("create", a); op("audit", { N(v), "0" }); } }
        static const char* tds[] = { "srv", "vsr", "svr", "rvs", "rsv", "vrs" };
        p.td = tds[r.n(6)];
        if (leak && nt <= 4) p.cfg["leak"] = 1;
        if (mode == "uuid") { }
        return p;
    }
};
static inline const Profile* profile(const std::string& id) { for (auto& p : PROFILES) if (id == p.id) return &p; return nullptr; }

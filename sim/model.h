// Executable reference model of MVault and a linearizability search over it.
// Knows nothing about the library: it sees only plans and recorded results.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <functional>
#include <cerrno>
#include <cmath>
#include "num.h"

typedef std::vector<std::string> Toks;
typedef std::string Str_;
static inline Toks split(const std::string& s, char c)
{
    Toks r; std::string cur;
    for (char x : s) if (x == c) { r.push_back(cur); cur.clear(); } else cur += x;
    r.push_back(cur);
    return r;
}
static inline std::string dec(const std::string& s)
{
    auto hv = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size()) { o += (char)(hv(s[i + 1]) * 16 + hv(s[i + 2])); i += 2; } else o += s[i];
    return o;
}
static inline std::string enc(const std::string& s)
{
    static const char* hx = "0123456789ABCDEF";
    std::string o;
    for (unsigned char c : s) if (c > 32 && c < 127 && !strchr("%|,=:;[]()", c)) o += (char)c; else { o += '%'; o += hx[c >> 4]; o += hx[c & 15]; }
    return o;
}
// ---------------------------------------------------------------- values
// a value is its token ("i5", "sabc", "l7", "d0.5"); tokens are interned
struct Intern {
    std::vector<std::string> s; std::unordered_map<std::string, int> m;
    int of(const std::string& x) { auto it = m.find(x); if (it != m.end()) return it->second; int i = (int)s.size(); s.push_back(x); m.emplace(x, i); return i; }
    const std::string& at(int i) const { return s[i]; }
};
static thread_local Intern IN;
static inline int iv(const std::string& s) { return IN.of(s); }
static inline char vt(int v) { return IN.at(v)[0]; }
static inline bool vless(int a, int b)
{
    const std::string &x = IN.at(a), &y = IN.at(b);
    switch (x[0]) {
    case 's': return dec(x.substr(1)) < dec(y.substr(1));
    default: return num::lessRaw(x[0], x.c_str() + 1, y.c_str() + 1);
    }
}
static inline std::string plainOf(int v)
{
    const std::string& t = IN.at(v);
    if (t[0] == 's') return dec(t.substr(1));
    return num::plain(t);
}
static inline int zeroOf(char t) { return iv(t == 's' ? "s" : std::string(1, t) + "0"); }
// ---------------------------------------------------------------- state
struct KeyM { int name; char t; bool uniq; int def; bool operator==(const KeyM& o) const { return name == o.name && t == o.t && uniq == o.uniq && def == o.def; } };
struct RecM { int64_t rid; std::vector<int> f; };            // values parallel to VaultM::keys
struct VaultM {
    bool ex = false; std::vector<KeyM> keys; std::vector<RecM> recs; // recs sorted by rid
    std::vector<std::pair<long, int>> errs;
    int key(int name) const { for (size_t i = 0; i < keys.size(); ++i) if (keys[i].name == name) return (int)i; return -1; }
    const RecM* rec(int64_t r) const { for (auto& x : recs) if (x.rid == r) return &x; return nullptr; }
    RecM* rec(int64_t r) { for (auto& x : recs) if (x.rid == r) return &x; return nullptr; }
};
struct SetM { bool ex = false; int par = -1; std::vector<int64_t> m; // sorted
    bool has(int64_t r) const { return std::binary_search(m.begin(), m.end(), r); }
    void add(int64_t r) { auto it = std::lower_bound(m.begin(), m.end(), r); if (it == m.end() || *it != r) m.insert(it, r); }
    bool del(int64_t r) { auto it = std::lower_bound(m.begin(), m.end(), r); if (it != m.end() && *it == r) { m.erase(it); return true; } return false; } };
struct FileM { int kind = 0; std::string raw; // 0 none, 1 raw bytes, 2 rows of a save, 3 unknown contents
    std::vector<std::string> keys; bool hdr = false; std::string sep; std::vector<std::vector<std::string>> rows; };
enum { MV = 6, MS = 16, MR = 40 };
struct State {
    std::vector<VaultM> v; std::vector<SetM> s; std::vector<int64_t> r; std::map<std::string, FileM> f;
    State() : v(MV), s(MS), r(MR, 0) {}
    int home(int64_t rid) const { if (!rid) return -1; for (int i = 0; i < MV; ++i) if (v[i].ex && v[i].rec(rid)) return i; return -1; }
    std::string key() const
    {
        std::string k; k.reserve(400);
        auto put = [&](int64_t x) { k.append((const char*)&x, 8); };
        auto put4 = [&](int x) { k.append((const char*)&x, 4); };
        for (auto& x : v) {
            k += x.ex ? 'V' : 'v'; if (!x.ex) continue;
            put4((int)x.keys.size()); for (auto& q : x.keys) { put4(q.name); k += q.t; k += q.uniq ? 'u' : 'n'; put4(q.def); }
            put4((int)x.recs.size()); for (auto& q : x.recs) { put(q.rid); for (int z : q.f) put4(z); }
            put4((int)x.errs.size()); for (auto& e : x.errs) { put(e.first); put4(e.second); }
        }
        for (auto& x : s) { k += x.ex ? 'S' : 's'; if (!x.ex) continue; put4(x.par); put4((int)x.m.size()); for (auto q : x.m) put(q); }
        for (auto q : r) put(q);
        for (auto& x : f) { k += x.first; k += (char)('0' + x.second.kind); k += x.second.raw; k += x.second.sep; k += x.second.hdr ? 'h' : '-';
            for (auto& q : x.second.keys) { k += q; k += '\1'; } for (auto& q : x.second.rows) { for (auto& z : q) { k += z; k += '\2'; } k += '\3'; } }
        return k;
    }
};
// ---------------------------------------------------------------- recorded operation
struct Rec {
    int id = 0, thr = 0; std::string name; Toks a; uint64_t inv = 0, ret = 0; bool done = false; bool seq = false; bool soft = false; std::string res; Toks r;
};
struct Vor { std::string code; bool ok; std::string key; char rq, sv; };
static inline Vor parseVor(const std::string& s) { Toks t = split(s, '|'); Vor v; v.code = t[0]; v.ok = t.size() > 1 && t[1] == "1"; v.key = t.size() > 2 ? dec(t[2]) : ""; v.rq = t.size() > 3 && t[3].size() ? t[3][0] : '?'; v.sv = t.size() > 4 && t[4].size() ? t[4][0] : '?'; return v; }
static inline Toks parseList(const std::string& s) { if (s.size() < 2 || s == "[]") return Toks(); return split(s.substr(1, s.size() - 2), ','); }
static inline int AI(const std::string& s) { return atoi(s.c_str()); }

struct CsvRow { std::vector<std::string> f; };
// RFC 4180 reader (CRLF or LF); saving also takes separators of several characters
static inline bool csvDecode(const std::string& d, const std::string& sep, std::vector<CsvRow>& rows)
{
    size_t p = 0, n = d.size(); auto at = [&] { return p < n && d.compare(p, sep.size(), sep) == 0; };
    while (p < n) {
        CsvRow row; bool blank = true;
        for (;;) {
            std::string f;
            if (p < n && d[p] == '"') {
                blank = false; ++p;
                for (;;) {
                    if (p >= n) return false;
                    if (d[p] == '"') { if (p + 1 < n && d[p + 1] == '"') { f += '"'; p += 2; continue; } ++p; break; }
                    f += d[p++];
                }
            } else while (p < n && !at() && d[p] != '\r' && d[p] != '\n') { f += d[p++]; blank = false; }
            row.f.push_back(f);
            if (at()) { p += sep.size(); blank = false; continue; }
            if (p < n && d[p] != '\r' && d[p] != '\n') return false;
            if (p < n && d[p] == '\r') ++p;
            if (p < n && d[p] == '\n') ++p;
            break;
        }
        if (blank) row.f.clear();
        rows.push_back(row);
    }
    return true;
}
static inline bool toValue(char t, const std::string& text, int& out)
{
    if (t == 's') { out = iv("s" + enc(text)); return true; }
    if (text.empty()) return false;
    if (t == 'z') { if (text.size() < 5 || text.size() > 8 || text[0] != '<' || text.compare(text.size() - 3, 3, ",\">")) return false; for (size_t i = 1; i + 3 < text.size(); ++i) if (text[i] < '0' || text[i] > '9') return false; out = iv("z" + std::to_string(atoi(text.c_str() + 1))); return true; }
    char* e = nullptr;
    if (t == 'b') { if (text != "true" && text != "false") return false; out = iv(text == "true" ? "b1" : "b0"); return true; }
    if (isspace((unsigned char)text[0])) return false;
    if (num::isFloat(t)) { double d = num::rd(t, text.c_str()); strtod(text.c_str(), &e); if (*e || e == text.c_str() || (std::isinf(d) && text.find_first_of("0123456789") != std::string::npos)) return false; out = iv(t + num::shortest(t, d)); return true; }
    if (t == 'u') { if (text[0] == '-') return false; errno = 0; unsigned long long x = strtoull(text.c_str(), &e, 10); if (*e || errno) return false; out = iv("u" + std::to_string(x)); return true; }
    errno = 0; long long x = strtoll(text.c_str(), &e, 10); if (*e || errno) return false;
    if ((t == 'i' && x != (int32_t)x) || (t == 'h' && x != (int16_t)x) || (t == 'c' && x != (int8_t)x) || (t == 'w' && x != (uint32_t)x) || (t == 'k' && x != (uint16_t)x) || (t == 'y' && x != (uint8_t)x)) return false;
    out = iv(std::string(1, t) + std::to_string(x)); return true;
}
// ---------------------------------------------------------------- semantics
struct Model {
    std::string why;                 // last mismatch explanation
    static thread_local bool truncated; // more choices than are followed: a history without explanation is then not judged
    static thread_local bool faulted; // simulated I/O faults are part of this run
    std::vector<State>* out;
    void ok(State&& s) { out->push_back(std::move(s)); }
    bool bad(const std::string& w) { if (why.size() < 600) why = w; return false; }

    bool chk(const Vor& v, const char* code, const std::string* key = nullptr, char rq = 0, char sv = 0)
    {
        if (v.code != code) return bad("expected " + std::string(code) + " got " + v.code);
        if (v.ok != !strcmp(code, "Success")) return bad(std::string("IsOperationSuccess=") + (v.ok ? "1" : "0") + " with " + code);
        if (key && v.key != *key) return bad("result names key '" + v.key + "' not '" + *key + "'");
        if (rq && v.rq != rq) return bad("result requested type wrong");
        if (sv && v.sv != sv) return bad("result saved type wrong");
        return true;
    }
    // key/type precondition shared by most keyed operations; returns key index or -1 when the failure was (correctly) reported
    int keyed(const VaultM& v, const Vor& q, const std::string& key, char t, bool& fine)
    {
        int k = v.key(iv(key));
        fine = true;
        if (k < 0) { fine = chk(q, "WrongKey", &key, t); return -1; }
        if (v.keys[k].t != t) { fine = chk(q, "WrongType", &key, t, v.keys[k].t); return -1; }
        return k;
    }
    static std::vector<int64_t> match(const VaultM& v, int k, int val, const SetM* in) { std::vector<int64_t> m; for (auto& r : v.recs) if (r.f[k] == val && (!in || in->has(r.rid))) m.push_back(r.rid); return m; }
    static std::string idText(const VaultM& v, int64_t rid) { int k = v.key(iv("Id")); const RecM* r = v.rec(rid); return k < 0 || !r ? "?" : IN.at(r->f[k]).substr(1); }
    void eraseRec(State& s, int v, int64_t rid) { auto& x = s.v[v].recs; for (size_t i = 0; i < x.size(); ++i) if (x[i].rid == rid) { x.erase(x.begin() + i); break; } for (auto& q : s.s) if (q.ex) q.del(rid); }
    void dropVault(State& s, int v) { auto& x = s.v[v]; for (auto& q : s.s) if (q.ex && q.par == v) { q.par = -1; q.m.clear(); } x.keys.clear(); x.recs.clear(); x.errs.clear(); }
    static void subsets(const std::vector<int64_t>& m, size_t n, std::vector<std::vector<int64_t>>& outp)
    {
        std::vector<int64_t> cur;
        std::function<void(size_t)> go = [&](size_t i) {
            if (outp.size() > 300) { truncated = true; return; }
            if (cur.size() == n) { outp.push_back(cur); return; }
            if (i >= m.size() || m.size() - i < n - cur.size()) return;
            cur.push_back(m[i]); go(i + 1); cur.pop_back(); go(i + 1);
        };
        go(0);
    }
    static size_t amountOf(const std::string& t) { return t == "-" ? (size_t)-1 : (size_t)strtoll(t.c_str(), 0, 10); }
    bool predOn(const VaultM& v, const RecM& r, const Toks& t)
    {
        if (t[0] == "T") return true;
        if (t[0] == "F") return false;
        int k = v.key(iv(dec(t[1]))); int val = iv(t[2]);
        if (k < 0 || v.keys[k].t != vt(val)) return false;
        return t[0] == "e" ? r.f[k] == val : r.f[k] != val;
    }
    // unique conflict: does another record hold val?
    static bool taken(const VaultM& v, int k, int val, int64_t self) { for (auto& r : v.recs) if (r.rid != self && r.f[k] == val) return true; return false; }
    std::vector<std::string> dumpRows(const VaultM& v, const SetM* in)
    {
        std::vector<std::string> rows;
        for (auto& r : v.recs) {
            if (in && !in->has(r.rid)) continue;
            std::string t = "(";
            for (size_t i = 0; i < v.keys.size(); ++i) { if (i) t += ","; t += enc(IN.at(v.keys[i].name)) + "=" + enc(plainOf(r.f[i])); }
            rows.push_back(t + ")");
        }
        std::sort(rows.begin(), rows.end());
        return rows;
    }
    std::string dumpText(const VaultM& v, const SetM* in) { std::string s = "["; auto rows = dumpRows(v, in); for (size_t i = 0; i < rows.size(); ++i) { if (i) s += ";"; s += rows[i]; } return s + "]"; }
    std::string keyList(const VaultM& v) { std::string s = "["; for (size_t i = 0; i < v.keys.size(); ++i) { if (i) s += ","; s += enc(IN.at(v.keys[i].name)); } return s + "]"; }
    std::string ukeyList(const VaultM& v) { std::vector<std::string> u; for (auto& k : v.keys) if (k.uniq) u.push_back(IN.at(k.name)); std::sort(u.begin(), u.end()); std::string s = "["; for (size_t i = 0; i < u.size(); ++i) { if (i) s += ","; s += enc(u[i]); } return s + "]"; }
    bool eq(const std::string& got, const std::string& want, const char* what) { if (got != want) return bad(std::string(what) + ": expected " + want.substr(0, 250) + " got " + got.substr(0, 250)); return true; }
    // an ordered listing of ids: prefix of some correct ordering
    bool ordered(const VaultM& v, const SetM* in, int k, bool rev, size_t amount, const Toks& got, bool seq)
    {
        std::vector<std::pair<int, std::string>> all;
        for (auto& r : v.recs) if (!in || in->has(r.rid)) all.emplace_back(r.f[k], idText(v, r.rid));
        std::stable_sort(all.begin(), all.end(), [&](const std::pair<int, std::string>& a, const std::pair<int, std::string>& b) { return rev ? vless(b.first, a.first) : vless(a.first, b.first); });
        size_t n = std::min(all.size(), amount);
        if (got.size() != n) return bad("listing has " + std::to_string(got.size()) + " records, expected " + std::to_string(n));
        std::set<std::string> seen;
        for (size_t i = 0; i < n; ++i) {
            if (got[i] == "?") { if (seq) return bad("listing holds an invalid record"); continue; }
            if (!seen.insert(got[i]).second) return bad("record listed twice: " + got[i]);
            bool fnd = false;
            for (auto& a : all) if (a.second == got[i]) { fnd = true; if (a.first != all[i].first) return bad("listing out of order at " + std::to_string(i)); }
            if (!fnd) return bad("unknown record " + got[i]);
        }
        return true;
    }
    // a printed table against the records it may show
    bool table(const VaultM& v, const SetM* in, const Toks& keys, int pk, bool rev, size_t amount, bool withId, size_t total, const std::string& text)
    {
        std::vector<size_t> w; std::vector<int> ki; std::string split = "+", cut = "$", head = "|";
        for (auto& k : keys) {
            size_t m = k.size(); int i = v.key(iv(k)); ki.push_back(i);
            if (i >= 0) for (auto& r : v.recs) if (!in || in->has(r.rid)) m = std::max(m, plainOf(r.f[i]).size());
            w.push_back(m); split += std::string(m + 2, '-') + "+"; cut += std::string(m + 2, '~') + "$"; head += " " + k + std::string(m - k.size(), ' ') + " |";
        }
        std::string top = split + "\n" + head + "\n" + split + "\n";
        if (text.compare(0, top.size(), top)) return bad("printed table starts with " + text.substr(0, 120) + " not " + top.substr(0, 120));
        struct Row { std::string t; int val; bool used; }; std::vector<Row> rows;
        if (pk >= 0) for (auto& r : v.recs) if (!in || in->has(r.rid)) { std::string t = "|"; for (size_t i = 0; i < keys.size(); ++i) { std::string c = ki[i] < 0 ? "" : plainOf(r.f[ki[i]]); t += " " + c + std::string(w[i] - c.size(), ' ') + " |"; } rows.push_back({ t, r.f[pk], false }); }
        std::stable_sort(rows.begin(), rows.end(), [&](const Row& a, const Row& b) { return rev ? vless(b.val, a.val) : vless(a.val, b.val); });
        size_t p = top.size(), n = std::min(amount, rows.size()); std::set<std::string> ids;
        for (size_t i = 0; i < n; ++i) {
            Row* hit = nullptr;
            for (auto& r : rows) if (!r.used && r.val == rows[i].val && !text.compare(p, r.t.size(), r.t) && (!hit || r.t.size() > hit->t.size())) hit = &r;
            if (!hit) return bad("printed row " + std::to_string(i) + " is " + text.substr(p, 100));
            hit->used = true; p += hit->t.size();
            if (withId) { size_t e = text.find('\n', p); if (text[p] != ' ' || e == std::string::npos || !ids.insert(text.substr(p, e - p)).second) return bad("printed record identifier"); p = e; }
            if (text[p] != '\n') return bad("printed row does not end"); ++p;
        }
        return eq(text.substr(p), (amount >= total ? split : cut) + "\n (" + std::to_string(total) + " records)\n", "printed table ends with");
    }
    int savedKind(const std::string& text, const FileM& f)   // does text equal the saved rows?
    {
        std::vector<CsvRow> rows;
        if (f.sep.empty() || !csvDecode(text, f.sep, rows)) { bad("saved file does not decode"); return 0; }
        size_t i = 0;
        if (f.hdr && !f.keys.empty()) { if (rows.empty() || rows[0].f != f.keys) { bad("saved header differs"); return 0; } i = 1; }
        std::vector<std::vector<std::string>> got;
        for (; i < rows.size(); ++i) got.push_back(rows[i].f);
        std::sort(got.begin(), got.end());
        if (got != f.rows) { bad("saved rows differ: file has " + std::to_string(got.size()) + ", expected " + std::to_string(f.rows.size())); return 0; }
        // every line has to be terminated, so that the last record is complete
        return 1;
    }
    // adds the rows of a decoded file; returns false if the expectation is not defined for this content
    void loadRows(State& s, int vi, int opid, const std::vector<CsvRow>& rowsIn, bool hdr, const std::vector<std::string>& userKeys, const std::string& handler)
    {
        VaultM& v = s.v[vi];
        v.errs.clear();
        std::vector<std::string> keys; size_t i = 0;
        if (hdr) { if (!rowsIn.empty()) { keys = rowsIn[0].f; i = 1; } }
        else if (!userKeys.empty()) keys = userKeys;
        else for (auto& k : v.keys) keys.push_back(IN.at(k.name));
        long line = 0; int idx = 0;
        for (; i < rowsIn.size(); ++i) {
            ++line; ++idx;
            std::vector<std::string> f = rowsIn[i].f;
            if (handler == "blankB") for (size_t j = 0; j < keys.size() && j < f.size(); ++j) if (keys[j] == "B") f[j] = "hb";
            long ln = hdr ? line + 1 : line;
            RecM r; r.rid = ((int64_t)opid << 32) | idx; for (auto& k : v.keys) r.f.push_back(k.def);
            bool any = false, good = true;
            for (size_t j = 0; j < keys.size() && j < f.size(); ++j) {
                any = true;
                int k = v.key(iv(keys[j])), val;
                if (k < 0 || !toValue(v.keys[k].t, f[j], val)) { v.errs.emplace_back(ln, iv(keys[j])); good = false; break; }
                r.f[k] = val;
            }
            if (!any || !good) continue;
            std::vector<int> conf;
            for (size_t k = 0; k < v.keys.size(); ++k) if (v.keys[k].uniq && taken(v, (int)k, r.f[k], 0)) conf.push_back(v.keys[k].name);
            if (!conf.empty()) { v.errs.emplace_back(line, conf.size() == 1 ? conf[0] : -1); continue; }
            auto it = v.recs.begin(); while (it != v.recs.end() && it->rid < r.rid) ++it;
            v.recs.insert(it, r);
        }
    }

    // apply op to s; push every state consistent with the recorded result
    void step(const State& s, const Rec& o, std::vector<State>& res) { out = &res; why.clear(); step1(s, o); }
    void step1(const State& s, const Rec& o);
    bool setOpErr(const State& s, int x, int y, const Vor& q, bool& done)
    {
        // reasons that apply to x op y
        std::set<std::string> c;
        if (s.s[x].par < 0) c.insert("ParentVaultNotValid");
        if (s.s[y].par < 0) c.insert("OtherParentVaultNotValid");
        if (s.s[x].par >= 0 && s.s[y].par >= 0 && s.s[x].par != s.s[y].par) c.insert("ParentVaultNotMatch");
        if (x == y) c.insert("SameVaultRecordSet");
        done = !c.empty();
        if (!done) return true;
        if (q.ok || !c.count(q.code)) return bad("expected failure " + *c.begin() + " got " + q.code);
        return true;
    }
    bool evalExpr(const VaultM& v, const SetM* in, const std::string& e, size_t& p, std::set<int64_t>& outp, std::vector<std::pair<std::string, std::string>>& errs);
};
thread_local bool Model::faulted = false, Model::truncated = false;

inline bool Model::evalExpr(const VaultM& v, const SetM* in, const std::string& e, size_t& p, std::set<int64_t>& outp, std::vector<std::pair<std::string, std::string>>& errs)
{
    if (e[p] == '&' || e[p] == '/') {
        bool isAnd = e[p] == '&'; std::set<int64_t> a, b;
        p += 2; evalExpr(v, in, e, p, a, errs); p += 2; evalExpr(v, in, e, p, b, errs); ++p;
        if (isAnd) { for (auto x : a) if (b.count(x)) outp.insert(x); } else { outp = a; outp.insert(b.begin(), b.end()); }
        return true;
    }
    size_t q = e.find(')', p);
    std::string leaf = q == std::string::npos ? e.substr(p) : e.substr(p, q - p);
    p += leaf.size();
    Toks t = split(leaf, ':'); int val = iv(t[2]); int k = v.key(iv(dec(t[1])));
    if (k < 0) { errs.emplace_back("WrongKey", dec(t[1])); return true; }
    if (v.keys[k].t != vt(val)) { errs.emplace_back("WrongType", dec(t[1])); return true; }
    for (auto& r : v.recs) {
        if (in && !in->has(r.rid)) continue;
        int x = r.f[k]; bool lt = vless(x, val), gt = vless(val, x), m;
        switch (t[0][0]) { case 'E': m = x == val; break; case 'G': m = gt; break; case 'H': m = !lt; break; case 'L': m = lt; break; default: m = !gt; }
        if (m && t.size() > 3) m = predOn(v, r, Toks(t.begin() + 3, t.end()));
        if (m) outp.insert(r.rid);
    }
    return true;
}

inline void Model::step1(const State& s, const Rec& o)
{
    const std::string& n = o.name; const Toks& a = o.a; const Toks& r = o.r;
    if (!r.empty() && r.back().compare(0, 8, "printed:") == 0) { bad("the printed back-trace is of " + dec(r.back().substr(8))); return; }
    auto pass = [&] { State t = s; ok(std::move(t)); };
    auto boolIs = [&](bool want) { if (r.empty() || r[0] != (want ? "1" : "0")) { bad(std::string("expected ") + (want ? "true" : "false")); return false; } return true; };
    std::string R0 = r.empty() ? "" : r[0], R1 = r.size() > 1 ? r[1] : "";
    // ------------------------------------------------ vault life cycle
    if (n == "newv") { State t = s; t.v[AI(a[0])] = VaultM(); t.v[AI(a[0])].ex = true; return ok(std::move(t)); }
    if (n == "delv") { State t = s; dropVault(t, AI(a[0])); t.v[AI(a[0])].ex = false; return ok(std::move(t)); }
    if (n == "dropvault") { State t = s; dropVault(t, AI(a[0])); return ok(std::move(t)); }
    if (n == "dropdata") { State t = s; auto& v = t.v[AI(a[0])]; std::vector<int64_t> all; for (auto& x : v.recs) all.push_back(x.rid); for (auto x : all) eraseRec(t, AI(a[0]), x); return ok(std::move(t)); }
    if (n == "copyv" || n == "asgv") {
        State t = s; int d = AI(a[0]), f = AI(a[1]);
        if (d == f) return ok(std::move(t));
        if (n == "asgv") dropVault(t, d);
        VaultM v = t.v[f]; v.ex = true; v.errs.clear();
        int idk = v.key(iv("Id")), c = 0; for (auto& x : v.recs) { ++c; x.rid = ((int64_t)o.id << 32) | (idk >= 0 ? atoll(IN.at(x.f[idk]).c_str() + 1) : c); }
        std::sort(v.recs.begin(), v.recs.end(), [](const RecM& x, const RecM& y) { return x.rid < y.rid; });
        t.v[d] = v; return ok(std::move(t));
    }
    if (n == "movev" || n == "mvav") {
        State t = s; int d = AI(a[0]), f = AI(a[1]);
        if (d == f) return ok(std::move(t));
        if (n == "mvav") dropVault(t, d);
        t.v[d] = t.v[f]; t.v[d].ex = true; t.v[f] = VaultM(); t.v[f].ex = true;
        for (auto& x : t.s) if (x.ex && x.par == f) x.par = d;
        return ok(std::move(t));
    }
    // ------------------------------------------------ schema
    if (n == "addkey") {
        State t = s; auto& v = t.v[AI(a[0])]; int name = iv(dec(a[1])), val = iv(a[2]);
        if (v.key(name) >= 0) { if (boolIs(false)) ok(std::move(t)); return; }
        if (!boolIs(true)) return;
        v.keys.push_back({ name, a[2][0], false, val }); for (auto& x : v.recs) x.f.push_back(val);
        return ok(std::move(t));
    }
    if (n == "adduk") {
        State t = s; auto& v = t.v[AI(a[0])]; std::string key = dec(a[1]); char ty = a[2][0]; Vor q = parseVor(R0); int k = v.key(iv(key));
        if (k >= 0) { if (chk(q, "DuplicateKey", &key, ty, v.keys[k].t)) ok(std::move(t)); return; }
        if (!v.recs.empty()) { if (chk(q, "NeedLambda", &key, ty)) ok(std::move(t)); return; }
        if (!chk(q, "Success", &key, ty)) return;
        v.keys.push_back({ iv(key), ty, true, zeroOf(ty) });
        return ok(std::move(t));
    }
    if (n == "addukl") {
        State t = s; auto& v = t.v[AI(a[0])]; std::string key = dec(a[1]); char ty = a[2][0]; Vor q = parseVor(R0); int k = v.key(iv(key));
        Toks log = parseList(R1);
        if (k >= 0) { if (chk(q, "DuplicateKey", &key, ty, v.keys[k].t) && (log.empty() || bad("callback ran"))) ok(std::move(t)); return; }
        std::vector<int> vals; std::set<int> u; std::set<std::string> want, got;
        for (auto& x : v.recs) {
            long id = atol(idText(v, x.rid).c_str()); want.insert(std::to_string(id));
            long y = a[3] == "mod2" ? id % 2 : a[3] == "const" ? 7 : id + 1000;
            int val = iv(std::string(1, ty) + (ty == 's' ? "u" : "") + std::to_string(y)); vals.push_back(val); u.insert(val);
        }
        std::set<std::string> cs;
        for (auto& e : log) { Toks z = split(e, '@'); if (!want.count(z[0])) { bad("callback saw unknown record " + z[0]); return; } if (!got.insert(z[0]).second) { bad("callback saw a record twice"); return; } cs.insert(z[1]); }
        if (cs.size() != got.size()) { bad("callback counter repeated"); return; }
        if (u.size() != vals.size()) { if (chk(q, "UniqueValue", &key, ty)) ok(std::move(t)); return; }
        if (!chk(q, "Success", &key, ty)) return;
        if (got != want) { bad("callback did not see every record"); return; }
        v.keys.push_back({ iv(key), ty, true, zeroOf(ty) }); for (size_t i = 0; i < v.recs.size(); ++i) v.recs[i].f.push_back(vals[i]);
        return ok(std::move(t));
    }
    if (n == "updkey") {
        State t = s; auto& v = t.v[AI(a[0])]; std::string key = dec(a[1]); Vor q = parseVor(R0); bool fine;
        int k = keyed(v, q, key, a[2][0], fine); if (!fine) return;
        if (k < 0) return ok(std::move(t));
        if (v.keys[k].uniq) { if (chk(q, "UniqueKey", &key)) ok(std::move(t)); return; }
        if (!chk(q, "Success", &key)) return;
        v.keys[k].def = iv(a[2]); return ok(std::move(t));
    }
    if (n == "rmkey") {
        State t = s; auto& v = t.v[AI(a[0])]; int k = v.key(iv(dec(a[1])));
        if (!boolIs(k >= 0)) return;
        if (k >= 0) { v.keys.erase(v.keys.begin() + k); for (auto& x : v.recs) x.f.erase(x.f.begin() + k); }
        return ok(std::move(t));
    }
    // ------------------------------------------------ records of a vault
    if (n == "create") {
        State t = s; int vi = AI(a[0]); auto& v = t.v[vi]; Vor q = parseVor(R0);
        RecM x; int64_t idv = 0; for (auto& k : v.keys) x.f.push_back(k.def);
        for (size_t i = 2; i < a.size(); ++i) {
            size_t e = a[i].find('='); std::string key = dec(a[i].substr(0, e)), tok = a[i].substr(e + 1); int k = v.key(iv(key));
            if (k < 0) { if (chk(q, "WrongKey", &key, tok[0])) ok(std::move(t)); return; }
            if (v.keys[k].t != tok[0]) { if (chk(q, "WrongType", &key, tok[0], v.keys[k].t)) ok(std::move(t)); return; }
            x.f[k] = iv(tok); if (key == "Id") idv = atoll(tok.c_str() + 1);
        }
        std::set<std::string> conf; for (size_t k = 0; k < v.keys.size(); ++k) if (v.keys[k].uniq && taken(v, (int)k, x.f[k], 0)) conf.insert(IN.at(v.keys[k].name));
        if (!conf.empty()) { if (!chk(q, "UniqueValue")) return; if (!conf.count(q.key)) { bad("conflict attributed to key " + q.key); return; } return ok(std::move(t)); }
        if (!chk(q, "Success")) return;
        x.rid = ((int64_t)o.id << 32) | (idv & 0x7fffffff);
        auto it = v.recs.begin(); while (it != v.recs.end() && it->rid < x.rid) ++it; v.recs.insert(it, x);
        if (a[1] != "-") t.r[AI(a[1])] = x.rid;
        return ok(std::move(t));
    }
    if (n == "erase") { State t = s; int vi = AI(a[0]); int64_t rid = s.r[AI(a[1])]; bool in = rid && s.v[vi].rec(rid); if (!boolIs(in)) return; if (in) eraseRec(t, vi, rid); return ok(std::move(t)); }
    if (n == "errs") {
        const VaultM& v = s.v[AI(a[0])]; Toks got = parseList(R0);
        if (got.size() != v.errs.size()) { bad("error list has " + std::to_string(got.size()) + " entries, expected " + std::to_string(v.errs.size())); return; }
        for (size_t i = 0; i < got.size(); ++i) { Toks z = split(got[i], ':'); if (atol(z[0].c_str()) != v.errs[i].first || (v.errs[i].second >= 0 && dec(z[1]) != IN.at(v.errs[i].second))) { bad("error entry " + got[i] + " expected " + std::to_string(v.errs[i].first) + ":" + (v.errs[i].second >= 0 ? IN.at(v.errs[i].second) : "*")); return; } }
        return pass();
    }
    if (n == "put") { State t = s; FileM f; f.kind = 1; f.raw = dec(a[1]); t.f[dec(a[0])] = f; return ok(std::move(t)); }
    if (n == "file") {
        auto it = s.f.find(dec(a[0]));
        if (it == s.f.end() || it->second.kind == 3) return pass();
        if (R0.empty() || R0[0] != 'f') { bad("file does not exist"); return; }
        std::string text = dec(R0.substr(1));
        if (it->second.kind == 1) { if (text == it->second.raw) pass(); else bad("file content changed"); return; }
        if (savedKind(text, it->second)) pass();
        return;
    }
    if (n == "faults") return pass();
    if (n == "load" || n == "loadh") {
        int vi = AI(a[0]); auto it = s.f.find(dec(a[1])); char sep = dec(a[2])[0];
        bool hdr = n == "loadh" || a[3] == "1"; std::vector<std::string> uk; if (n == "load" && a[4] != "-") for (auto& k : split(a[4], ',')) uk.push_back(dec(k));
        if (it == s.f.end() || it->second.kind == 0) { if (!boolIs(false)) return; State t = s; t.v[vi].errs.clear(); return ok(std::move(t)); }
        std::vector<CsvRow> rows;
        if (it->second.kind == 1) { if (!csvDecode(it->second.raw, std::string(1, sep), rows)) { bad("undefined content"); return; } }
        else if (it->second.kind == 2) {
            if (it->second.sep != std::string(1, sep)) { bad("undefined separator"); return; }
            if (it->second.hdr && !it->second.keys.empty()) { CsvRow h; h.f = it->second.keys; rows.push_back(h); }
            for (auto& x : it->second.rows) { CsvRow q; q.f = x; rows.push_back(q); }
        } else { bad("undefined file"); return; }
        if (Model::faulted && R0 == "0") { // reading failed part-way: any prefix of the rows may have been added
            for (size_t k = 0; k <= rows.size(); ++k) { State t = s; loadRows(t, vi, o.id, std::vector<CsvRow>(rows.begin(), rows.begin() + k), hdr, uk, n == "loadh" ? a[3] : ""); ok(std::move(t)); }
            return;
        }
        if (!boolIs(true)) return;
        State t = s; loadRows(t, vi, o.id, rows, hdr, uk, n == "loadh" ? a[3] : "");
        return ok(std::move(t));
    }
    if (n == "audit" || n == "saudit") {
        const SetM* in = nullptr; int vi;
        if (n == "saudit") { in = &s.s[AI(a[0])]; vi = in->par; } else vi = AI(a[0]);
        static const VaultM none; const VaultM& v = vi < 0 ? none : s.v[vi];
        std::string keys = "["; for (size_t i = 0; i < v.keys.size(); ++i) { if (i) keys += ","; keys += enc(IN.at(v.keys[i].name)) + ":" + v.keys[i].t; }
        keys += "]";
        if (!eq(R0, "keys=" + keys, "keys")) return;
        if (!eq(R1, "ukeys=" + ukeyList(v), "unique keys")) return;
        if (!eq(r.size() > 2 ? r[2] : "", "dump=" + dumpText(v, in), "contents")) return;
        if (!eq(r.size() > 3 ? r[3] : "", "coherent=ok", "coherence")) return;
        return pass();
    }
    // ------------------------------------------------ set life cycle and algebra
    if (n == "news") { State t = s; t.s[AI(a[0])] = SetM(); t.s[AI(a[0])].ex = true; return ok(std::move(t)); }
    if (n == "dels") { State t = s; t.s[AI(a[0])] = SetM(); return ok(std::move(t)); }
    if (n == "scopyc" || n == "sasgn") { State t = s; SetM c = s.s[AI(a[1])]; c.ex = true; t.s[AI(a[0])] = c; return ok(std::move(t)); }
    if (n == "smovec" || n == "smova") { State t = s; int d = AI(a[0]), f = AI(a[1]); if (d != f) { t.s[d] = t.s[f]; t.s[d].ex = true; t.s[f] = SetM(); t.s[f].ex = true; } return ok(std::move(t)); }
    if (n == "sadd") {
        State t = s; auto& x = t.s[AI(a[0])]; Vor q = parseVor(R0); int64_t rid = s.r[AI(a[1])]; int h = s.home(rid);
        if (x.par < 0) { if (chk(q, "ParentVaultNotValid")) ok(std::move(t)); return; }
        if (h < 0) { if (chk(q, "DataRecordNotValid")) ok(std::move(t)); return; }
        if (h != x.par) { if (chk(q, "ParentVaultNotMatch")) ok(std::move(t)); return; }
        if (x.has(rid)) { if (chk(q, "RecordAlredyInSet")) ok(std::move(t)); return; }
        if (!chk(q, "Success")) return;
        x.add(rid); return ok(std::move(t));
    }
    if (n == "srm") { State t = s; auto& x = t.s[AI(a[0])]; int64_t rid = s.r[AI(a[1])]; bool h = rid && x.has(rid); if (!boolIs(h)) return; x.del(rid); return ok(std::move(t)); }
    if (n == "schk") { int64_t rid = s.r[AI(a[1])]; if (boolIs(rid && s.s[AI(a[0])].has(rid))) pass(); return; }
    if (n == "sclear") { State t = s; t.s[AI(a[0])].m.clear(); return ok(std::move(t)); }
    if (n == "sreset") { State t = s; auto& x = t.s[AI(a[0])]; x.m.clear(); x.par = -1; return ok(std::move(t)); }
    if (n == "svalid") { if (boolIs(s.s[AI(a[0])].par >= 0)) pass(); return; }
    if (n == "sjoin" || n == "sexcl" || n == "sint") {
        int x = AI(a[0]), y = AI(a[1]); Vor q = parseVor(R0); bool done; State t = s;
        if (!setOpErr(s, x, y, q, done)) return;
        if (done) return ok(std::move(t));
        if (!chk(q, "Success")) return;
        const SetM& b = s.s[y]; SetM& c = t.s[x]; std::vector<int64_t> m;
        if (n == "sjoin") { for (auto z : b.m) c.add(z); }
        else { for (auto z : c.m) if (b.has(z) == (n == "sint")) m.push_back(z); c.m = m; }
        return ok(std::move(t));
    }
    if (n == "sunion" || n == "sinter") {
        int x = AI(a[0]), y = AI(a[1]), z = AI(a[2]); Vor q = parseVor(R0); State t = s; std::set<std::string> c;
        if (x == y || x == z || y == z) c.insert("SameVaultRecordSet");
        if (s.s[x].par < 0) c.insert("ParentVaultNotValid");
        if (s.s[y].par < 0) c.insert("OtherParentVaultNotValid");
        if (s.s[x].par >= 0 && s.s[y].par >= 0 && s.s[x].par != s.s[y].par) c.insert("ParentVaultNotMatch");
        if (!c.empty()) { if (q.ok || !c.count(q.code)) { bad("expected " + *c.begin() + " got " + q.code); return; } return ok(std::move(t)); }
        if (!chk(q, "Success")) return;
        SetM w; w.ex = true; w.par = s.s[x].par;
        if (n == "sunion") { w.m = s.s[x].m; for (auto k : s.s[y].m) w.add(k); } else for (auto k : s.s[x].m) if (s.s[y].has(k)) w.m.push_back(k);
        t.s[z] = w; return ok(std::move(t));
    }
    if (n == "spid") { int x = s.s[AI(a[0])].par, y = s.s[AI(a[1])].par; if (eq(R0, std::string(x == y ? "1" : "0") + (x < 0 ? "n" : "p"), "parent identifiers")) pass(); return; }
    if (n == "seq" || n == "sne") { bool e = s.s[AI(a[0])].par == s.s[AI(a[1])].par && s.s[AI(a[0])].m == s.s[AI(a[1])].m; if (boolIs(e == (n == "seq"))) pass(); return; }
    // ------------------------------------------------ handles
    if (n == "rset" || n == "rsetm") {
        int64_t rid = s.r[AI(a[0])]; int h = s.home(rid); Vor q = parseVor(R0); State t = s;
        std::vector<std::pair<std::string, std::string>> ps;
        if (n == "rset") ps.emplace_back(dec(a[1]), a[2]);
        else for (size_t i = 1; i < a.size(); ++i) { size_t e = a[i].find('='); ps.emplace_back(dec(a[i].substr(0, e)), a[i].substr(e + 1)); }
        if (h < 0) { if (chk(q, "DataRecordNotValid")) ok(std::move(t)); return; }
        auto& v = t.v[h]; RecM* x = v.rec(rid); bool changed = false;
        for (auto& p : ps) {
            int k = v.key(iv(p.first)), val = iv(p.second); bool fail = true, good;
            if (k < 0) good = chk(q, "WrongKey", &p.first, p.second[0]);
            else if (v.keys[k].t != p.second[0]) good = chk(q, "WrongType", &p.first, p.second[0], v.keys[k].t);
            else if (v.keys[k].uniq && taken(v, k, val, rid)) good = chk(q, "UniqueValue", &p.first, p.second[0]);
            else { fail = false; good = true; if (x->f[k] != val) changed = true; x->f[k] = val; }
            if (fail) { if (!good) return; if (changed) { State u = s; ok(std::move(u)); } return ok(std::move(t)); }
        }
        if (!chk(q, "Success")) return;
        return ok(std::move(t));
    }
    if (n == "rget") {
        int64_t rid = s.r[AI(a[0])]; int h = s.home(rid); Vor q = parseVor(R0); std::string key = dec(a[1]); char ty = a[2][0]; bool fine;
        std::string untouched = ty == 's' ? "s77" : ty == 'b' ? "b1" : std::string(1, ty) + "77";
        // strings start as "77"
        if (h < 0) { if (chk(q, "DataRecordNotValid", &key) && eq(R1, untouched, "output")) pass(); return; }
        int k = keyed(s.v[h], q, key, ty, fine); if (!fine) return;
        if (k < 0) { if (eq(R1, untouched, "output")) pass(); return; }
        if (chk(q, "Success", &key, ty, ty) && eq(R1, IN.at(s.v[h].rec(rid)->f[k]), "value")) pass();
        return;
    }
    if (n == "rstr") {
        int64_t rid = s.r[AI(a[0])]; int h = s.home(rid); Vor q = parseVor(R0); std::string key = dec(a[1]);
        if (h < 0) { if (chk(q, "DataRecordNotValid", &key) && eq(R1, "xunset", "output")) pass(); return; }
        int k = s.v[h].key(iv(key));
        if (k < 0) { if (chk(q, "WrongKey", &key) && eq(R1, "xunset", "output")) pass(); return; }
        if (chk(q, "Success", &key) && eq(R1, "x" + enc(plainOf(s.v[h].rec(rid)->f[k])), "value")) pass();
        return;
    }
    if (n == "rvalid") { if (o.soft || boolIs(s.home(s.r[AI(a[0])]) >= 0)) pass(); return; }
    if (n == "rcopy" || n == "rcopyc") { State t = s; t.r[AI(a[0])] = s.r[AI(a[1])]; return ok(std::move(t)); }
    if (n == "rmove" || n == "rmovec") { State t = s; if (a[0] != a[1]) { t.r[AI(a[0])] = s.r[AI(a[1])]; t.r[AI(a[1])] = 0; } return ok(std::move(t)); }
    if (n == "rreset") { State t = s; t.r[AI(a[0])] = 0; return ok(std::move(t)); }
    if (n == "reqq" || n == "rneq") {
        int64_t x = s.r[AI(a[0])], y = s.r[AI(a[1])]; bool e = s.home(x) >= 0 ? x == y : s.home(y) < 0;
        if (o.soft || boolIs(e == (n == "reqq"))) pass();
        return;
    }
    if (n == "rkeys") { int h = s.home(s.r[AI(a[0])]); if (eq(R0, h < 0 ? "[]" : keyList(s.v[h]), "keys")) pass(); return; }
    if (n == "rhas") { int h = s.home(s.r[AI(a[0])]); if (boolIs(h >= 0 && s.v[h].key(iv(dec(a[1]))) >= 0)) pass(); return; }
    if (n == "rid") { int h = s.home(s.r[AI(a[0])]); if (o.soft || eq(R0, h < 0 ? "null" : "some", "id")) pass(); return; }
    if (n == "rtostr" || n == "rjson") {
        int64_t rid = s.r[AI(a[0])]; int h = s.home(rid); std::string t = "(";
        if (h >= 0) { auto& v = s.v[h]; const RecM* x = v.rec(rid); for (size_t i = 0; i < v.keys.size(); ++i) { if (i) t += ","; t += enc(IN.at(v.keys[i].name)) + "=" + enc(plainOf(x->f[i])); } }
        t += ")";
        if (eq(R0, t, "record")) pass();
        return;
    }
    if (n == "rprint") {
        if (R0 == "toolong") return pass();
        std::string text = dec(R0.substr(1)); int64_t rid = s.r[AI(a[0])]; int h = s.home(rid);
        if (h < 0) { if (eq(text, "VaultRecordRef not valid!\n", "printed")) pass(); return; }
        auto& v = s.v[h]; const RecM* x = v.rec(rid); std::vector<std::string> lines;
        for (size_t i = 0; i < v.keys.size(); ++i) lines.push_back("\t" + IN.at(v.keys[i].name) + " = " + plainOf(x->f[i]) + "\n");
        size_t p = text.find(":\n");
        if (text.compare(0, 13, "Vault record ") || p == std::string::npos) { bad("printed record starts with " + text.substr(0, 80)); return; }
        for (p += 2; !lines.empty();) { size_t i = 0; while (i < lines.size() && text.compare(p, lines[i].size(), lines[i])) ++i; if (i == lines.size()) { bad("printed record has " + text.substr(p, 80)); return; } p += lines[i].size(); lines.erase(lines.begin() + (long)i); }
        if (eq(text.substr(p), "", "after the printed record")) pass();
        return;
    }
    // ------------------------------------------------ locks, identifiers: checked elsewhere
    if (n == "btfmt") return pass();
    if (n == "box") { if (eq(dec(R0.substr(1)), "ok", "history of a stand-alone part")) pass(); return; }
    if (n == "lock" || n == "newm" || n == "delm" || n == "uuid" || n == "tmpname") return pass();

    // ------------------------------------------------ on a vault or (s-prefixed) a set
    std::string b = n; const SetM* in = nullptr; int vi, si = -1;
    if (n[0] == 's' && n != "size" && n != "sorted" && n != "sortby" && n != "save") { b = n.substr(1); si = AI(a[0]); in = &s.s[si]; vi = in->par; }
    else vi = AI(a[0]);
    static const VaultM none; const VaultM& v = vi < 0 ? none : s.v[vi];
    bool dead = si >= 0 && vi < 0;
    if (b == "keyval") {
        Vor q = parseVor(R0); std::string key = dec(a[1]); bool fine; char ty = a[2][0];
        if (dead) { if (chk(q, "ParentVaultNotValid", &key, ty)) pass(); return; }
        int k = keyed(v, q, key, ty, fine); if (!fine) return;
        if (k < 0) return pass();
        if (v.keys[k].uniq) { if (chk(q, "UniqueKey", &key)) pass(); return; }
        if (chk(q, "Success", &key, ty) && eq(R1, IN.at(v.keys[k].def), "default")) pass();
        return;
    }
    if (b == "keys") { if (eq(R0, keyList(v), "keys")) pass(); return; }
    if (b == "ukeys") { if (eq(R0, ukeyList(v), "unique keys")) pass(); return; }
    if (b == "haskey") { if (boolIs(v.key(iv(dec(a[1]))) >= 0)) pass(); return; }
    if (b == "keytype") { int k = v.key(iv(dec(a[1]))); if (!boolIs(k >= 0)) return; if (eq(R1, k >= 0 ? std::string(1, v.keys[k].t) : "?", "type")) pass(); return; }
    if (b == "size") { size_t c = dead ? 0 : in ? in->m.size() : v.recs.size(); if (eq(R0, std::to_string(c), "size")) pass(); return; }
    if (b == "tostr") { if (eq(R0, dumpText(v, in), "dump")) pass(); return; }
    if (b == "json") {
        if (dead) { pass(); return; }
        if (eq(R0, dumpText(v, in), "json")) pass();
        return;
    }
    if (b == "print" || b == "ptable") {
        if (R0 == "toolong") return pass();
        std::string text = dec(R0.substr(1)); Toks ks; size_t total = in ? in->m.size() : v.recs.size();
        if (a[5] != "-") for (auto& x : split(a[5], ',')) ks.push_back(dec(x)); else for (auto& x : v.keys) ks.push_back(IN.at(x.name));
        if (b == "ptable") {
            int k = v.key(iv(dec(a[3])));
            if (dead || k < 0 || !total) { if (eq(text, "The keys could not be retrieved because the container is empty\n (0 records)\n", "printed")) pass(); return; }
            if (table(v, in, ks, k, a[4] == "1", amountOf(a[2]), a[1] == "1", total, text)) pass();
            return;
        }
        if (dead) { if (eq(text, "The parent Vault is not valid!\n", "printed")) pass(); return; }
        if (v.keys.empty()) { if (eq(text, std::string(in ? "VaultRecordSet" : "Vault") + " does not contain keys!\n (" + std::to_string(total) + " records)\n", "printed")) pass(); return; }
        if (table(v, in, ks, v.key(iv(a[3] == "-" ? ks[0] : dec(a[3]))), a[4] == "1", amountOf(a[2]), a[1] == "1", total, text)) pass();
        return;
    }
    if (b == "save") {
        if (dead) { if (boolIs(false)) pass(); return; }
        std::string fn = dec(a[1]); FileM f; f.kind = 2; f.sep = dec(a[2]); f.hdr = a[3] == "1";
        if (a[4] != "-") for (auto& k : split(a[4], ',')) f.keys.push_back(dec(k)); else for (auto& k : v.keys) f.keys.push_back(IN.at(k.name));
        for (auto& x : v.recs) { if (in && !in->has(x.rid)) continue; std::vector<std::string> row; for (auto& k : f.keys) { int ki = v.key(iv(k)); row.push_back(ki < 0 ? "" : plainOf(x.f[ki])); } f.rows.push_back(row); }
        std::sort(f.rows.begin(), f.rows.end());
        State t = s;
        if (R0 == "0") { if (!Model::faulted) { bad("save failed without a fault"); return; } FileM u; u.kind = 3; t.f[fn] = u; return ok(std::move(t)); }
        if (!boolIs(true)) return;
        t.f[fn] = f; return ok(std::move(t));
    }
    if (b == "sorted") {
        int k = v.key(iv(dec(a[1]))); Toks got = parseList(R0);
        std::vector<int64_t> cand; bool keep = a[4] != "-" && !got.empty();
        if (k < 0) { if (got.empty()) pass(); else bad("listing by unknown key"); return; }
        if (!ordered(v, in, k, a[2] == "1", amountOf(a[3]), got, o.seq)) return;
        if (!keep) return pass();
        for (auto& x : v.recs) { if (in && !in->has(x.rid)) continue; if (got[0] == "?" || idText(v, x.rid) == got[0]) { State t = s; t.r[AI(a[4])] = x.rid; ok(std::move(t)); } }
        return;
    }
    if (b == "sortby") {
        int k = v.key(iv(dec(a[1]))); Toks got = parseList(R0), ids_;
        if (dead || k < 0) { if (got.empty()) pass(); else bad("callback by unknown key"); return; }
        size_t total = in ? in->m.size() : v.recs.size(), am = amountOf(a[3]); int stop = AI(a[5]);
        if (stop > 0 && (size_t)stop < am) am = stop;
        Toks rk = split(a[4], ':'); int kk = v.key(iv(dec(rk[0])));
        for (auto& e : got) {
            Toks z = split(e, '='); ids_.push_back(z[0]);
            if (z[0] == "?") { bad("callback got an invalid record"); return; }
            if (z.size() < 3) { bad("malformed"); return; }
            if (!eq(z[2], std::to_string(total), "size seen in callback")) return;
            for (auto& x : v.recs) if (idText(v, x.rid) == z[0]) {
                std::string want = kk < 0 ? "!WrongKey" : v.keys[kk].t != rk[1][0] ? "!WrongType" : IN.at(x.f[kk]);
                if (!eq(z[1], want, "value seen in callback")) return;
            }
        }
        if (!ordered(v, in, k, a[2] == "1", am, ids_, true)) return;
        State t = s;
        if (a[6] != "-" && !ids_.empty()) for (auto& x : v.recs) if ((!in || in->has(x.rid)) && idText(v, x.rid) == ids_[0]) t.r[AI(a[6])] = x.rid;
        return ok(std::move(t));
    }
    if (b == "erasek" || b == "rmk" || b == "erasem" || b == "rmm") {
        Vor q = parseVor(R0); std::string key = dec(a[1]); char ty = a[2][0]; bool fine;
        if (dead) { if (chk(q, "ParentVaultNotValid", &key, ty)) pass(); return; }
        int k = keyed(v, q, key, ty, fine); if (!fine) return;
        if (k < 0) return pass();
        auto m = match(v, k, iv(a[2]), in);
        if (m.empty()) { if (chk(q, "WrongValue", &key, ty)) pass(); return; }
        size_t am = b == "erasek" || b == "rmk" ? 1 : amountOf(a[3]);
        if (am == 0 && (q.code == "WrongValue" || q.code == "Success")) return pass();
        if (!chk(q, "Success", &key, ty)) return;
        std::vector<std::vector<int64_t>> subs; subsets(m, std::min(m.size(), am), subs);
        for (auto& z : subs) { State t = s; for (auto x : z) { if (si >= 0) t.s[si].del(x); else eraseRec(t, vi, x); } ok(std::move(t)); }
        return;
    }
    if (b == "get") {
        Vor q = parseVor(R0); std::string key = dec(a[1]); char ty = a[2][0]; bool fine; int ri = AI(a[3]);
        auto cur = [&](int64_t rid) { int h = s.home(rid); return h < 0 ? std::string("?") : idText(s.v[h], rid); };
        auto unchanged = [&] { std::string c = cur(s.r[ri]); if (R1 == c || (!o.seq && R1 == "?")) pass(); else bad("handle changed by a failed look-up"); };
        if (dead) { if (chk(q, "ParentVaultNotValid", &key, ty)) unchanged(); return; }
        int k = keyed(v, q, key, ty, fine); if (!fine) return;
        if (k < 0) return unchanged();
        auto m = match(v, k, iv(a[2]), in);
        State t = s;
        if (m.empty()) { if (!chk(q, "WrongValue", &key, ty)) return; if (R1 != "?") { bad("handle valid after WrongValue"); return; } t.r[ri] = 0; return ok(std::move(t)); }
        if (!chk(q, "Success", &key, ty, ty)) return;
        if (R1 == "?" && o.seq) { bad("look-up produced an invalid handle"); return; }
        for (auto x : m) if (R1 == "?" || idText(v, x) == R1) { State u = s; u.r[ri] = x; ok(std::move(u)); }
        if (out->empty()) bad("look-up " + key + "=" + a[2] + " returned record " + R1);
        return;
    }
    if (b == "getm") {
        Vor q = parseVor(R0); std::string key = dec(a[1]); char ty = a[2][0]; bool fine; Toks got = parseList(R1); size_t am = amountOf(a[3]);
        bool pre = a.size() > 5 && a[5] != "-"; int keep = a[4] != "-" && !got.empty() ? AI(a[4]) : -1;
        auto cur = [&](int64_t rid) { int h = s.home(rid); return h < 0 ? std::string("?") : idText(s.v[h], rid); };
        auto unchanged = [&](bool emptyOk) {
            State t = s;
            if (emptyOk && got.empty()) return ok(std::move(t));
            if (!pre) { if (got.empty()) ok(std::move(t)); else bad("failed look-up produced records"); return; }
            std::string c = cur(s.r[AI(a[5])]);
            if (got.size() != 1 || (got[0] != c && (o.seq || got[0] != "?"))) { bad("vector changed by a failed look-up"); return; }
            if (keep >= 0) t.r[keep] = s.r[AI(a[5])];
            ok(std::move(t));
        };
        if (dead) { if (chk(q, "ParentVaultNotValid", &key, ty)) unchanged(false); return; }
        int k = keyed(v, q, key, ty, fine); if (!fine) return;
        if (k < 0) return unchanged(false);
        auto m = match(v, k, iv(a[2]), in);
        if (m.empty()) { if (chk(q, "WrongValue", &key, ty)) unchanged(true); return; }
        if (am == 0) { if (got.empty()) pass(); else bad("amount 0 returned records"); return; }
        if (!chk(q, "Success", &key, ty, ty)) return;
        if (got.size() != std::min(am, m.size())) { bad("look-up found " + std::to_string(got.size()) + " records, expected " + std::to_string(std::min(am, m.size()))); return; }
        std::set<std::string> seen, can; for (auto x : m) can.insert(idText(v, x));
        for (auto& g : got) { if (g == "?") { if (o.seq) { bad("look-up holds an invalid record"); return; } continue; } if (!can.count(g)) { bad("look-up returned record " + g); return; } if (!seen.insert(g).second) { bad("record " + g + " returned twice"); return; } }
        if (keep < 0) return pass();
        for (auto x : m) if (got[0] == "?" || idText(v, x) == got[0]) { State t = s; t.r[keep] = x; ok(std::move(t)); }
        return;
    }
    if (b == "req" || b == "reqx") {
        int ti = AI(a[1]); Vor q = parseVor(R0); State t = s;
        if (dead) { if (chk(q, "ParentVaultNotValid")) ok(std::move(t)); return; }
        if (si == ti && si >= 0) { if (chk(q, "SameVaultRecordSet")) ok(std::move(t)); return; }
        SetM w; w.ex = true; w.par = vi;
        if (b == "reqx") {
            std::set<int64_t> sel; std::vector<std::pair<std::string, std::string>> errs; size_t p = 0;
            evalExpr(v, in, a[2], p, sel, errs);
            if (!errs.empty()) { bool f = false; for (auto& e : errs) if (e.first == q.code && e.second == q.key) f = true; if (!f || q.ok) { bad("expected " + errs[0].first + " got " + q.code); return; } t.s[ti] = w; return ok(std::move(t)); }
            if (!chk(q, "Success")) return;
            w.m.assign(sel.begin(), sel.end()); t.s[ti] = w; return ok(std::move(t));
        }
        std::string key = dec(a[3]); bool fine; int k = keyed(v, q, key, a[4][0], fine); if (!fine) return;
        if (k < 0) { t.s[ti] = w; return ok(std::move(t)); }
        if (!chk(q, "Success", &key, a[4][0])) return;
        int kind = AI(a[2]), lo = iv(a[4]), hi = iv(a[5]); bool i1 = a[6] == "-" || a[6][0] == '1', i2 = a[6] == "-" || a[6][1] == '1';
        std::vector<int64_t> m; Toks pt = split(a[8], ':');
        std::map<std::string, std::string> seen;
        for (auto& x : v.recs) {
            if (in && !in->has(x.rid)) continue;
            int f = x.f[k]; bool c;
            switch (kind) {
            case 0: c = f == lo; break; case 1: c = vless(lo, f); break; case 2: c = !vless(f, lo); break; case 3: c = vless(f, lo); break; case 4: c = !vless(lo, f); break;
            default: c = (i1 ? !vless(f, lo) : vless(lo, f)) && (i2 ? !vless(hi, f) : vless(f, hi));
            }
            if (c && a[8] != "-" && !predOn(v, x, pt)) c = false;
            if (c) m.push_back(x.rid);
        }
        if (R1.size() > 2) for (auto& e : parseList(R1)) {
            Toks z = split(e, '='); bool f = false;
            for (auto& x : v.recs) if (idText(v, x.rid) == z[0] && (!in || in->has(x.rid))) { f = true; int kk = v.key(iv(dec(pt[1]))); std::string want = kk < 0 ? "!WrongKey" : v.keys[kk].t != pt[2][0] ? "!WrongType" : IN.at(x.f[kk]); if (!eq(z[1], want, "value seen by predicate")) return; }
            if (!f) { bad("predicate got record " + z[0]); return; }
        }
        std::vector<std::vector<int64_t>> subs; subsets(m, std::min(m.size(), amountOf(a[7])), subs);
        for (auto& z : subs) { State u = s; w.m = z; std::sort(w.m.begin(), w.m.end()); u.s[ti] = w; ok(std::move(u)); }
        return;
    }
    bad("operation unknown to the model: " + n);
}

// ---------------------------------------------------------------- linearizability search
struct LinResult { bool ok = true; bool undecided = false; std::string why; size_t states = 0, nodes = 0; int windows = 0, maxWindow = 0; };
static inline LinResult linearize(const State& init, std::vector<Rec> h, size_t nodeCap = 60000)
{
    LinResult res; Model m; Model::truncated = false;
    std::sort(h.begin(), h.end(), [](const Rec& a, const Rec& b) { return a.inv < b.inv; });
    // Several records that are erased together leave the vault at one moment, but their handles become invalid one after
    // another: what one says about validity alone while such a call runs is not tied to what another one says
    for (auto& x : h) if (x.name == "rvalid" || x.name == "reqq" || x.name == "rneq" || x.name == "rid")
        for (auto& y : h) if (y.inv < x.ret && x.inv < y.ret && (y.name == "dropdata" || y.name == "erasek" || y.name == "erasem")) x.soft = true;
    std::vector<State> cur{ init };
    size_t i = 0;
    while (i < h.size()) {
        // window: maximal group of ops overlapping transitively
        size_t j = i + 1; uint64_t end = h[i].ret;
        while (j < h.size() && h[j].inv < end) { end = std::max(end, h[j].ret); ++j; }
        size_t n = j - i; ++res.windows; if ((int)n > res.maxWindow) res.maxWindow = (int)n;
        std::vector<State> next; std::unordered_set<std::string> nextKeys;
        std::string why; size_t best = 0;
        if (n == 1) {

            for (auto& s : cur) { std::vector<State> o; m.step(s, h[i], o); if (o.empty() && why.empty()) why = m.why; for (auto& x : o) { std::string k = x.key(); if (nextKeys.insert(k).second) next.push_back(std::move(x)); } }
            if (next.empty() && Model::truncated) { res.undecided = true; return res; }
            if (next.empty()) { res.ok = false; res.why = "op " + std::to_string(h[i].id) + " " + h[i].name + ": " + why; return res; }
        } else {
            if (n > 60) { res.undecided = true; return res; }
            std::unordered_set<std::string> seen; uint64_t full = n == 64 ? ~0ull : (1ull << n) - 1; size_t nodes = 0; bool capped = false;
            std::function<void(uint64_t, const State&, size_t)> go = [&](uint64_t done, const State& s, size_t depth) {
                if (capped) return;
                if (done == full) { std::string k = s.key(); if (nextKeys.insert(k).second) next.push_back(s); return; }
                if (++nodes > nodeCap) { capped = true; return; }
                uint64_t minRet = ~0ull;
                for (size_t k = 0; k < n; ++k) if (!(done >> k & 1)) minRet = std::min(minRet, h[i + k].ret);
                for (size_t k = 0; k < n; ++k) {
                    if (done >> k & 1 || h[i + k].inv > minRet) continue;
                    std::vector<State> o; m.step(s, h[i + k], o);
                    if (o.empty() && depth >= best) { best = depth; why = "op " + std::to_string(h[i + k].id) + " " + h[i + k].name + ": " + m.why; }
                    for (auto& x : o) {
                        uint64_t d2 = done | 1ull << k; std::string key = x.key(); key.append((const char*)&d2, 8);
                        if (seen.insert(std::move(key)).second) go(d2, x, depth + 1);
                    }
                }
            };
            for (auto& s : cur) go(0, s, 0);
            res.nodes += nodes;
            if (next.empty()) { if (capped || Model::truncated) { res.undecided = true; return res; } res.ok = false; res.why = "no order of " + std::to_string(n) + " overlapping operations explains the results; deepest: " + why; return res; }
            if (capped) res.undecided = true;   // continue with the states found
            if (capped) return res;
        }
        res.states += next.size();
        if (next.size() > 400) { res.undecided = true; return res; }
        cur.swap(next);
        i = j;
    }
    return res;
}

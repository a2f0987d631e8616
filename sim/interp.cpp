// The simulated clients: executes a plan (see driver) against the real library.
#include <algorithm>
#include <list>
#include <map>
#include <set>
#include <memory>
#include <cstring>
#include "ops.h"
#include "ReadWriteMutex.h"
#include "Uuid/Uuid.h"
#include "BackTrace/BackTrace.h"
#include "Strings/PrintAsTable.h"
#include "Vault.hpp"
#include "VaultRecordSet.hpp"
#include "VaultRecordRef.hpp"

Vault* V[NV];
VaultRecordSet* S[NS];
VaultRecordRef* R[NR];
typedef const std::string& Str;
typedef std::vector<std::string> Toks;

// ------------------------------------------------------------------ tokens
static bool plainc(unsigned char c) { return c > 32 && c < 127 && !strchr("%|,=:;[]()", c); }
std::string enc(const std::string& s)
{
    static const char* hx = "0123456789ABCDEF";
    std::string o;
    for (unsigned char c : s) if (plainc(c)) o += (char)c; else { o += '%'; o += hx[c >> 4]; o += hx[c & 15]; }
    return o;
}
std::string dec(const std::string& s)
{
    auto hv = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size() + 0 + 0) { o += (char)(hv(s[i + 1]) * 16 + hv(s[i + 2])); i += 2; }
        else o += s[i];
    return o;
}
char tchar(std::type_index t)
{
    if (t == typeid(int)) return 'i';
    if (t == typeid(std::string)) return 's';
    if (t == typeid(int64_t)) return 'l';
    if (t == typeid(double)) return 'd';
    if (t == typeid(float)) return 'f';
    if (t == typeid(bool)) return 'b';
    if (t == typeid(int16_t)) return 'h';
    if (t == typeid(uint64_t)) return 'u';
    if (t == typeid(int8_t)) return 'c';
    if (t == typeid(uint8_t)) return 'y';
    if (t == typeid(uint16_t)) return 'k';
    if (t == typeid(uint32_t)) return 'w';
    if (t == typeid(Cust)) return 'z';
    if (t == typeid(void)) return 'v';
    return '?';
}
static const char* codeName(mvlt::VaultOperationResultCode c)
{
    using C = mvlt::VaultOperationResultCode;
    switch (c) {
    case C::OtherParentVaultNotValid: return "OtherParentVaultNotValid";
    case C::SameVaultRecordSet: return "SameVaultRecordSet";
    case C::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda: return "NeedLambda";
    case C::DuplicateKey: return "DuplicateKey";
    case C::UniqueKey: return "UniqueKey";
    case C::RecordAlredyInSet: return "RecordAlredyInSet";
    case C::ParentVaultNotMatch: return "ParentVaultNotMatch";
    case C::ParentVaultNotValid: return "ParentVaultNotValid";
    case C::DataRecordNotValid: return "DataRecordNotValid";
    case C::WrongKey: return "WrongKey";
    case C::WrongType: return "WrongType";
    case C::Idle: return "Idle";
    case C::WrongValue: return "WrongValue";
    case C::UniqueKeyValueAlredyInSet: return "UniqueValue";
    case C::Success: return "Success";
    }
    return "?";
}
static int nThreads;
static const char* codeText(mvlt::VaultOperationResultCode c)
{
    using C = mvlt::VaultOperationResultCode;
    switch (c) {
    case C::OtherParentVaultNotValid: return "The parent Vault of another VaultRecordSet is not valid.";
    case C::SameVaultRecordSet: return "The operation is performed on the same VaultRecordSet object.";
    case C::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda: return "You can not add unique key without lambda in non-empty vault";
    case C::DuplicateKey: return "This key is alredy in vault";
    case C::UniqueKey: return "The key is unique and you can not update it default value.";
    case C::RecordAlredyInSet: return "The record is already in VaultRecordSet.";
    case C::ParentVaultNotMatch: return "The parent Vaults don't match.";
    case C::ParentVaultNotValid: return "Parent Vault is not valid.";
    case C::DataRecordNotValid: return "The record referenced by VaultRecordRef is not valid.";
    case C::WrongKey: return "The requested key was not found.";
    case C::WrongType: return "The mismatch between the types of the requested key and the saved one.";
    case C::Idle: return "Idle state. The operation was not performed.";
    case C::WrongValue: return "A record with this key value was not found.";
    case C::UniqueKeyValueAlredyInSet: return "Unique key value alredy in set.";
    case C::Success: return "The operation was completed successfully.";
    }
    return "";
}
// What a result object says about itself: its text, its printed line, and that it equals a copy and nothing else.
static const char* selfCheck(const VaultOperationResult& r)
{
    bool same, d1, d2, d3, d4; std::string text;
    const char* d = nullptr; size_t n0 = con_text(&d), n1;
    { Lib l; VaultOperationResult q = r; same = q == r; q.IsOperationSuccess = !q.IsOperationSuccess; d1 = q == r; q = r; q.Key += "x"; d2 = q == r; q = r;
      q.RequestedType = typeid(VaultOperationResult); d3 = q == r; q = r; q.SavedType = typeid(VaultOperationResult); d4 = q == r; text = r.ResultCodeString(); r.Print(); }
    if (!same || d1 || d2 || d3 || d4) return "!compare";
    if (text != codeText(r.ResultCode)) return "!text";
    if (n0 == (size_t)-1 || (n1 = con_text(&d)) == (size_t)-1) return "";
    std::string pr(d + n0, n1 - n0), want = std::string(r.IsOperationSuccess ? "Success! " : "Failed! ") + text + " Key: " + r.Key + " Saved type: " + r.SavedType.name() + " Requested type: " + r.RequestedType.name() + "\n";
    return pr == want ? "" : "!print";
}
std::string vor(const VaultOperationResult& r)
{
    std::string bad; if (nThreads <= 1) bad = selfCheck(r);
    return bad + std::string(codeName(r.ResultCode)) + "|" + (r.IsOperationSuccess ? "1" : "0") + "|" + enc(r.Key) + "|" + tchar(r.RequestedType) + "|" + tchar(r.SavedType);
}
const TypeOps* typeOps(char t)
{
    switch (t) { case 's': return &opsS; case 'l': return &opsL; case 'd': return &opsD; case 'b': return &opsB; case 'h': return &opsH; case 'u': return &opsU; case 'f': return &opsF; case 'c': return &opsC; case 'y': return &opsY; case 'k': return &opsK; case 'w': return &opsW; case 'z': return &opsZ; default: return &opsI; }
}
static Toks split(Str s, char c)
{
    Toks r; std::string cur;
    for (char x : s) if (x == c) { r.push_back(cur); cur.clear(); } else cur += x;
    r.push_back(cur);
    return r;
}
// ------------------------------------------------------------------ plan
struct Op { int id = 0, thr = 0; std::string name; Toks a; std::vector<int> subs; };
static std::vector<Op> ops;
static std::map<int, int> byId;               // id -> index
static std::vector<int> thrOps[16];

static std::string tdOrder;
static std::vector<std::pair<char, std::string>> domain; // audited values

static void say(Str s) { rt_out(s.data(), s.size()); }

static std::string peek(const VaultRecordRef& r)
{
    int64_t id = -1;
    VaultOperationResult q;
    { Lib l; q = r.GetData(std::string("Id"), id); }
    if (!q.IsOperationSuccess) return q.ResultCode == mvlt::VaultOperationResultCode::DataRecordNotValid ? "?" : "!" + std::string(codeName(q.ResultCode));
    return std::to_string(id);
}
static void runSubs(const Op& o, const VaultRecordRef* ref, int nth);
static std::string exec(const Op& o);
static bool cfgDebug()
{
#ifdef NDEBUG
    return false;
#else
    return true;
#endif
}
// what the library printed about failed calls during one operation of a client: nothing when back-traces are off, else the name of the called function
static bool traceOn = true; static thread_local int opDepth;
static std::string traceCheck(const Op& o, size_t from)
{
    static const std::map<std::string, std::string> F = { { "create", "CreateRecord" }, { "erasek", "EraseRecord" }, { "erasem", "EraseRecords" }, { "get", "GetRecord" }, { "sget", "GetRecord" }, { "getm", "GetRecords" }, { "sgetm", "GetRecords" },
        { "keyval", "GetKeyValue" }, { "skeyval", "GetKeyValue" }, { "req", "Request*" }, { "sreq", "Request*" }, { "reqx", "Request" }, { "sreqx", "Request" }, { "rget", "GetData" }, { "rset", "SetData" }, { "rsetm", "SetData" },
        { "sortby", "SortBy" }, { "ssortby", "SortBy" }, { "srmk", "RemoveRecord" }, { "srmm", "RemoveRecords" }, { "updkey", "UpdateKey" }, { "adduk", "AddUniqueKey" } };
    auto f = F.find(o.name); if (f == F.end() || !o.subs.empty()) return "";
    const char* d = nullptr; size_t n = con_text(&d); if (n == (size_t)-1 || n <= from) return "";
    std::string t(d + from, n - from); static const std::string A = "\x1B[33m", B = "\033[0m from ";
    if (!traceOn) return t.find("Internal error") == std::string::npos ? "" : " printed:" + enc(t.substr(0, 60));
    for (size_t p = 0; (p = t.find(A, p)) != std::string::npos;) { p += A.size(); size_t e = t.find(B, p); if (e == std::string::npos) break; std::string x = t.substr(p, e - p), w = f->second; if (x == "GetData") continue; /* the client itself looks at handles */ if (w.back() == '*' ? x.compare(0, w.size() - 1, w, 0, w.size() - 1) != 0 : x != w) return " printed:" + enc(x); p = e; }
    return "";
}
static void runOp(int idx)
{
    const Op& o = ops[idx];
    char b[64];
    rt_op_point();
    uint64_t inv = rt_seq();
    snprintf(b, sizeof b, "I %d %llu\n", o.id, (unsigned long long)inv);
    say(b);
    const char* con = nullptr; size_t con0 = con_text(&con);
    ++opDepth; std::string r = exec(o); --opDepth;
    if (cfgDebug() && opDepth == 0 && con0 != (size_t)-1) r += traceCheck(o, con0);
    say("R " + std::to_string(o.id) + " " + r + "\n");
}
static thread_local std::string retMark;
static std::string mark() { return std::to_string(rt_seq()); }

// predicate / callback tokens:  T F e:key:val n:key:val g:key:val  t:key (reads key, remembers)
struct Log { std::string s; };
static bool evalPred(Str p, const VaultRecordRef& ref, Log* log, const Op* o, int* nth)
{
    Har h;
    rt_count("callbacks");
    if (o && !o->subs.empty()) runSubs(*o, &ref, (*nth)++);
    if (p == "T") return true;
    if (p == "F") return false;
    Toks t = split(p, ':');
    std::string v;
    VaultOperationResult q = typeOps(t[2])->rget(ref, dec(t[1]), v);
    if (log) { if (!log->s.empty()) log->s += ","; log->s += peek(ref) + "=" + (q.IsOperationSuccess ? v : "!" + std::string(codeName(q.ResultCode))); }
    if (!q.IsOperationSuccess) return false;
    if (t[0] == "e") return v == t[2];
    return v != t[2];
}
static void setKeep(Str tok, const VaultRecordRef& r)
{
    if (tok == "-" || tok.empty()) return;
    int i = atoi(tok.c_str());
    Lib l;
    *R[i] = r;
}
static std::string ids(const std::vector<VaultRecordRef>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += peek(v[i]); }
    return s + "]";
}
static std::string list(const std::vector<std::string>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += enc(v[i]); }
    return s + "]";
}
static std::string rowText(const std::vector<std::pair<std::string, std::string>>& row)
{
    std::string s = "(";
    for (size_t i = 0; i < row.size(); ++i) { if (i) s += ","; s += enc(row[i].first) + "=" + enc(row[i].second); }
    return s + ")";
}
static std::string dumpText(const std::vector<std::vector<std::pair<std::string, std::string>>>& d)
{
    std::vector<std::string> rows;
    for (auto& r : d) rows.push_back(rowText(r));
    std::sort(rows.begin(), rows.end());
    std::string s = "[";
    for (size_t i = 0; i < rows.size(); ++i) { if (i) s += ";"; s += rows[i]; }
    return s + "]";
}
// tolerant JSON reader: list of rows; anything malformed is reported as text
struct Json {
    const std::string& s; size_t p = 0; bool bad = false;
    Json(const std::string& x) : s(x) {}
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\r' || s[p] == '\t')) ++p; }
    bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { ++p; return true; } return false; }
    std::string str()
    {
        ws(); std::string o;
        if (p >= s.size() || s[p] != '"') { bad = true; return o; }
        for (++p; p < s.size() && s[p] != '"'; ++p) {
            unsigned char c = s[p];
            if (c < 32) { bad = true; }
            if (c == '\\' && p + 1 < s.size()) {
                char e = s[++p];
                if (e == 'n') o += '\n'; else if (e == 'r') o += '\r'; else if (e == 't') o += '\t'; else if (e == 'b') o += '\b'; else if (e == 'f') o += '\f';
                else if (e == 'u' && p + 4 < s.size()) { o += (char)strtol(s.substr(p + 1, 4).c_str(), 0, 16); p += 4; }
                else if (e == '"' || e == '\\' || e == '/') o += e; else bad = true;
            } else o += (char)c;
        }
        if (p >= s.size()) bad = true; else ++p;
        return o;
    }
    std::string atom() { ws(); if (p < s.size() && s[p] == '"') return str(); std::string o; while (p < s.size() && !strchr(",}] \n\r\t", s[p])) o += s[p++]; if (o.empty()) bad = true; return o; }
    std::vector<std::pair<std::string, std::string>> obj()
    {
        std::vector<std::pair<std::string, std::string>> r;
        if (!eat('{')) { bad = true; return r; }
        if (eat('}')) return r;
        do { std::string k = str(); if (!eat(':')) bad = true; std::string v = atom(); r.emplace_back(k, v); } while (!bad && eat(','));
        if (!eat('}')) bad = true;
        return r;
    }
};
static std::string jsonRows(const std::string& text, bool isArray, bool tmpl)
{
    Json j(text);
    std::vector<std::vector<std::pair<std::string, std::string>>> rows;
    char open = isArray ? '[' : '{', close = isArray ? ']' : '}';
    std::set<std::string> names;
    if (!j.eat(open)) j.bad = true;
    else if (!j.eat(close)) {
        do {
            if (!isArray) { std::string n = j.str(); if (!names.insert(n).second) j.bad = true; if (!j.eat(':')) j.bad = true; }
            rows.push_back(j.obj());
        } while (!j.bad && j.eat(','));
        if (!j.eat(close)) j.bad = true;
    }
    j.ws();
    if (j.p != text.size()) j.bad = true;
    (void)tmpl;
    if (j.bad) return "badjson:" + enc(text.substr(0, 200));
    return dumpText(rows);
}
static ReqNodeBase* buildExpr(Str e, size_t& p, std::vector<ReqNodeBase*>& all, int how)
{
    // prefix: &(a)(b)  |(a)(b)  or leaf "k:key:val[:pred]" with k one of E G H L M
    ReqNodeBase* n;
    if (e[p] == '&' || e[p] == '/') {
        bool isAnd = e[p] == '&';
        p += 2;
        ReqNodeBase* a = buildExpr(e, p, all, how >> 1 ? how >> 1 : how);
        p += 2;                                 // ")("
        ReqNodeBase* b = buildExpr(e, p, all, how >> 1 ? how >> 1 : how);
        ++p;
        n = reqJoin(isAnd, a, b, how);
    } else {
        size_t q = e.find(')', p);
        std::string leaf = q == std::string::npos ? e.substr(p) : e.substr(p, q - p);
        p += leaf.size();
        Toks t = split(leaf, ':');
        int kind = (int)(std::string("EGHLM").find(t[0]));
        bool hp = t.size() > 3;
        PredFn f;
        if (hp) { std::string ps = t[3] == "e" || t[3] == "n" ? t[3] + ":" + t[4] + ":" + t[5] : t[3]; f = [ps](const VaultRecordRef& r) { return evalPred(ps, r, nullptr, nullptr, nullptr); }; }
        n = typeOps(t[2])->leaf(kind, dec(t[1]), t[2], hp, f);
    }
    all.push_back(n);
    return n;
}

// ------------------------------------------------------------------ audits
typedef std::vector<std::vector<std::pair<std::string, std::string>>> Dump;
static std::string plainOf(Str tok) // text the library's ToString yields for a token
{
    if (tok[0] == 's') return dec(tok.substr(1));
    return num::plain(tok);
}
static bool lessTok(char t, Str a, Str b)  // compare plain texts as values of type t
{
    if (t == 's') return a < b;
    return num::lessRaw(t, a.c_str(), b.c_str());
}
static std::string audit(Vault* v, VaultRecordSet* s, bool full)
{
    // Everything is read through the public interface at a quiescent moment;
    // the dump is the reference, every other view has to agree with it.
    Dump d; std::vector<std::string> keys, ukeys; size_t size;
    { Lib l; d = v ? v->ToStrings() : s->ToStrings(); }
    { Lib l; keys = v ? v->GetKeys() : s->GetKeys(); }
    { Lib l; ukeys = v ? v->GetUniqueKeys() : s->GetUniqueKeys(); }
    { Lib l; size = v ? v->Size() : s->Size(); }
    std::string bad;
    auto fail = [&](const std::string& m) { if (bad.size() < 400) bad += (bad.empty() ? "" : ";") + m; };
    if (size != d.size()) fail("size=" + std::to_string(size) + " but dump has " + std::to_string(d.size()));
    std::sort(ukeys.begin(), ukeys.end());
    std::map<std::string, std::map<std::string, std::string>> rows; // id -> key -> text
    for (auto& r : d) {
        std::map<std::string, std::string> m;
        for (auto& kv : r) m[kv.first] = kv.second;
        if (r.size() != keys.size()) fail("row with " + std::to_string(r.size()) + " fields for " + std::to_string(keys.size()) + " keys");
        for (auto& k : keys) if (!m.count(k)) fail("row misses key " + k);
        if (!rows.insert(std::make_pair(m["Id"], m)).second) fail("record listed twice Id=" + m["Id"]);
    }
    std::map<std::string, char> types;
    for (auto& k : keys) {
        std::type_index t = typeid(void); bool ok, ex;
        { Lib l; ok = v ? v->GetKeyType(k, t) : s->GetKeyType(k, t); }
        { Lib l; ex = v ? v->IsKeyExist(k) : s->IsKeyExist(k); }
        if (!ok || !ex) fail("key " + k + " listed but unknown");
        types[k] = tchar(t);
    }
    auto byKey = [&](Str k, char t) {
        std::vector<std::pair<std::string, std::string>> o;
        for (auto& r : rows) { auto it = r.second.find(k); if (it != r.second.end()) o.emplace_back(it->second, r.first); }
        std::stable_sort(o.begin(), o.end(), [&](const std::pair<std::string, std::string>& a, const std::pair<std::string, std::string>& b) { return lessTok(t, a.first, b.first); });
        return o;
    };
    auto listing = [&](const char* what, Str k, char t, const std::vector<VaultRecordRef>& got, bool rev) {
        std::multiset<std::string> seen; std::string prev; bool first = true;
        for (auto& r : got) {
            std::string id = peek(r), val;
            seen.insert(id);
            auto it = rows.find(id);
            if (it == rows.end()) { fail(std::string(what) + " " + k + " lists unknown record " + id); continue; }
            VaultOperationResult q = typeOps(t)->rget(r, k, val);
            std::string pv = q.IsOperationSuccess ? plainOf(val) : "?";
            if (!q.IsOperationSuccess || pv != it->second[k]) fail(std::string(what) + " " + k + " record " + id + " value " + pv + " but dump has " + it->second[k]);
            if (!first && (rev ? lessTok(t, prev, pv) : lessTok(t, pv, prev))) fail(std::string(what) + " " + k + " out of order");
            prev = pv; first = false;
        }
        for (auto& r : rows) { size_t n = seen.count(r.first); if (n != 1) fail(std::string(what) + " " + k + " lists record " + r.first + " " + std::to_string(n) + " times"); }
    };
    VaultRecordSet* tmp = nullptr;
    if (full) { Lib l; tmp = new VaultRecordSet; }
    for (auto& k : keys) {
        char t = types[k];
        rt_progress();
        auto sorted = byKey(k, t);
        for (int rev = 0; rev < 2; ++rev) {
            std::vector<VaultRecordRef> got;
            { Lib l; got = v ? v->GetSortedRecords(k, rev) : s->GetSortedRecords(k, rev); }
            listing(rev ? "descending" : "ascending", k, t, got, rev);
            { Lib l; got.clear(); }
        }
        bool uniq = std::binary_search(ukeys.begin(), ukeys.end(), k);
        if (uniq) for (size_t i = 1; i < sorted.size(); ++i) if (sorted[i].first == sorted[i - 1].first || (t != 's' && !lessTok(t, sorted[i - 1].first, sorted[i].first))) fail("unique key " + k + " holds " + sorted[i].first + " twice");
        std::set<std::string> toks;
        for (auto& dv : domain) if (dv.first == t) toks.insert(dv.second);
        for (auto& p : sorted) { if (t == 's') toks.insert("s" + enc(p.first)); else toks.insert(num::token(t, p.first)); }
        if (toks.size() > 14 && !full) continue;
        if ((rows.size() > 60 || keys.size() > 10) && toks.size() > 12) { std::set<std::string> some; size_t i = 0, st = toks.size() / 12; for (auto& x : toks) if (i++ % st == 0) some.insert(x); toks.swap(some); } // big vaults: a sample
        for (auto& tok : toks) {
            rt_progress();
            std::string pv = plainOf(tok);
            std::set<std::string> want;
            for (auto& p : sorted) if (p.first == pv || (num::isFloat(t) && !lessTok(t, p.first, pv) && !lessTok(t, pv, p.first))) want.insert(p.second);
            std::vector<VaultRecordRef> got; VaultOperationResult q;
            q = typeOps(t)->getm(v, s, k, tok, got, false, 0);
            std::set<std::string> have; for (auto& r : got) have.insert(peek(r));
            if (have != want || got.size() != want.size()) fail("look-up " + k + "=" + pv + " finds " + std::to_string(got.size()) + " not " + std::to_string(want.size()));
            if (q.IsOperationSuccess != !want.empty()) fail("look-up " + k + "=" + pv + " reports " + codeName(q.ResultCode));
            { Lib l; got.clear(); }
            if (!full || k == "Id") continue;
            for (int kind = 0; kind < 5; ++kind) {
                ReqArg a; a.kind = kind; a.key = k; a.v1 = a.v2 = tok; a.haveInc = a.haveAmount = a.havePred = false; a.amount = 0; a.inc1 = a.inc2 = true;
                VaultOperationResult rq = typeOps(t)->req(v, s, *tmp, a);
                size_t n = 0, got2;
                for (auto& p : sorted) {
                    bool lt = lessTok(t, p.first, pv), gt = lessTok(t, pv, p.first);
                    if (kind == 0 ? !lt && !gt : kind == 1 ? gt : kind == 2 ? !lt : kind == 3 ? lt : !gt) ++n;
                }
                { Lib l; got2 = tmp->Size(); }
                if (got2 != n || !rq.IsOperationSuccess) fail("query kind " + std::to_string(kind) + " " + k + " " + pv + " selects " + std::to_string(got2) + " not " + std::to_string(n));
            }
        }
    }
    if (tmp) { Lib l; delete tmp; }
    std::string o = "keys=[";
    for (size_t i = 0; i < keys.size(); ++i) { if (i) o += ","; o += enc(keys[i]) + ":" + types[keys[i]]; }
    o += "] ukeys=" + list(ukeys) + " dump=" + dumpText(d) + " coherent=" + (bad.empty() ? "ok" : enc(bad));
    return o;
}
// ------------------------------------------------------------------ locks under test
struct LockSlot { mvlt::RecursiveReadWriteMutex* rec; mvlt::ReadWriteMutex* plain; int writers, readers; std::map<int, std::pair<int, int>> held; std::map<int, int> waiting; std::map<int, int> gen; };
static LockSlot M[NM];
static std::string cut(Str s) { return s.size() > 300 ? s.substr(0, 300) : s; }
static void lockCheck(int m, const char* at)
{
    LockSlot& k = M[m];
    if (k.writers > 1 || (k.writers == 1 && k.readers > 0)) {
        std::string t = std::string("lock ") + std::to_string(m) + " held by " + std::to_string(k.writers) + " writers and " + std::to_string(k.readers) + " readers (" + at + ")";
        rt_violation("exclusion", t.c_str());
    }
}
// one token: r( ... )  w( ... )  .   nested critical sections on lock m, '.' = yield inside
// The upgrade (write inside read) lets go of the read lock while it waits, so the
// reader count drops before the call; the restored read lock is counted again
// only after the write release returned.
static void lockProg(int m, Str prog, size_t& p)
{
    while (p < prog.size() && prog[p] != ')') {
        char c = prog[p++];
        int mm = m;
        if (c >= '0' && c <= '9') { m = c - '0'; continue; }
        if (c == '.') { rt_point_user(1); lockCheck(mm, "inside"); continue; }
        if (c != 'r' && c != 'w' && c != 'R' && c != 'W') continue;
        bool w = c == 'w' || c == 'W', raii = c == 'R' || c == 'W';
        LockSlot& k = M[mm]; int me = rt_self();
        ++p;                                      // '('
        auto& h = k.held[me];
        bool upgrade = w && h.second == 0 && h.first > 0;
        if (upgrade) --k.readers;
        // a writer waiting for the current readers may not be overtaken by a reader that asks now
        int waiter = -1, waitGen = 0;
        if (w && h.second == 0) k.waiting[me] = 1;
        if (!w && h.first == 0 && h.second == 0 && k.writers == 0 && k.readers > 0) {
            int nw = 0;
            for (auto& x : k.waiting) if (x.second) { ++nw; if (rt_thread_blocked(x.first) == 2) { waiter = x.first; waitGen = k.gen[waiter]; } }
            if (nw != 1) waiter = -1;
            if (waiter >= 0) rt_count("reader_behind_waiting_writer");
        }
        auto enter = [&] {
            if (w) { if (h.second++ == 0) { ++k.writers; k.waiting[me] = 0; ++k.gen[me]; } }
            else { if (h.first == 0 && h.second == 0) ++k.readers; ++h.first; }
            lockCheck(mm, "enter");
            if (waiter >= 0 && k.gen[waiter] == waitGen && k.waiting[waiter]) { std::string t = "reader t" + std::to_string(me) + " got the lock although writer t" + std::to_string(waiter) + " was already waiting when it asked"; rt_violation("overtaken", t.c_str()); }
        };
        auto leave = [&] {
            lockCheck(mm, "leave");
            if (w) { if (--h.second == 0) --k.writers; }
            else { if (--h.first == 0 && h.second == 0) --k.readers; }
        };
        if (k.plain) {
            if (raii) {
                if (w) { int o = rt_on(); mvlt::WriteLock<mvlt::ReadWriteMutex> g(*k.plain); rt_restore(o); enter(); lockProg(mm, prog, p); leave(); rt_on(); }
                else { int o = rt_on(); mvlt::ReadLock<mvlt::ReadWriteMutex> g(*k.plain); rt_restore(o); enter(); lockProg(mm, prog, p); leave(); rt_on(); }
                rt_off();
            } else {
                { Lib l; w ? k.plain->WriteLock() : k.plain->ReadLock(); }
                enter(); lockProg(mm, prog, p); leave();
                { Lib l; w ? k.plain->WriteUnlock() : k.plain->ReadUnlock(); }
            }
        } else {
            if (raii) {
                if (w) { int o = rt_on(); mvlt::WriteLock<mvlt::RecursiveReadWriteMutex> g(*k.rec); rt_restore(o); enter(); lockProg(mm, prog, p); leave(); rt_on(); }
                else { int o = rt_on(); mvlt::ReadLock<mvlt::RecursiveReadWriteMutex> g(*k.rec); rt_restore(o); enter(); lockProg(mm, prog, p); leave(); rt_on(); }
                rt_off();
            } else {
                { Lib l; w ? k.rec->WriteLock() : k.rec->ReadLock(); }
                enter(); lockProg(mm, prog, p); leave();
                { Lib l; w ? k.rec->WriteUnlock() : k.rec->ReadUnlock(); }
            }
        }
        if (upgrade) { if (h.second == 0 && h.first > 0) { ++k.readers; lockCheck(mm, "restored"); } }
        ++p;                                      // ')'
    }
}

// ------------------------------------------------------------------ operations
static int I(Str s) { return atoi(s.c_str()); }
static std::string console() { const char* d; size_t n = con_text(&d); return n == (size_t)-1 ? "toolong" : "p" + enc(std::string(d, n)); }
static bool amountArg(Str t, size_t& a) { if (t == "-") return false; a = (size_t)strtoll(t.c_str(), 0, 10); return true; }
static std::vector<std::pair<std::string, mvlt::VaultParamInput>> params(const Toks& a, size_t from)
{
    std::vector<std::pair<std::string, mvlt::VaultParamInput>> v;
    for (size_t i = from; i < a.size(); ++i) {
        size_t e = a[i].find('=');
        std::string k = a[i].substr(0, e), t = a[i].substr(e + 1);
        v.push_back(typeOps(t)->param(dec(k), t));
    }
    return v;
}

// result strings start with the return sequence number
static std::string exec(const Op& o)
{
    const std::string& n = o.name;
    const Toks& a = o.a;
    int nth = 0;
    Vault* v = nullptr; VaultRecordSet* s = nullptr;
    // ops that exist on both: "x" on a vault, "sx" on a set
    if (n == "newv") { { Lib l; V[I(a[0])] = new Vault; } return mark(); }
    if (n == "delv") { Vault* x = V[I(a[0])]; { Lib l; delete x; } std::string m = mark(); V[I(a[0])] = nullptr; return m; }
    if (n == "copyv") { { Lib l; V[I(a[0])] = new Vault(*V[I(a[1])]); } return mark(); }
    if (n == "asgv") { { Lib l; *V[I(a[0])] = *V[I(a[1])]; } return mark(); }
    if (n == "movev") { { Lib l; V[I(a[0])] = new Vault(std::move(*V[I(a[1])])); } return mark(); }
    if (n == "mvav") { { Lib l; *V[I(a[0])] = std::move(*V[I(a[1])]); } return mark(); }
    if (n == "addkey") { bool r = typeOps(a[2])->addkey(V[I(a[0])], dec(a[1]), a[2]); return mark() + " " + (r ? "1" : "0"); }
    if (n == "adduk") { auto r = typeOps(a[2])->adduk(V[I(a[0])], dec(a[1])); return mark() + " " + vor(r); }
    if (n == "addukl") {
        // value function derived from the record's Id: id, mod2 (duplicates), const
        char t = a[2][0]; std::string mode = a[3]; std::string log;
        auto fn = [&](size_t c, const VaultRecordRef& r) -> std::string {
            rt_count("callbacks");
            std::string id = peek(r);
            if (!o.subs.empty()) runSubs(o, &r, nth++);
            if (!log.empty()) log += ",";
            log += id + "@" + std::to_string(c);
            long x = atol(id.c_str());
            if (mode == "mod2") x %= 2; else if (mode == "const") x = 7; else x += 1000;
            return std::string(1, t) + (t == 's' ? "u" : "") + std::to_string(x);
        };
        auto r = typeOps(t)->addukl(V[I(a[0])], dec(a[1]), fn);
        return mark() + " " + vor(r) + " [" + log + "]";
    }
    if (n == "updkey") { auto r = typeOps(a[2])->updkey(V[I(a[0])], dec(a[1]), a[2]); return mark() + " " + vor(r); }
    if (n == "rmkey") { bool r; std::string k = dec(a[1]); { Lib l; r = V[I(a[0])]->RemoveKey(k); } return mark() + (r ? " 1" : " 0"); }
    if (n == "create") {
        auto p = params(a, 2);
        VaultOperationResult r; std::string m;
        if (a[1] == "-") { { Lib l; r = V[I(a[0])]->CreateRecord(p); } m = mark(); }
        else { { Lib l; r = V[I(a[0])]->CreateRecord(*R[I(a[1])], p); } m = mark(); }
        return m + " " + vor(r);
    }
    if (n == "erase") { bool r; { Lib l; r = V[I(a[0])]->EraseRecord(*R[I(a[1])]); } return mark() + (r ? " 1" : " 0"); }
    if (n == "dropdata") { { Lib l; V[I(a[0])]->DropData(); } return mark(); }
    if (n == "dropvault") { { Lib l; V[I(a[0])]->DropVault(); } return mark(); }
    if (n == "load") {
        // v file sep hdr keys
        std::string f = dec(a[1]); char sep = dec(a[2])[0]; bool hdr = a[3] == "1";
        std::vector<std::string> ks; if (a[4] != "-") for (auto& k : split(a[4], ',')) ks.push_back(dec(k));
        bool r;
        { Lib l; r = V[I(a[0])]->ReadFile(f, sep, hdr, ks); }
        return mark() + (r ? " 1" : " 0");
    }
    if (n == "loadh") {
        std::string f = dec(a[1]); char sep = dec(a[2])[0]; bool r; std::string mode = a[3]; int calls = 0;
        auto fn = [&](const std::vector<std::string>& ks, std::vector<std::string>& vals) {
            Har h; ++calls; rt_count("callbacks");
            if (!o.subs.empty()) runSubs(o, nullptr, nth++);
            Lib l2;
            if (mode == "blankB") for (size_t i = 0; i < ks.size() && i < vals.size(); ++i) if (ks[i] == "B") vals[i] = "hb";
        };
        { Lib l; r = V[I(a[0])]->ReadFile(f, sep, fn); }
        return mark() + (r ? " 1 " : " 0 ") + std::to_string(calls);
    }
    if (n == "errs") {
        std::vector<std::pair<std::size_t, std::string>> e;
        { Lib l; e = V[I(a[0])]->GetErrorsInLastReadedFile(); }
        std::string m = mark() + " [";
        for (size_t i = 0; i < e.size(); ++i) m += (i ? "," : "") + std::to_string(e[i].first) + ":" + enc(e[i].second);
        return m + "]";
    }
    if (n == "file") { // contents of a simulated file
        const char* d; size_t len; std::string m = mark();
        if (!fs_get(dec(a[0]).c_str(), &d, &len)) return m + " none";
        return m + " f" + enc(std::string(d, len));
    }
    if (n == "faults") { if (a[0] == "off") fs_clear_faults(); return mark() + " " + std::to_string(fs_faults_fired()) + " " + std::to_string(fs_open_handles()); }
    if (n == "put") { std::string d = dec(a[1]); fs_put(dec(a[0]).c_str(), d.data(), d.size()); return mark(); }
    if (n == "audit") { std::string r = audit(V[I(a[0])], nullptr, a.size() > 1 && a[1] == "1"); return mark() + " " + r; }
    if (n == "saudit") { std::string r = audit(nullptr, S[I(a[0])], a.size() > 1 && a[1] == "1"); return mark() + " " + r; }

    // ---- set only
    if (n == "news") { { Lib l; S[I(a[0])] = new VaultRecordSet; } return mark(); }
    if (n == "dels") { VaultRecordSet* x = S[I(a[0])]; { Lib l; delete x; } std::string m = mark(); S[I(a[0])] = nullptr; return m; }
    if (n == "scopyc") { { Lib l; S[I(a[0])] = new VaultRecordSet(*S[I(a[1])]); } return mark(); }
    if (n == "sasgn") { { Lib l; *S[I(a[0])] = *S[I(a[1])]; } return mark(); }
    if (n == "smovec") { { Lib l; S[I(a[0])] = new VaultRecordSet(std::move(*S[I(a[1])])); } return mark(); }
    if (n == "smova") { { Lib l; *S[I(a[0])] = std::move(*S[I(a[1])]); } return mark(); }
    if (n == "sadd") { VaultOperationResult r; { Lib l; r = S[I(a[0])]->AddRecord(*R[I(a[1])]); } return mark() + " " + vor(r); }
    if (n == "srm") { bool r; { Lib l; r = S[I(a[0])]->RemoveRecord(*R[I(a[1])]); } return mark() + (r ? " 1" : " 0"); }
    if (n == "schk") { bool r; { Lib l; r = S[I(a[0])]->CheckRecord(*R[I(a[1])]); } return mark() + (r ? " 1" : " 0"); }
    if (n == "sclear") { { Lib l; S[I(a[0])]->Clear(); } return mark(); }
    if (n == "sreset") { { Lib l; S[I(a[0])]->Reset(); } return mark(); }
    if (n == "svalid") { bool r; { Lib l; r = S[I(a[0])]->GetIsParentVaultValid(); } return mark() + (r ? " 1" : " 0"); }
    if (n == "sjoin" || n == "sexcl" || n == "sint") {
        VaultOperationResult r;
        { Lib l; VaultRecordSet* x = S[I(a[0])]; VaultRecordSet* y = S[I(a[1])]; r = n == "sjoin" ? x->Join(*y) : n == "sexcl" ? x->Exclude(*y) : x->Intersect(*y); }
        return mark() + " " + vor(r);
    }
    if (n == "sunion" || n == "sinter") {
        VaultOperationResult r;
        { Lib l; VaultRecordSet &x = *S[I(a[0])], &y = *S[I(a[1])], &z = *S[I(a[2])]; r = n == "sunion" ? mvlt::Union(x, y, z) : mvlt::Intersection(x, y, z); }
        return mark() + " " + vor(r);
    }
    if (n == "spid") { std::string x, y; { Lib l; x = S[I(a[0])]->GetParentVaultUniqueId(); y = S[I(a[1])]->GetParentVaultUniqueId(); } return mark() + (x == y ? " 1" : " 0") + (x == "null" ? "n" : "p"); }
    if (n == "seq") { bool e; { Lib l; e = *S[I(a[0])] == *S[I(a[1])]; } return mark() + (e ? " 1" : " 0"); }
    if (n == "sne") { bool e; { Lib l; e = *S[I(a[0])] != *S[I(a[1])]; } return mark() + (e ? " 1" : " 0"); }

    // ---- handles
    if (n == "rset") { auto r = typeOps(a[2])->rset(*R[I(a[0])], dec(a[1]), a[2]); return mark() + " " + vor(r); }
    if (n == "rsetm") { auto p = params(a, 1); VaultOperationResult r; { Lib l; r = R[I(a[0])]->SetData(p); } return mark() + " " + vor(r); }
    if (n == "rget") { std::string x; auto r = typeOps(a[2])->rget(*R[I(a[0])], dec(a[1]), x); return mark() + " " + vor(r) + " " + x; }
    if (n == "rstr") { std::string x = "unset"; VaultOperationResult r; std::string k = dec(a[1]); { Lib l; r = R[I(a[0])]->GetDataAsString(k, x); } return mark() + " " + vor(r) + " x" + enc(x); }
    if (n == "rvalid") { bool r; { Lib l; r = R[I(a[0])]->IsValid(); } return mark() + (r ? " 1" : " 0"); }
    if (n == "rcopy") { { Lib l; *R[I(a[0])] = *R[I(a[1])]; } return mark(); }
    if (n == "rcopyc") { VaultRecordRef* x; { Lib l; x = new VaultRecordRef(*R[I(a[1])]); } std::string m = mark(); { Lib l; delete R[I(a[0])]; } R[I(a[0])] = x; return m; }
    if (n == "rmove") { { Lib l; *R[I(a[0])] = std::move(*R[I(a[1])]); } return mark(); }
    if (n == "rmovec") { VaultRecordRef* x; { Lib l; x = new VaultRecordRef(std::move(*R[I(a[1])])); } std::string m = mark(); { Lib l; delete R[I(a[0])]; } R[I(a[0])] = x; return m; }
    if (n == "rreset") { { Lib l; R[I(a[0])]->Reset(); } return mark(); }
    if (n == "reqq") { bool e, ne; { Lib l; e = *R[I(a[0])] == *R[I(a[1])]; } std::string m = mark(); { Lib l; ne = *R[I(a[0])] != *R[I(a[1])]; } (void)ne; return m + (e ? " 1" : " 0"); }
    if (n == "rneq") { bool e; { Lib l; e = *R[I(a[0])] != *R[I(a[1])]; } return mark() + (e ? " 1" : " 0"); }
    if (n == "rkeys") { std::vector<std::string> k; { Lib l; k = R[I(a[0])]->GetKeys(); } return mark() + " " + list(k); }
    if (n == "rhas") { bool r; std::string k = dec(a[1]); { Lib l; r = R[I(a[0])]->IsKeyExist(k); } return mark() + (r ? " 1" : " 0"); }
    if (n == "rid") { std::string x; { Lib l; x = R[I(a[0])]->GetRecordUniqueId(); } return mark() + (x == "null" ? " null" : " some"); }
    if (n == "rtostr") { std::vector<std::pair<std::string, std::string>> x; { Lib l; x = R[I(a[0])]->ToStrings(); } return mark() + " " + rowText(x); }
    if (n == "rjson") {
        std::string x; bool f = a.size() > 1 && a[1] == "1";
        { Lib l; x = R[I(a[0])]->ToJson(f); }
        std::string m = mark(); Json j(x); auto row = j.obj(); j.ws();
        if (j.bad || j.p != x.size()) return m + " badjson:" + enc(cut(x));
        return m + " " + rowText(row);
    }
    if (n == "rprint") { con_reset(); { Lib l; R[I(a[0])]->PrintRecord(); } return mark() + " " + console(); }
    if (n == "btfmt") { traceOn = a[0] == "1"; { Lib l; mvlt::SetBackTraceFormat(a[0] == "1" ? mvlt::BackTraceFormat::Compact : mvlt::BackTraceFormat::None); } return mark(); }
    // ---- locks
    if (n == "newm") { LockSlot& k = M[I(a[0])]; k.rec = nullptr; k.plain = nullptr; k.writers = k.readers = 0; k.held.clear(); k.waiting.clear(); k.gen.clear(); { Lib l; if (a[1] == "p") k.plain = new mvlt::ReadWriteMutex; else k.rec = new mvlt::RecursiveReadWriteMutex; } return mark(); }
    if (n == "delm") { LockSlot& k = M[I(a[0])]; { Lib l; delete k.rec; delete k.plain; } k.rec = nullptr; k.plain = nullptr; return mark(); }
    if (n == "lock") { size_t p = 0; lockProg(I(a[0]), a[1], p); return mark(); }
    // ---- identifiers
    if (n == "uuid") { std::string x; { Lib l; x = mvlt::Uuid(); } return mark() + " u" + enc(x); }
    if (n == "box") { std::string x = boxRun(a[0], I(a[1]), strtoull(a[2].c_str(), 0, 10), o.id); return mark() + " b" + enc(x); }
    if (n == "tmpname") { std::string x, p = dec(a[0]); { Lib l; x = mvlt::GenTmpFileName(p); } return mark() + " u" + enc(x); }

    // ---- on a vault or, prefixed by s, on a set
    std::string b = n;
    if (n[0] == 's' && n != "size" && n != "sorted" && n != "sortby" && n != "save") { b = n.substr(1); s = S[I(a[0])]; }
    else v = V[I(a[0])];
    if (b == "keyval") { std::string x; auto r = typeOps(a[2])->keyval(v, s, dec(a[1]), x); return mark() + " " + vor(r) + " " + x; }
    if (b == "keys") { std::vector<std::string> k; { Lib l; k = v ? v->GetKeys() : s->GetKeys(); } return mark() + " " + list(k); }
    if (b == "ukeys") { std::vector<std::string> k; { Lib l; k = v ? v->GetUniqueKeys() : s->GetUniqueKeys(); } std::string m = mark(); std::sort(k.begin(), k.end()); return m + " " + list(k); }
    if (b == "haskey") { bool r; std::string k = dec(a[1]); { Lib l; r = v ? v->IsKeyExist(k) : s->IsKeyExist(k); } return mark() + (r ? " 1" : " 0"); }
    if (b == "keytype") { bool r; std::type_index t = typeid(char); std::string k = dec(a[1]); { Lib l; r = v ? v->GetKeyType(k, t) : s->GetKeyType(k, t); } return mark() + (r ? " 1 " : " 0 ") + tchar(t); }
    if (b == "erasek" || b == "rmk") { auto r = typeOps(a[2])->erasek(v, s, dec(a[1]), a[2]); return mark() + " " + vor(r); }
    if (b == "erasem" || b == "rmm") { size_t am = 0; bool ha = amountArg(a[3], am); auto r = typeOps(a[2])->erasem(v, s, dec(a[1]), a[2], ha, am); return mark() + " " + vor(r); }
    if (b == "get") { auto r = typeOps(a[2])->get(v, s, dec(a[1]), a[2], *R[I(a[3])]); std::string m = mark(); return m + " " + vor(r) + " " + peek(*R[I(a[3])]); }
    if (b == "getm") {
        size_t am = 0; bool ha = amountArg(a[3], am); std::vector<VaultRecordRef> got;
        bool pre = a.size() > 5 && a[5] != "-";
        if (pre) { Lib l; got.push_back(*R[I(a[5])]); }
        auto r = typeOps(a[2])->getm(v, s, dec(a[1]), a[2], got, ha, am);
        std::string m = mark() + " " + vor(r) + " " + ids(got);
        if (!got.empty()) setKeep(a[4], got[0]);
        { Lib l; got.clear(); }
        return m;
    }
    if (b == "size") { size_t r; { Lib l; r = v ? v->Size() : s->Size(); } return mark() + " " + std::to_string(r); }
    if (b == "sorted") {
        size_t am = 0; bool ha = amountArg(a[3], am); std::vector<VaultRecordRef> got; std::string k = dec(a[1]); bool rev = a[2] == "1";
        { Lib l; if (ha) got = v ? v->GetSortedRecords(k, rev, am) : s->GetSortedRecords(k, rev, am); else got = v ? v->GetSortedRecords(k, rev) : s->GetSortedRecords(k, rev); }
        std::string m = mark() + " " + ids(got);
        if (!got.empty()) setKeep(a[4], got[0]);
        { Lib l; got.clear(); }
        return m;
    }
    if (b == "sortby") {
        // v key rev amount readkey:type stopAfter keep
        size_t am = (size_t)-1; amountArg(a[3], am); std::string k = dec(a[1]); bool rev = a[2] == "1";
        Toks rk = split(a[4], ':'); int stop = I(a[5]); std::string log; int cnt = 0;
        auto fn = [&](const VaultRecordRef& ref) -> bool {
            Har h; rt_count("callbacks");
            if (!o.subs.empty()) runSubs(o, &ref, nth++);
            std::string x; auto q = typeOps(rk[1])->rget(ref, dec(rk[0]), x);
            size_t sz; { Lib l; sz = v ? v->Size() : s->Size(); }
            if (cnt) log += ",";
            log += peek(ref) + "=" + (q.IsOperationSuccess ? x : "!" + std::string(codeName(q.ResultCode))) + "=" + std::to_string(sz);
            if (cnt == 0) setKeep(a[6], ref);
            ++cnt;
            return stop <= 0 || cnt < stop;
        };
        { Lib l; if (v) v->SortBy(k, fn, rev, am); else s->SortBy(k, fn, rev, am); }
        return mark() + " [" + log + "]";
    }
    if (b == "req") {
        // c target kind key v1 v2 inc amount pred
        ReqArg q; q.kind = I(a[2]); q.key = dec(a[3]); q.v1 = a[4]; q.v2 = a[5];
        q.haveInc = a[6] != "-"; q.inc1 = a[6] == "-" || a[6][0] == '1'; q.inc2 = a[6] == "-" || a[6][1] == '1';
        q.amount = (size_t)-1; q.haveAmount = amountArg(a[7], q.amount); q.havePred = a[8] != "-";
        Log log; std::string ps = a[8];
        if (q.havePred) q.pred = [&](const VaultRecordRef& r) { return evalPred(ps, r, &log, &o, &nth); };
        auto r = typeOps(q.v1)->req(v, s, *S[I(a[1])], q);
        return mark() + " " + vor(r) + " [" + log.s + "]";
    }
    if (b == "reqx") {
        std::vector<ReqNodeBase*> all; size_t p = 0;
        int how = a.size() > 3 ? I(a[3]) : 0;
        ReqNodeBase* e = buildExpr(a[2], p, all, how);
        VaultOperationResult r;
        r = e->run(v, s, *S[I(a[1])], how % 7);
        std::string m = mark() + " " + vor(r);
        for (size_t i = all.size(); i-- > 0;) delete all[i];
        return m;
    }
    if (b == "tostr") { Dump d; { Lib l; d = v ? v->ToStrings() : s->ToStrings(); } return mark() + " " + dumpText(d); }
    if (b == "json") {
        std::string x; bool f = a[1][0] == '1', t = a[1][1] == '1', ar = a[1][2] == '1';
        { Lib l; x = v ? v->ToJson(f, 2, t, "Record", ar) : s->ToJson(f, 2, t, "Record", ar); }
        return mark() + " " + jsonRows(x, ar, t);
    }
    if (b == "print") {
        // c printId amount primary rev keys
        size_t am = (size_t)-1; amountArg(a[2], am); bool pid = a[1] == "1", rev = a[4] == "1"; std::string pk = a[3] == "-" ? "" : dec(a[3]);
        std::list<std::string> ks; if (a[5] != "-") for (auto& k : split(a[5], ',')) ks.push_back(dec(k));
        con_reset();
        { Lib l; if (v) v->Print(pid, am, pk, rev, ks); else s->Print(pid, am, pk, rev, ks); }
        return mark() + " " + console();
    }
    if (b == "ptable") {
        // c printId amount sortkey rev keys: the records in that order, printed from a container
        size_t am = (size_t)-1; amountArg(a[2], am); bool pid = a[1] == "1", rev = a[4] == "1"; std::string k = dec(a[3]);
        std::vector<std::string> ks; if (a[5] != "-") for (auto& x : split(a[5], ',')) ks.push_back(dec(x));
        std::vector<VaultRecordRef> got;
        { Lib l; got = v ? v->GetSortedRecords(k, rev) : s->GetSortedRecords(k, rev); }
        con_reset();
        { Lib l; mvlt::PrintAsTable(got, pid, am, ks); }
        std::string m = mark() + " " + console();
        { Lib l; got.clear(); }
        return m;
    }
    if (b == "save") {
        std::string f = dec(a[1]), sep = dec(a[2]); bool hdr = a[3] == "1"; std::vector<std::string> ks;
        if (a[4] != "-") for (auto& k : split(a[4], ',')) ks.push_back(dec(k));
        bool r; { Lib l; r = v ? v->SaveToFile(f, ks, sep, hdr) : s->SaveToFile(f, ks, sep, hdr); }
        return mark() + (r ? " 1" : " 0");
    }
    return mark() + " unknown-op";
}
static void runSubs(const Op& o, const VaultRecordRef* ref, int nth)
{
    // sub-operations run once, in the first callback invocation given by their
    // plan order: the i-th callback runs the i-th sub
    (void)ref;
    if (nth < (int)o.subs.size()) runOp(byId[o.subs[nth]]);
}

// ------------------------------------------------------------------ plan run
static void threadMain(void* p)
{
    int t = (int)(intptr_t)p;
    for (int idx : thrOps[t]) runOp(idx);
}
static RtConfig cfg;
static std::string cfgTrace;
static int leakTwice;
static std::vector<Toks> envLines;
static void applyEnv()
{
    fs_reset();
    for (auto& t : envLines) {
        if (t[0] == "fault") fs_fault(t[1].c_str(), atoi(t[2].c_str()), t[3].c_str(), t.size() > 4 ? atol(t[4].c_str()) : 0);
        else if (t[0] == "rnd") rnd_seed(strtoull(t[1].c_str(), 0, 10), atoi(t[2].c_str()));
        else if (t[0] == "btlimit") bt_limit(atoi(t[1].c_str()));
        else if (t[0] == "put") { std::string d = t.size() > 2 ? dec(t[2]) : ""; fs_put(dec(t[1]).c_str(), d.data(), d.size()); }
        else fs_mkdir(dec(t[1]).c_str());
    }
}

static void parsePlan(const std::string& text)
{
    ops.clear(); byId.clear(); nThreads = 0; tdOrder.clear(); domain.clear(); envLines.clear(); leakTwice = 0;
    for (auto& t : thrOps) t.clear();
    memset(&cfg, 0, sizeof cfg);
    cfg.strategy = RT_RANDOM; cfg.seed = 1; cfg.switch_permille = 300; cfg.max_points = 60000; cfg.fair_points = 60000; cfg.max_mem = 60000000; cfg.races = 1;
    cfg.pct_len = 400; cfg.mem_period = 200; cfg.pct_depth = 3;
    for (auto& line : split(text, '\n')) {
        Toks t; for (auto& x : split(line, ' ')) if (!x.empty()) t.push_back(x);
        if (t.empty() || t[0][0] == '#') continue;
        if (t[0] == "cfg") {
            for (size_t i = 1; i < t.size(); ++i) {
                size_t e = t[i].find('='); std::string k = t[i].substr(0, e), v = t[i].substr(e + 1);
                long long x = strtoll(v.c_str(), 0, 10);
                if (k == "strategy") cfg.strategy = (int)x; else if (k == "seed") cfg.seed = strtoull(v.c_str(), 0, 10);
                else if (k == "switch") cfg.switch_permille = (int)x; else if (k == "mem") cfg.mem = (int)x; else if (k == "memper") cfg.mem_period = (int)x;
                else if (k == "pctd") cfg.pct_depth = (int)x; else if (k == "pctn") cfg.pct_len = x; else if (k == "spur") cfg.spurious_permille = (int)x;
                else if (k == "reuse") cfg.reuse = (int)x; else if (k == "races") cfg.races = (int)x; else if (k == "leak") leakTwice = (int)x;
                else if (k == "maxpoints") { cfg.max_points = x; cfg.fair_points = x; }
            }
        }
        else if (t[0] == "trace") { cfgTrace = line.substr(6); cfg.strategy = RT_REPLAY; }
        else if (t[0] == "fault" || t[0] == "rnd" || t[0] == "put" || t[0] == "mkdir" || t[0] == "btlimit") envLines.push_back(t);
        else if (t[0] == "dom") domain.emplace_back(t[1][0], t[1]);
        else if (t[0] == "td") tdOrder = t.size() > 1 ? t[1] : "";
        else if (t[0] == "op" || t[0] == "sub") {
            Op o; o.id = atoi(t[1].c_str()); o.thr = atoi(t[2].c_str()); o.name = t[3]; o.a.assign(t.begin() + 4, t.end());
            byId[o.id] = (int)ops.size();
            ops.push_back(o);
            if (t[0] == "sub") ops[byId[o.thr]].subs.push_back(o.id);
            else { int th = o.thr == 99 ? 15 : o.thr; thrOps[th].push_back((int)ops.size() - 1); if (th < 15 && th > nThreads) nThreads = th; }
        }
    }
    cfg.trace = cfgTrace.c_str();
}
static void teardown()
{
    // destroy whatever is left in the order the plan asks for, e.g. "vsr"
    std::string ord = tdOrder.empty() ? "srv" : tdOrder;
    for (char c : ord) {
        if (c == 'v') for (int i = 0; i < NV; ++i) if (V[i]) { rt_op_point(); Vault* x = V[i]; V[i] = nullptr; Lib l; delete x; }
        if (c == 's') for (int i = 0; i < NS; ++i) if (S[i]) { rt_op_point(); VaultRecordSet* x = S[i]; S[i] = nullptr; Lib l; delete x; }
        if (c == 'r') for (int i = 0; i < NR; ++i) if (R[i]) { VaultRecordRef* x = R[i]; R[i] = nullptr; Lib l; delete x; }
    }
    for (auto& m : M) { Lib l; delete m.rec; delete m.plain; m.rec = nullptr; m.plain = nullptr; }
}
static void oneIteration(bool par)
{
    applyEnv();
    for (int i = 0; i < NR; ++i) { Lib l; R[i] = new VaultRecordRef; }
    for (int i : thrOps[0]) runOp(i);
    if (nThreads) {
        std::vector<int> tids;
        say("P\n");
        if (par) { for (int t = 1; t <= nThreads; ++t) tids.push_back(rt_spawn(threadMain, (void*)(intptr_t)t)); for (int t : tids) rt_join(t); }
        else for (int t = 1; t <= nThreads; ++t) for (int i : thrOps[t]) runOp(i);
        say("Q\n");
    }
    for (int i : thrOps[15]) runOp(i);
    teardown();
}
// executed in the forked child
void interpRun(const char* plan)
{
    parsePlan(plan);
    rt_begin(&cfg);
    mvlt::SetBackTraceFormat(mvlt::BackTraceFormat::None);
    if (leakTwice) {
        // first pass fills one-time caches; what the second pass leaves behind is a leak
        rt_iter(1);
        oneIteration(true);
        say("Z\n");
        rt_iter(2);
        oneIteration(true);
        rt_iter(3);
        char d[600];
        size_t n = rt_leaks(2, d, sizeof d);
        if (n) { std::string m = std::to_string(n) + " bytes still allocated: " + d; rt_violation("leak", m.c_str()); }
    } else {
        rt_iter(1);
        oneIteration(true);
    }
    if (fs_open_handles()) rt_violation("leak", "file handle left open");
    rt_finish();
}

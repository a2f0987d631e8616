// Self-checking histories on the library's stand-alone parts: typed values
// (DataSaver), containers of them, the csv formatter, parser and file reader.
// One operation is one history; its objects live and die inside it.
#include "ops.h"
#include "DataSaver.h"
#include "DataContainer.h"
#include "CsvParser/CsvParser.h"
#include "CsvParser/StreamFileReader.h"
#include <map>
namespace {
struct Rnd { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } int n(int k) { return (int)(next() % (uint64_t)k); } };
struct Own { // a value that owns memory: a lost, doubled or bitwise copy shows up in the simulated heap
    int* p; explicit Own(int v = 0) : p(new int(v)) {} Own(const Own& o) : p(new int(*o.p)) {} Own& operator=(const Own& o) { if (this != &o) { int* q = new int(*o.p); delete p; p = q; } return *this; } ~Own() { delete p; } };
struct Cell { int kind = 0; long num = 0; std::string text; int del = 0; }; // 0 empty 1 int 2 string 3 double 4 Own 5 int*
thread_local int t_del[2]; thread_local const void* t_delPtr;
void del0(const void* p) { ++t_del[0]; t_delPtr = p; }
void del1(const void* p) { ++t_del[1]; delete *(int* const*)p; }
std::type_index typeOf(int k) { switch (k) { case 1: return typeid(int); case 2: return typeid(std::string); case 3: return typeid(double); case 4: return typeid(Own); case 5: return typeid(int*); } return typeid(void); }
std::string cellText(const Cell& c) { switch (c.kind) { case 1: return std::to_string(c.num); case 2: return c.text; case 3: return std::to_string((double)c.num / 2); } return ""; }
// whether the saver holds exactly c, seen through every way of reading it
const char* holds(const mvlt::DataSaver& d, const Cell& c)
{
    if (d.GetDataType() != typeOf(c.kind)) return "type";
    { int x = 12345; if (c.kind == 1) { if (!d.GetData(x) || x != c.num) return "int"; } }
    { std::string x = "?"; if (c.kind == 2) { if (!d.GetData(x) || x != c.text) return "string"; } }
    { double x = 12345; if (c.kind == 3) { if (!d.GetData(x) || x != (double)c.num / 2) return "double"; } }
    { Own x(12345); if (c.kind == 4) { if (!d.GetData(x) || *x.p != c.num) return "object"; } }
    if (c.kind && c.kind <= 3 && d.Str() != cellText(c)) return "text";
    if ((!c.kind || c.kind == 4) && d.Str() != "") return "text";
    return nullptr;
}
const char* step(Rnd& r, mvlt::DataSaver& d, Cell& c, const mvlt::DataSaver& o, const Cell& oc)
{
    switch (r.n(9)) {
    case 0: { int v = r.n(1000); c = Cell(); c.kind = 1; c.num = v; if (r.n(2)) d.SetData(v); else { d.SetData(v, del0); c.del = 1; } break; }
    case 1: { std::string v(r.n(3) * 20, 'a' + (char)r.n(3)); c = Cell(); c.kind = 2; c.text = v; if (r.n(2)) d.SetData(v); else { d.SetData(v, del0); c.del = 1; } break; }
    case 2: { double v = r.n(100) / 2.0; c = Cell(); c.kind = 3; c.num = (long)(v * 2); d.SetData(v); break; }
    case 3: { Own v(r.n(1000)); c = Cell(); c.kind = 4; c.num = *v.p; d.SetData(v); break; }
    case 4: case 5: d = o; c = oc; break;
    case 6: { // reset runs the deleter exactly once, on the stored value
        int before = t_del[0]; t_delPtr = nullptr; d.ResetData();
        if (t_del[0] - before != (c.kind && c.del == 1)) return "deleter runs"; if (c.del == 1 && !t_delPtr) return "deleter argument"; c = Cell(); break; }
    case 7: if (!c.kind) { if (d.SetDataFromString("1")) return "set from text on nothing"; } else if (c.kind == 1) { if (!d.SetDataFromString("77")) return "set from text"; c.num = 77; } else if (c.kind == 2) { if (!d.SetDataFromString("xyz")) return "set from text"; c.text = "xyz"; } break;
    default: { std::string s; int i; if (c.kind && c.kind != 1 && d.GetData(i)) return "wrong type accepted"; if (c.kind != 2 && d.GetData(s)) return "wrong type accepted"; }
    }
    return nullptr;
}
std::string savers(Rnd& r, int n)
{
    mvlt::DataSaver d[4]; Cell c[4];
    for (int i = 0; i < n; ++i) {
        int x = r.n(4), y = r.n(4); const char* e = nullptr;
        if (r.n(8) == 0) { d[x].Swap(d[y]); std::swap(c[x], c[y]); }
        else if (r.n(10) == 0) { mvlt::DataSaver t(d[x]); e = holds(t, c[x]); if (!e) { d[y] = t; c[y] = c[x]; } }
        else e = step(r, d[x], c[x], d[y], c[y]);
        for (int k = 0; k < 4 && !e; ++k) e = holds(d[k], c[k]);
        if (e) return std::string("saver ") + e + " at step " + std::to_string(i);
    }
    return "";
}
template <class M, bool MULTI> std::string containers(Rnd& r, int n)
{
    M m; std::multimap<std::string, Cell> ref; static const char* K[] = { "a", "b", "", "long key that does not fit in place" };
    for (int i = 0; i < n; ++i) {
        std::string k = K[r.n(4)], why; Cell c; mvlt::DataSaver d; step(r, d, c, mvlt::DataSaver(), Cell()); bool have = ref.count(k); auto at = ref.find(k);
        switch (r.n(9)) {
        case 0: case 1: m.AddDataFromDataSaver(k, d); if (MULTI || !have) ref.emplace(k, c); break;
        case 2: if (!MULTI || !have) { m.SetDataFromDataSaver(k, d); if (have) at->second = c; else ref.emplace(k, c); } break;
        case 3: if (!MULTI || !have) { int v = r.n(99); Cell x; x.kind = 1; x.num = v; if (r.n(2)) m.SetData(k, v); else { m.SetData(k, v, del0); x.del = 1; } if (have) at->second = x; else ref.emplace(k, x); } break;
        case 4: { int v = r.n(99); Cell x; x.kind = 1; x.num = v; if (r.n(2)) m.AddData(k, v); else { m.AddData(k, v, del0); x.del = 1; } if (MULTI || !have) ref.emplace(k, x); break; }
        case 5: if (ref.count(k) < 2) { int before = t_del[0], want = have && at->second.kind && at->second.del == 1; m.EraseData(k); if (t_del[0] - before != want) why = "deleter runs"; if (have) ref.erase(at); } break;
        case 6: if (r.n(6) == 0) { m.Clear(); ref.clear(); } break;
        case 7: if (ref.count(k) < 2) { bool ok = m.SetDataFromString("-none-", "1"); if (ok) why = "set from text on a missing key"; if (have && at->second.kind == 1) { if (!m.SetDataFromString(k, "55")) why = "set from text"; at->second.num = 55; } } break;
        default: if (!MULTI) { M t(m); t.Clear(); if (t.Size()) why = "clear"; M u; u = m; if (u.Size() != ref.size()) why = "copy"; } break;
        }
        if (why.empty() && m.Size() != ref.size()) why = "size";
        for (auto key : K) {
            if (m.IsData(key) != (ref.count(key) > 0)) why = "membership";
            if (ref.count(key) != 1) { mvlt::DataSaver x; std::string s = "?"; if (!ref.count(key) && (m.GetDataSaver(key, x) || m.GetDataAsString(key, s) || s != "?")) why = "missing key"; continue; }
            mvlt::DataSaver x; if (!m.GetDataSaver(key, x)) { why = "get"; continue; }
            auto& c2 = ref.find(key)->second; if (const char* e = holds(x, c2)) why = e;
            if (c2.kind == 1) { int v = -1; if (!m.GetData(key, v) || v != c2.num) why = "get int"; }
            if (c2.kind && c2.kind <= 3) { std::string s = "?"; if (!m.GetDataAsString(key, s) || s != cellText(c2)) why = "get text"; }
        }
        size_t seen = 0; for (auto it = m.begin(); it != m.end(); ++it) { ++seen; auto er = ref.equal_range(it->first); bool ok = false; for (auto q = er.first; q != er.second; ++q) if (!holds(it->second, q->second)) ok = true; if (!ok) why = "iteration"; }
        if (seen != ref.size()) why = "iteration length";
        if (!why.empty()) return "container " + why + " at step " + std::to_string(i);
    }
    return "";
}
std::string field(Rnd& r) { static const char* P[] = { "a", "b", ",", "\"", "\n", "\r", ";", " ", "|", "longer piece of text" }; std::string s; for (int k = r.n(6); k > 0; --k) s += P[r.n(10)]; return s; }
// rows written with the library's formatter read back the same through the parser and, byte for byte, through the reader
std::string csv(Rnd& r, int n, int id)
{
    char sep = ",;|\t"[r.n(4)]; std::string text; std::vector<std::vector<std::string>> rows; std::string eol = r.n(2) ? "\n" : "\r\n";
    for (int i = 0; i < n; ++i) {
        std::vector<std::string> row; for (int k = 1 + r.n(4); k > 0; --k) row.push_back(field(r));
        if (row.size() == 1 && row[0].empty()) row[0] = "x"; // a blank line is no row
        for (size_t k = 0; k < row.size(); ++k) { std::string f; f = mvlt::FormatStringToCsv(row[k], std::string(1, sep)); text += (k ? std::string(1, sep) : "") + f; }
        rows.push_back(row); if (i + 1 < n || r.n(2)) text += eol;
    }
    std::string name = "/sim/box" + std::to_string(id); { Har h; fs_put(name.c_str(), text.data(), text.size()); }
    {
        mvlt::CsvParser p; if (!p.OpenFile(name)) return "parser open"; std::vector<std::string> got;
        for (size_t i = 0; i < rows.size(); ++i) { if (!p.GetNextVector(got, sep)) return "parser ends at row " + std::to_string(i); if (got != rows[i]) return "parser row " + std::to_string(i); }
        if (p.GetNextVector(got, sep)) return "parser reads past the end"; if (p.GetIsReadFail()) return "parser failure flag";
    }
    if (!text.empty()) {
        mvlt::StreamFileReader f(name); if (!f.IsOpen() || f.GetFileSize() != text.size()) return "reader open";
        for (size_t i = 0; i < text.size(); ++i) { if (!f.IsEnd() || f.GetCurrentPos() != i || f.GetChar() != text[i] || (i + 1 < text.size() && f.GetNextChar() != text[i + 1])) return "reader at byte " + std::to_string(i); if (!f.Move()) return "reader stops at byte " + std::to_string(i); }
        if (f.IsEnd()) return "reader end"; if (f.Move()) return "reader moves past the end"; f.Close();
    }
    return "";
}
}
std::string boxRun(const std::string& kind, int n, uint64_t seed, int id)
{
    Rnd r{ seed * 2654435761u + 99 }; std::string e; Lib l;
    if (kind == "saver") e = savers(r, n);
    else if (kind == "map") e = containers<mvlt::DataMap, false>(r, n);
    else if (kind == "hmap") e = containers<mvlt::DataHashMap, false>(r, n);
    else if (kind == "mmap") e = containers<mvlt::DataMultiMap, true>(r, n);
    else if (kind == "hmmap") e = containers<mvlt::DataMultiHashMap, true>(r, n);
    else e = csv(r, n, id);
    return e.empty() ? "ok" : e;
}

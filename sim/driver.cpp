// Seeded search over simulated executions: generates plans, runs them in
// single-use simulator processes, judges the recorded histories, reproduces,
// minimises and reports violations, and writes the evidence file.
#include "gen.h"
#include <atomic>
#include <mutex>
#include <thread>
#include <regex>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string g_dir; // build directory
static double g_limit = 20;

// ---------------------------------------------------------------- simulator process
struct Sim {
    pid_t pid = -1; int in = -1, out = -1; std::string exe; int cpu;
    Sim(const std::string& e, int c) : exe(e), cpu(c) {}
    ~Sim() { stop(); }
    void stop() { if (in >= 0) close(in); if (out >= 0) close(out); in = out = -1; if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } pid = -1; }
    bool start()
    {
        static std::mutex mx; std::lock_guard<std::mutex> g(mx);
        int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return false;
        pid = fork();
        if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); std::string l = std::to_string(g_limit), c = std::to_string(cpu); if (cpu >= 0) execl(exe.c_str(), exe.c_str(), l.c_str(), c.c_str(), (char*)0); else execl(exe.c_str(), exe.c_str(), l.c_str(), (char*)0); _exit(9); }
        close(a[0]); close(b[1]); in = a[1]; out = b[0]; return pid > 0;
    }
    bool rd(char* p, size_t n) { while (n) { ssize_t r = read(out, p, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } p += r; n -= (size_t)r; } return true; }
    bool wr(const char* p, size_t n) { while (n) { ssize_t r = write(in, p, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } p += r; n -= (size_t)r; } return true; }
    bool run(const std::string& plan, std::string& status, std::string& text)
    {
        for (int attempt = 0; attempt < 3; ++attempt) {
            if (pid < 0 && !start()) continue;
            std::string h = "RUN " + std::to_string(plan.size()) + "\n"; std::string line; char c; bool ok = wr(h.data(), h.size()) && wr(plan.data(), plan.size());
            while (ok) { if (!rd(&c, 1)) { ok = false; break; } if (c == '\n') break; line += c; }
            if (ok) { Toks t = split(line, ' '); status = t[0]; text.resize((size_t)atoll(t[1].c_str())); if (text.empty() || rd(&text[0], text.size())) return true; }
            stop();
        }
        return false;
    }
};
static std::string exeOf(const Plan& p) { return g_dir + (p.has("debug") ? "/simexec_debug" : p.has("small") ? "/simexec_small" : "/simexec"); }
struct Pool { Sim big, small, debug; Pool(int cpu) : big(g_dir + "/simexec", cpu), small(g_dir + "/simexec_small", cpu), debug(g_dir + "/simexec_debug", cpu) {} Sim& of(const Plan& p) { return p.has("debug") ? debug : p.has("small") ? small : big; } };

// ---------------------------------------------------------------- judging one execution
struct Viol { std::string cls, msg, stk; };
struct Verdict {
    std::vector<Viol> v; bool undecided = false, broken = false; std::string hash, ihash, trace, text; std::map<std::string, double> st; LinResult lin; std::vector<std::string> uuids; int ops = 0;
};
static std::vector<std::string> auditRows(const std::string& tok) { std::vector<std::string> r; size_t p = tok.find("dump=["); if (p == std::string::npos) return r; std::string s = tok.substr(p + 6); if (!s.empty() && s.back() == ']') s.pop_back(); if (!s.empty()) r = split(s, ';'); return r; }
static void judge(const Plan& p, const std::string& status, const std::string& text, Verdict& r)
{
    r.text = text;
    std::map<int, Rec> recs; std::vector<int> order; bool fatal = false, end = false; int iter = 0;
    std::map<int, const POp*> by; for (auto& o : p.ops) by[o.id] = &o;
    size_t pos = 0;
    while (pos < text.size()) {
        size_t e = text.find('\n', pos); if (e == std::string::npos) e = text.size();
        std::string line = text.substr(pos, e - pos); pos = e + 1;
        if (line.size() < 1) continue;
        char c = line[0];
        if (c == 'V') {
            Toks parts; size_t b1 = line.find(" | "), b2 = line.rfind(" | stk");
            Viol v; v.cls = split(line, ' ')[1]; if (b1 != std::string::npos && b2 != std::string::npos && b2 >= b1) { v.msg = b2 > b1 ? line.substr(b1 + 3, b2 - b1 - 3) : ""; v.stk = line.substr(b2 + 6); } else v.msg = line;
            if (v.cls == "harness-limit" || v.cls == "harness-crash") r.broken = true; else r.v.push_back(v);
            if (v.cls != "race" && v.cls != "leak" && v.cls != "exclusion" && v.cls != "overtaken") fatal = true;
        }
        else if (c == 'H') { Toks t = split(line, ' '); r.hash = t[1]; r.ihash = t[2]; }
        else if (c == 'S') for (auto& t : split(line.substr(2), ' ')) { size_t q = t.find('='); if (q != std::string::npos) r.st[t.substr(0, q)] += atof(t.c_str() + q + 1); }
        else if (c == 'T') r.trace = line.size() > 2 ? line.substr(2) : "";
        else if (c == 'Z') ++iter;
        else if (line == "END") end = true;
        else if (iter == 0 && c == 'I') { Toks t = split(line, ' '); int id = AI(t[1]); Rec& q = recs[id]; q.id = id; q.inv = strtoull(t[2].c_str(), 0, 10); order.push_back(id); }
        else if (iter == 0 && c == 'R') { Toks t = split(line, ' '); int id = AI(t[1]); Rec& q = recs[id]; q.done = true; q.ret = strtoull(t[2].c_str(), 0, 10); q.r.assign(t.begin() + 3, t.end()); }
    }
    if (status != "exit0" || !end) {
        if (status == "exit5") r.broken = true;
        if (r.v.empty() && !r.broken) { Viol v; v.cls = status == "hang" ? "hang" : "abort"; v.msg = "the simulated process ended with " + status; if (status == "hang") { r.broken = true; } else r.v.push_back(v); }
        fatal = true;
    }
    if (fatal || r.broken || !r.v.empty()) return;
    std::vector<Rec> h; bool par = false; for (auto& o : p.ops) if (o.thr > 0 && o.thr < 99) par = true; (void)par;
    for (int id : order) {
        Rec& q = recs[id]; auto it = by.find(id); if (it == by.end() || !q.done) { r.broken = true; return; }
        q.name = it->second->name; q.a = it->second->a; q.thr = it->second->thr; q.seq = q.thr == 0 || q.thr == 99; h.push_back(q);
    }
    r.ops = (int)h.size();
    // identifiers
    int rmode = 0; for (auto& e : p.env) if (e.compare(0, 4, "rnd ") == 0) rmode = AI(split(e, ' ')[2]);
    std::set<std::string> seen;
    static const std::regex form("[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}");
    for (auto& q : h) if (q.name == "uuid" || q.name == "tmpname") {
        std::string x = dec(q.r[0].substr(1)), u = x;
        if (q.name == "tmpname") { std::string pre = "/tmp/" + dec(q.a[0]); if (x.compare(0, pre.size(), pre)) { r.v.push_back({ "uuid", "temporary file name '" + x + "' does not start with the temporary directory and prefix", "" }); return; } u = x.substr(pre.size()); }
        if (!std::regex_match(u, form)) { r.v.push_back({ "uuid", "'" + u + "' is not a version 4 identifier", "" }); return; }
        if ((rmode == 0 || rmode == 2) && !seen.insert(u).second) { r.v.push_back({ "uuid", "identifier " + u + " generated twice", "" }); return; }
    }
    if (p.has("nolin")) {
        std::vector<std::string> first; bool have = false;
        for (auto& q : h) if ((q.name == "audit") && q.a[0] == "0") {
            auto rows = auditRows(q.r.size() > 2 ? q.r[2] : ""); 
            if (q.r.size() < 4 || q.r[3] != "coherent=ok") { r.v.push_back({ "audit", "after loading arbitrary bytes: " + (q.r.size() > 3 ? dec(q.r[3]) : "?"), "" }); return; }
            if (have) { std::multiset<std::string> m(rows.begin(), rows.end()); for (auto& x : first) if (!m.count(x)) { r.v.push_back({ "audit", "record " + x + " changed or disappeared by loading a file", "" }); return; } }
            if (!have) { first = rows; have = true; }
        }
        return;
    }
    Model::faulted = false; for (auto& e : p.env) if (e.compare(0, 6, "fault ") == 0) Model::faulted = true;
    // handled by the operating system interface below the library: must be invisible
    bool benign = true; for (auto& e : p.env) if (e.compare(0, 6, "fault ") == 0 && e.find(" short ") == std::string::npos && e.find("EINTR") == std::string::npos) benign = false;
    if (benign) Model::faulted = false;
    State s0; for (auto& e : p.env) { Toks t = split(e, ' '); if (t[0] == "put") { FileM f; f.kind = 1; f.raw = t.size() > 2 ? dec(t[2]) : ""; s0.f[dec(t[1])] = f; } }
    r.lin = linearize(s0, h);
    if (!r.lin.ok) r.v.push_back({ "history", r.lin.why, "" });
    if (r.lin.undecided) r.undecided = true;
}
static bool exec1(Pool& pool, const Plan& p, Verdict& v)
{
    std::string st, tx; if (!pool.of(p).run(p.text(), st, tx)) { v.broken = true; return false; }
    judge(p, st, tx, v); return true;
}
// ---------------------------------------------------------------- symbols
static std::string shell(const std::string& c) { std::string o; FILE* f = popen(c.c_str(), "r"); if (!f) return o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); pclose(f); return o; }
static std::string symbolize(const Plan& p, const std::string& text, bool locs = true)
{
    // resolve the hexadecimal code addresses of a violation line
    static const std::regex hex("\\b[0-9a-f]{6,8}\\b"); std::string exe = exeOf(p), addrs; std::vector<std::string> l;
    std::sregex_iterator it(text.begin(), text.end(), hex), e;
    for (; it != e; ++it) { l.push_back(it->str()); addrs += " 0x" + it->str(); }
    if (l.empty()) return "";
    std::string res = shell("addr2line -Cfs -e " + exe + addrs + " 2>/dev/null"); Toks k = split(res, '\n'); std::string o;
    for (size_t i = 0; i < l.size() && 2 * i + 1 < k.size(); ++i) { std::string f = k[2 * i]; size_t b = f.find('('); if (b != std::string::npos) f = f.substr(0, b); if (f == "??") continue; if (f.size() > 90) f = f.substr(0, 90); o += " " + f + (locs ? "@" + k[2 * i + 1].substr(0, k[2 * i + 1].find(' ')) : ""); }
    return o;
}
// ---------------------------------------------------------------- minimising
static std::string vclass(const Verdict& v) { if (v.v.empty()) return ""; return v.v[0].cls; }
static std::string tokOf(const Verdict& v) // coarse identity kept while shrinking
{
    if (v.v.empty()) return "";
    std::string c = v.v[0].cls;
    return c;
}
struct Minimiser {
    Pool& pool; std::string want; double until; int runs = 0; Plan best; Verdict bv;
    Minimiser(Pool& p, double u) : pool(p), until(u) {}
    bool tryPlan(Plan p, int seeds)
    {
        if (!validPlan(p)) return false;
        bool par = false; for (auto& o : p.ops) if (o.thr > 0 && o.thr < 99) par = true;
        if (!par) seeds = 1;
        long long s0 = p.cfg["seed"];
        for (int i = 0; i < seeds && now() < until; ++i) {
            if (i) { p.cfg["seed"] = s0 + i * 7919; }
            Verdict v; ++runs; if (!exec1(pool, p, v) || v.broken) continue;
            if (!v.v.empty() && tokOf(v) == want) { best = p; bv = v; return true; }
        }
        return false;
    }
    void go(const Plan& p, const Verdict& v)
    {
        best = p; bv = v; want = tokOf(v);
        { Plan q = best; bool any = false; for (auto& o : q.ops) if (o.thr == 99) any = true; (void)any; }
        // whole clients first
        for (int t = 1; t <= 8; ++t) { Plan q = best; size_t n = q.ops.size(); q.ops.erase(std::remove_if(q.ops.begin(), q.ops.end(), [&](const POp& o) { return o.thr == t; }), q.ops.end()); if (q.ops.size() != n) tryPlan(q, 12); }
        bool changed = true;
        while (changed && now() < until) {
            changed = false;
            for (size_t chunk = std::max<size_t>(1, best.ops.size() / 4); chunk >= 1; chunk = chunk == 1 ? 0 : chunk / 2) {
                for (size_t i = best.ops.size(); i > 0 && now() < until;) {
                    size_t lo = i > chunk ? i - chunk : 0; Plan q = best; std::set<int> gone; std::vector<POp> keep;
                    for (size_t k = 0; k < q.ops.size(); ++k) if (k >= lo && k < i) gone.insert(q.ops[k].id);
                    for (auto& o : q.ops) if (!gone.count(o.id) && !(o.parent >= 0 && gone.count(o.parent))) keep.push_back(o);
                    q.ops = keep; size_t before = best.ops.size();
                    if (tryPlan(q, 10)) { changed = true; i = std::min(lo, best.ops.size()); (void)before; } else i = lo;
                }
                if (chunk == 0) break;
            }
            for (size_t i = 0; i < best.env.size();) { Plan q = best; q.env.erase(q.env.begin() + (long)i); if (tryPlan(q, 6)) changed = true; else ++i; }
            for (const char* k : { "leak", "spur", "mem", "reuse" }) if (best.cfg.count(k) && best.cfg[k]) { Plan q = best; q.cfg.erase(k); if (tryPlan(q, 20)) changed = true; }
            // fewer fields in record creations
            for (size_t i = 0; i < best.ops.size() && now() < until; ++i) if (best.ops[i].name == "create" || best.ops[i].name == "rsetm") for (size_t a = best.ops[i].name == "create" ? 2 : 1; a < best.ops[i].a.size();) {
                if (best.ops[i].a[a].compare(0, 3, "Id=") == 0) { ++a; continue; }
                Plan q = best; q.ops[i].a.erase(q.ops[i].a.begin() + (long)a); if (tryPlan(q, 4)) changed = true; else ++a;
            }
        }
        std::set<std::string> d = best.dom; for (auto& x : d) { Plan q = best; q.dom.erase(x); tryPlan(q, 1); if (now() > until) break; }
        // simplest schedule
        bool par = false; for (auto& o : best.ops) if (o.thr > 0 && o.thr < 99) par = true;
        if (par) {
            { Plan q = best; q.cfg["strategy"] = 0; q.cfg.erase("switch"); tryPlan(q, 1); }
            { Plan q = best; q.cfg["strategy"] = 3; if (best.cfg["strategy"] != 0) tryPlan(q, 20); }
            // pin the schedule, then take switches out of it
            Plan q = best; q.trace = bv.trace; Verdict v; ++runs;
            if (exec1(pool, q, v) && !v.broken && !v.v.empty() && tokOf(v) == want) {
                best = q; bv = v;
                Toks seg = split(best.trace, ' ');
                for (size_t chunk = std::max<size_t>(1, seg.size() / 3); chunk >= 1 && now() < until; chunk = chunk == 1 ? 0 : chunk / 2) {
                    for (size_t i = 0; i < seg.size() && now() < until;) { Toks s2 = seg; s2.erase(s2.begin() + (long)i, s2.begin() + (long)std::min(seg.size(), i + chunk)); Plan w = best; std::string t; for (auto& x : s2) if (!x.empty()) t += (t.empty() ? "" : " ") + x; w.trace = t.empty() ? "1:1" : t; Verdict x; ++runs; if (exec1(pool, w, x) && !x.broken && !x.v.empty() && tokOf(x) == want) { best = w; bv = x; seg = s2; } else i += chunk; }
                    if (chunk == 0) break;
                }
                // the exact schedule of the shrunken run
                Plan w = best; w.trace = bv.trace; Verdict x; ++runs; if (exec1(pool, w, x) && !x.broken && !x.v.empty() && tokOf(x) == want && x.hash == bv.hash) { best = w; bv = x; }
            }
        }
    }
};
// ---------------------------------------------------------------- known findings
struct Known { std::string prop, match, text; };
static std::vector<Known> known;
static void loadKnown(const std::string& f)
{
    std::ifstream in(f); std::string l;
    while (std::getline(in, l)) { std::smatch m; if (std::regex_match(l, m, std::regex("KNOWN-FINDING: property=(\\S+) match=<<(.*)>> (.*)"))) known.push_back({ m[1], m[2], m[3] }); }
}
static int knownIdx(const std::string& prop, const std::string& sig) { for (size_t i = 0; i < known.size(); ++i) if ((known[i].prop == prop || known[i].prop == "*") && std::regex_search(sig, std::regex(known[i].match))) return (int)i; return -1; }
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

// ---------------------------------------------------------------- main
int main(int argc, char** argv)
{
    signal(SIGPIPE, SIG_IGN);
    std::map<std::string, std::string> A; for (int i = 1; i + 1 < argc; i += 2) A[argv[i] + 2] = argv[i + 1];
    g_dir = A["dir"]; if (A.count("limit")) g_limit = atof(A["limit"].c_str());
    int workers = A.count("workers") ? AI(A["workers"]) : 8;
    if (A.count("replay")) {
        std::ifstream in(A["replay"]); std::stringstream ss; ss << in.rdbuf(); Plan p = Plan::parse(ss.str());
        Pool pool(-1); Verdict v; exec1(pool, p, v);
        std::cout << v.text; if (v.text.empty() || v.text.back() != '\n') std::cout << "\n";
        for (auto& x : v.v) std::cout << "VERDICT " << x.cls << " | " << x.msg << " |" << symbolize(p, (x.cls == "history" ? std::string() : x.msg) + " " + x.stk) << "\n";
        if (v.broken) std::cout << "BROKEN\n"; if (v.undecided) std::cout << "UNDECIDED\n"; if (v.v.empty()) std::cout << "NO VIOLATION\n";
        return v.broken ? 2 : v.v.empty() ? 0 : 1;
    }
    std::string prop = A["prop"], tier = A.count("tier") ? A["tier"] : "quick"; uint64_t seed = A.count("seed") ? strtoull(A["seed"].c_str(), 0, 10) : 1;
    double limit = A.count("time") ? atof(A["time"].c_str()) : 45; int maxDistinct = A.count("distinct") ? AI(A["distinct"]) : 1; double minTime = A.count("mintime") ? atof(A["mintime"].c_str()) : 40;
    long maxRuns = A.count("runs") ? atol(A["runs"].c_str()) : (1l << 60);
    const Profile* pf = profile(prop); if (!pf) { std::cerr << "no profile " << prop << "\n"; return 2; }
    if (A.count("show")) { Gen g(*pf, strtoull(A["show"].c_str(), 0, 10)); Plan p = g.make(); std::cout << p.text(); if (!validPlan(p)) std::cout << "# INVALID\n"; return 0; }
    loadKnown(A["known"]);
    double t0 = now(), tend = t0 + limit;
    std::atomic<uint64_t> next{ 0 }; std::mutex mx; std::atomic<bool> stop{ false };
    uint64_t runs = 0, undec = 0, broken = 0, invalid = 0, gateFail = 0, opsTotal = 0, linWin = 0, linMaxWin = 0, dchecks = 0, dmism = 0, seqRuns = 0, statesReached = 0, spurRuns = 0;
    std::unordered_set<std::string> ih, hh; std::map<std::string, double> stats; std::map<std::string, uint64_t> strat; std::map<int, uint64_t> knownHits; std::string gateMsg, brokenMsg;
    struct Found { Plan p; Verdict v; std::string sig; uint64_t seed; long count; }; std::map<std::string, Found> found; std::vector<std::string> samples;
    auto seedOf = [&](uint64_t i) { Rng r(seed * 1000003 + i * 2 + 1); return r.next() >> 1; };
    auto work = [&](int w) {
        Pool pool(w % 8);
        while (!stop && now() < tend) {
            uint64_t i = next++; if ((long)i >= maxRuns) break;
            uint64_t s = seedOf(i); Gen g(*pf, s); Plan p = g.make();
            if (!validPlan(p)) { std::lock_guard<std::mutex> l(mx); ++invalid; continue; }
            Verdict v; exec1(pool, p, v);
            bool again = !v.v.empty() || v.broken || i % 97 == 0; Verdict v2;
            if (again) exec1(pool, p, v2);
            std::string sig;
            if (!v.v.empty() && !v.broken) {
                // gate: the same seed in the same process, and the recorded schedule in a fresh one
                Plan q = p; bool par = false; for (auto& o : p.ops) if (o.thr > 0 && o.thr < 99) par = true;
                bool ok = v2.hash == v.hash && !v2.v.empty() && v2.v[0].cls == v.v[0].cls;
                if (ok && par && !v.trace.empty()) q.trace = v.trace;
                if (ok) { Pool fresh(-1); Verdict v3; exec1(fresh, q, v3); ok = !v3.v.empty() && v3.v[0].cls == v.v[0].cls && v3.hash == v.hash; if (!ok) { std::lock_guard<std::mutex> l(mx); if (gateMsg.empty()) gateMsg = "fresh replay: " + v.v[0].cls + " " + v.hash + " vs " + v3.hash + "\n" + q.text(); } }
                else { std::lock_guard<std::mutex> l(mx); if (gateMsg.empty()) gateMsg = "same seed: " + v.v[0].cls + " " + v.hash + " vs " + v2.hash + " " + (v2.v.empty() ? "none" : v2.v[0].cls) + "\n" + p.text(); }
                if (!ok) { std::lock_guard<std::mutex> l(mx); ++gateFail; ++runs; continue; }
                std::string sy = symbolize(p, (v.v[0].cls == "history" ? std::string() : v.v[0].msg) + " " + v.v[0].stk, false), m = v.v[0].msg;
                if (v.v[0].cls == "history") { m = std::regex_replace(m, std::regex("[a-z]+[0-9-]+[a-zA-Z0-9.-]*|[0-9]+"), "#"); m = std::regex_replace(m, std::regex("(# ?,? ?)+#"), "#"); }
                m = std::regex_replace(m, std::regex("[0-9]+"), "#"); if (m.size() > 110) m.resize(110);
                sig = v.v[0].cls + " | " + (v.v[0].cls == "history" || v.v[0].stk.empty() ? m : "") + " |" + sy.substr(0, 300);
            }
            std::lock_guard<std::mutex> l(mx);
            ++runs; if (g.seq) ++seqRuns; if (again && !v.broken) { ++dchecks; if (v2.hash != v.hash || v2.text != v.text) { ++dmism; if (gateMsg.empty()) gateMsg = "divergence " + v.hash + " " + v2.hash + "\n" + p.text(); } }
            if (v.undecided) ++undec;
            if (v.broken) { ++broken; if (brokenMsg.empty()) brokenMsg = p.text() + "\n" + v.text.substr(0, 3000); }
            opsTotal += (uint64_t)v.ops; linWin += (uint64_t)v.lin.windows; linMaxWin = std::max<uint64_t>(linMaxWin, (uint64_t)v.lin.maxWindow); statesReached += v.lin.states;
            std::string th = std::to_string(std::hash<std::string>()(v.text)); hh.insert(th); if (g.seq || v.st["switches"] > 2) ih.insert(g.seq ? th : v.ihash);
            for (auto& x : v.st) stats[x.first] += x.second;
            static const char* sn[] = { "nonpreemptive", "random", "pct", "op-boundary", "replay" }; strat[std::string(sn[p.cfg["strategy"] % 5]) + (p.cfg.count("mem") && p.cfg["mem"] ? "+memory" : "")]++; if (p.cfg.count("spur")) ++spurRuns;
            if (samples.size() < 3 && i % 50 == 0) samples.push_back("seed " + std::to_string(s) + "\n" + p.text());
            if (!sig.empty()) {
                int k = knownIdx(prop, sig);
                if (k >= 0) knownHits[k]++;
                else { auto it = found.find(sig); if (it == found.end()) { if (found.size() < 200) found.emplace(sig, Found{ p, v, sig, s, 1 }); } else { it->second.count++; if (p.ops.size() < it->second.p.ops.size()) { it->second.p = p; it->second.v = v; it->second.seed = s; } } if ((int)found.size() >= maxDistinct && maxDistinct == 1) stop = true; }
            }
        }
    };
    std::vector<std::thread> th; for (int w = 0; w < workers; ++w) th.emplace_back(work, w); for (auto& t : th) t.join();
    double wall = now() - t0; int rc = 0;
    // ---- report
    std::vector<Found*> list; for (auto& f : found) list.push_back(&f.second); std::sort(list.begin(), list.end(), [](Found* a, Found* b) { return a->count > b->count; });
    std::string outdir = A.count("out") ? A["out"] : g_dir; int n = 0;
    std::vector<std::thread> mt; std::mutex om; std::atomic<size_t> nf{ 0 }; std::vector<std::string> reports(list.size());
    auto mini = [&](int w) {
        for (;;) {
            size_t k = nf++; if (k >= list.size()) break; Found* f = list[k];
            Pool pool(w % 8); Minimiser m(pool, now() + minTime); m.go(f->p, f->v);
            std::string path = outdir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(k) + ".replay";
            std::string sy = symbolize(m.best, (m.bv.v[0].cls == "history" ? std::string() : m.bv.v[0].msg) + " " + m.bv.v[0].stk);
            std::string body = "# property " + prop + "  violation " + m.bv.v[0].cls + "\n# " + m.bv.v[0].msg + "\n#" + sy + "\n# found with generator seed " + std::to_string(f->seed) + ", minimised in " + std::to_string(m.runs) + " runs; expected hash " + m.bv.hash + "\n" + m.best.text();
            { std::ofstream o(path); o << body; }
            reports[k] = "---- " + std::to_string(f->count) + "x " + f->sig + "\n     " + m.bv.v[0].cls + ": " + m.bv.v[0].msg.substr(0, 700) + "\n    " + sy.substr(0, 900) + "\n" + m.best.text().substr(0, 3000) + "\nVIOLATION property=" + prop + " replay=" + path + "\n";
        }
    };
    for (int w = 0; w < std::min<int>(workers, (int)list.size()); ++w) mt.emplace_back(mini, w); for (auto& t : mt) t.join();
    for (auto& r : reports) { std::cout << r; ++n; rc = 1; }
    for (size_t i = 0; i < known.size(); ++i) if (known[i].prop == prop || (known[i].prop == "*" && knownHits.count((int)i))) std::cout << "KNOWN-FINDING: property=" << prop << " " << known[i].text << " (met " << knownHits[(int)i] << " times)\n";
    // A stray run that does not repeat is reported and recorded in the evidence; more than a stray few mean the simulation is not deterministic and its answer is not to be believed.
    if (gateFail || dmism) { bool bad = gateFail > 2 || dmism * 100 > dchecks; std::cout << (bad ? "HARNESS: " : "HARNESS (stray): ") << gateFail << " violations not reproducible, " << dmism << " of " << dchecks << " repeated runs diverged\n" << gateMsg.substr(0, 4000) << "\n"; if (bad && !rc) rc = 3; }
    if (broken) { std::cout << "HARNESS: " << broken << " runs hit a harness limit\n" << brokenMsg.substr(0, 4000) << "\n"; if (!rc && broken * 200 > runs) rc = 3; }
    if (!runs) rc = 3;
    std::cout << prop << ": " << runs << " runs in " << (int)wall << " s, " << ih.size() << " distinct interleavings, " << undec << " undecided, " << invalid << " invalid, " << seqRuns << " sequential, " << opsTotal << " operations judged, " << dchecks << " repeated, max window " << linMaxWin << "\n";
    if (A.count("evidence")) {
        std::ofstream e(A["evidence"]); double h = wall / 3600;
        e << "{\n \"property\": \"" << prop << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n \"coverage\": {\n";
        e << "  \"evaluations\": " << runs << ", \"distinct_nontrivial\": " << ih.size() << ",\n  \"rule\": \"one evaluation = one simulated execution of a generated plan under one generated schedule and fault sequence, all derived from one seed; counted as distinct when the hash over (thread, kind of scheduling point, switch) of its whole schedule was not seen before in this run, and as non-trivial when clients were switched more than twice (concurrent plans) or when the hash of the history differs (single-client histories)\",\n";
        e << "  \"samples\": ["; for (size_t i = 0; i < samples.size(); ++i) e << (i ? ", " : "") << "\"" << jesc(samples[i].substr(0, 1500)) << "\""; e << "],\n";
        e << "  \"runs_per_hour\": " << (uint64_t)(runs / h) << ", \"seeds_per_hour\": " << (uint64_t)(runs / h) << ", \"single_client_runs\": " << seqRuns << ", \"concurrent_runs\": " << runs - seqRuns << ",\n";
        e << "  \"simulated_time_s\": " << stats["time_ns"] * 1e-9 << ", \"scheduling_points\": " << (uint64_t)stats["points"] << ", \"context_switches\": " << (uint64_t)stats["switches"] << ", \"instrumented_accesses\": " << (uint64_t)stats["mem"] << ", \"simulated_allocations\": " << (uint64_t)stats["allocs"] << ",\n";
        e << "  \"operations_judged\": " << opsTotal << ", \"overlap_windows\": " << linWin << ", \"largest_window\": " << linMaxWin << ", \"model_states_kept\": " << statesReached << ", \"distinct_full_histories\": " << hh.size() << ", \"undecided_histories\": " << undec << ",\n";
        e << "  \"determinism_repeats\": " << dchecks << ", \"determinism_divergences\": " << dmism << ", \"violations_not_reproduced\": " << gateFail << ", \"harness_limit_runs\": " << broken << ",\n  \"strategies\": {"; bool first = true; for (auto& s : strat) { e << (first ? "" : ", ") << "\"" << s.first << "\": " << s.second; first = false; }
        e << "},\n  \"faults_and_probes_fired\": {"; first = true; for (auto& s : stats) { if (s.first == "points" || s.first == "switches" || s.first == "mem" || s.first == "time_ns" || s.first == "allocs" || s.first == "viol") continue; e << (first ? "" : ", ") << "\"" << s.first << "\": " << (uint64_t)s.second; first = false; }
        e << "},\n  \"real_components\": \"all of /repo/Source compiled from the working tree (vault, sets, handles, requests, reader-writer locks, CSV reader and writer, identifiers), libstdc++ containers, streams and formatting\",\n  \"stubbed_components\": \"thread scheduling, mutexes, condition variables, once/guards, heap, clock, file system calls, random_device\"\n },\n";
        e << " \"assumptions\": [\"interleavings are sequentially consistent; weaker memory orders are covered only by the race detector\", \"sampling, not enumeration\", \"histories whose search exceeds the node limit are counted as undecided and not judged\"],\n \"wall_s\": " << wall << ", \"violations\": " << list.size() << "\n}\n";
    }
    return rc;
}

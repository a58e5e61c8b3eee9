// C09 imports, C10 input faults, C11 output faults and crashes, C12 reproducible output, C14 damaged definitions.
// Real: parsetool/main.cpp and boost_console.cpp, every compiler stage, the generated language parser, libstdc++ file streams, Boost.
// Stub: the disk, clock, working directory and console behind the system calls (simfs.cpp).
// Oracle: the same project compiled alone without faults; for imports a reference walk of the import graph and the flattened project.
#include "simfs.h"
#include "genproj.h"
#include <cerrno>
using namespace std; using namespace sim; using namespace simfs;
namespace {
typedef map<string, string> Snap;
Snap snapshot() { Snap s; vector<string> l = list(); for (size_t i = 0; i < l.size(); ++i) get(l[i], s[l[i]]); return s; }
// the only part of the output that may differ between runs is the time stamp
string stamp(const string& s) { string o; size_t i = 0; int n = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); string l = s.substr(i, e - i); size_t k; if (n < 8 && l.compare(0, 3, "///") == 0 && (k = l.find("generated by TameParse at ")) != string::npos) l = l.substr(0, k); o += l; if (e < s.size()) o += '\n'; i = e + 1; ++n; } return o; }
Snap stamped(const Snap& s) { Snap o; for (Snap::const_iterator i = s.begin(); i != s.end(); ++i) o[i->first] = stamp(i->second); return o; }
string diffSnap(const Snap& a, const Snap& b) { for (Snap::const_iterator i = a.begin(); i != a.end(); ++i) { Snap::const_iterator f = b.find(i->first); if (f == b.end()) return i->first + " is missing"; if (f->second != i->second) { size_t k = 0; while (k < min(f->second.size(), i->second.size()) && f->second[k] == i->second[k]) ++k; return i->first + " differs at byte " + to_string(k) + " (" + to_string(i->second.size()) + " against " + to_string(f->second.size()) + " bytes)"; } } for (Snap::const_iterator i = b.begin(); i != b.end(); ++i) if (!a.count(i->first)) return i->first + " was created"; return ""; }
void load(const proj::Files& f) { if (const char* d = getenv("SIM_DUMP")) for (size_t i = 0; i < f.name.size(); ++i) { string n = f.name[i]; replace(n.begin(), n.end(), '/', '_'); if (FILE* h = fopen((string(d) + "/" + n).c_str(), "w")) { fwrite(f.text[i].data(), 1, f.text[i].size(), h); fclose(h); } }
    for (size_t i = 0; i < f.name.size(); ++i) put(f.name[i], f.text[i]); }
void restore(const Snap& s) { vector<string> l = list(); for (size_t i = 0; i < l.size(); ++i) del(l[i]); for (Snap::const_iterator i = s.begin(); i != s.end(); ++i) put(i->first, i->second); }
string brief(const Result& r) { return "exit " + to_string(r.code) + (r.threw ? " by exception" : "") + "; " + r.err.substr(0, 160); }
void begin(const Plan& plan) { string s; for (size_t i = 0; i < plan.size() && s.size() < 420; ++i) { s += plan[i].op; for (size_t k = 0; k < plan[i].a.size(); ++k) s += " " + plan[i].a[k]; s += "; "; } sample(s); disk_init(); }
Run base(const proj::Files& f) { Run r; r.argv = f.argv; return r; }
bool benign(const Fault& f) { return f.act == "eintr" || f.act == "short"; }
vector<Fault> faultsOf(const Plan& p, int t, long long& full, int& chunk) { vector<Fault> v; full = -1; chunk = 0; for (size_t i = 0; i < p.size(); ++i) { const Line& l = p[i]; if (l.n(0) != t) continue; if (l.op == "fault") { Fault f; f.kind = l.s(1); f.nth = l.n(2); f.act = l.s(3); f.arg = l.n(4); v.push_back(f); } if (l.op == "full") full = max(0LL, l.n(1)); if (l.op == "chunk") chunk = (int)max(0LL, l.n(1)); } return v; }

// ---- C10 / C11: whatever fails, exit code 0 means the result of the undisturbed run ---------------------------------
void execFaults(const Plan& plan, bool output) {
    begin(plan); proj::Files pf = proj::from_plan(plan); if (pf.name.empty() || pf.argv.empty()) return; load(pf);
    Snap start = snapshot(); for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "stale") { put(pf.argv.size() > 2 ? pf.argv[2] + ".h" : "out.h", "old header\n"); put(pf.argv.size() > 2 ? pf.argv[2] + ".cpp" : "out.cpp", "old source\n"); probe("stale-output-present"); }
    Snap before = snapshot(); Result ref = run_tool(base(pf)); if (ref.threw) fail("tool-threw", "an exception left main: " + ref.what + ": " + ref.err.substr(0, 200)); Snap want = snapshot(); log_ev("ref %d %s", ref.code, ref.err.substr(0, 200).c_str());
    if (ref.code == 0) probe("project-compiles"); else { probe("project-rejected"); if (ref.err.empty()) fail("silent-failure", "exit code " + to_string(ref.code) + " without a message"); }
    int tries = 0; for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "fault" || plan[i].op == "full" || plan[i].op == "chunk") tries = max(tries, (int)min(20LL, plan[i].n(0) + 1));
    for (int t = 0; t < tries; ++t) {
        Run r = base(pf); int chunk; r.faults = faultsOf(plan, t, r.diskFull, chunk); r.chunk = chunk; if (r.faults.empty() && r.diskFull < 0 && !chunk) continue;
        restore(before); reset_opens(); Result x = run_tool(r); Snap got = snapshot(); log_ev("try %d code %d crashed %d fired %llu", t, x.code, (int)x.crashed, (unsigned long long)x.faultsFired); state(mix((u64)t, mix((u64)x.code, x.faultsFired)));
        bool onlyBenign = r.diskFull < 0; for (size_t k = 0; k < r.faults.size(); ++k) if (!benign(r.faults[k])) onlyBenign = false; if (!x.crashed && x.faultsFired == 0) onlyBenign = true;
        for (Snap::iterator k = start.begin(); k != start.end(); ++k) if (!got.count(k->first) || got[k->first] != k->second) fail("input-modified", k->first + " was changed by the tool");
        if (x.threw) fail("tool-threw", "an exception left main after an I/O fault: " + x.what + ": " + x.err.substr(0, 200));
        if (!x.crashed) {
            if (onlyBenign) { if (x.code != ref.code) fail("short-transfer-changes-result", "short or interrupted transfers change the exit code from " + to_string(ref.code) + " to " + brief(x)); string d = diffSnap(want, got); if (!d.empty()) fail("short-transfer-changes-result", "short or interrupted transfers change the result: " + d); if (x.out != ref.out || x.err != ref.err) fail("short-transfer-changes-result", "short or interrupted transfers change the messages"); }
            else if (x.code == 0) {
                if (x.lostReads) fail("read-error-ignored", "exit code 0 although " + to_string(x.lostReads) + " reads of the input failed");
                if (ref.code != 0) fail("fault-hides-error", "without faults the tool fails with exit " + to_string(ref.code) + ", with a fault it succeeds");
                string d = diffSnap(want, got); if (!d.empty()) fail(output ? "success-with-bad-output" : "success-with-unread-input", "exit code 0 after an I/O error, but " + d); if (x.out != ref.out) fail("success-with-other-result", "exit code 0 after an I/O error with different messages: " + x.out.substr(0, 200) + " / expected " + ref.out.substr(0, 200)); probe("fault-survived");
            } else { if (x.err.empty()) fail("silent-failure", "exit code " + to_string(x.code) + " without a message after an I/O fault"); probe("fault-reported"); }
        } else probe("crashed");
        if (x.crashed || x.code != ref.code) {              // faults stop: the same command must now succeed exactly as it would have
            reset_opens(); Result y = run_tool(base(pf)); Snap again = snapshot(); if (y.code != ref.code) fail("rerun-differs", "after a failed run the same command gives exit " + to_string(y.code) + " instead of " + to_string(ref.code)); string d = ref.code == 0 ? diffSnap(want, again) : ""; if (!d.empty()) fail("rerun-differs", "after a failed run the same command gives other output: " + d); probe("rerun-after-failure");
        }
        if (x.faultsFired || x.crashed) nontrivial();
    }
}
void exec10(const Plan& p) { execFaults(p, false); }
void exec11(const Plan& p) { execFaults(p, true); }
int pickErr(Rng& r) { static const int e[] = { EIO, EACCES, EMFILE, ENOENT }; return e[r.below(4)]; }
void gen10(Rng& r, Plan& p) {
    proj::Opts o; o.tests = r.chance(2, 3); o.imports = r.chance(1, 2); o.multi = true; o.dir = r.chance(1, 4) ? "proj/" : ""; proj::gen(r, p, o);
    proj::Files pf = proj::from_plan(p); vector<int> ends; for (size_t i = 0; i < pf.text.size(); ++i) for (size_t k = 0; k + 1 < pf.text[i].size(); ++k) if (pf.text[i][k] == '\n' && k && (pf.text[i][k - 1] == '}' || pf.text[i][k - 1] == '"') && pf.text[i][k + 1] != ' ') ends.push_back((int)k + 1);   // where one block ends and the next begins: what was read up to here looks complete
    int n = r.range(3, 7); for (int t = 0; t < n; ++t) { int c = r.below(10);
        if (!ends.empty() && r.chance(1, 3)) { p.push_back(L("chunk").add(t).add(ends[r.below((int)ends.size())])); p.push_back(L("fault").add(t).add("read").add(r.chance(1, 2) ? 1 : r.below(12)).add("fail").add((long long)EIO)); }
        else if (c < 4) p.push_back(L("fault").add(t).add("read").add(r.below(r.chance(1, 2) ? 4 : 14)).add("fail").add((long long)EIO));
        else if (c < 6) p.push_back(L("fault").add(t).add("open").add(r.below(9)).add("fail").add((long long)pickErr(r)));
        else if (c < 7) p.push_back(L("chunk").add(t).add(r.range(1, 400)));
        else { p.push_back(L("chunk").add(t).add(r.range(5, 300))); int k = r.range(1, 3); for (int i = 0; i < k; ++i) { int a = r.below(4); p.push_back(L("fault").add(t).add("read").add(r.below(60)).add(a == 0 ? "fail" : a == 1 ? "eintr" : "short").add(a == 0 ? (long long)EIO : (long long)r.range(1, 50))); } } }
}
void gen11(Rng& r, Plan& p) {
    proj::Opts o; o.tests = r.chance(1, 5); o.multi = true; o.dir = r.chance(1, 4) ? "proj/" : ""; proj::gen(r, p, o); if (r.chance(1, 3)) p.push_back(L("stale"));
    int n = r.range(3, 7); for (int t = 0; t < n; ++t) { int c = r.below(12); long long at = r.below(r.chance(1, 3) ? 4 : 24);
        if (c < 3) p.push_back(L("fault").add(t).add("write").add(at).add("fail").add((long long)(r.chance(1, 2) ? ENOSPC : EIO)));
        else if (c < 5) p.push_back(L("full").add(t).add(r.below(r.chance(1, 2) ? 60000 : 12000)));
        else if (c < 6) p.push_back(L("fault").add(t).add("openw").add(r.below(2)).add("fail").add((long long)(r.chance(1, 2) ? EACCES : ENOSPC)));
        else if (c < 9) { static const char* k[] = { "open", "read", "write", "close", "openw" }; p.push_back(L("fault").add(t).add(k[r.chance(1, 2) ? 2 : r.below(5)]).add(at).add("crash").add(r.below(8192))); }
        else { int q = r.range(1, 4); for (int i = 0; i < q; ++i) p.push_back(L("fault").add(t).add("write").add(r.below(24)).add(r.chance(1, 2) ? "short" : "eintr").add(r.range(1, 5000))); if (r.chance(1, 3)) p.push_back(L("fault").add(t).add("write").add(r.below(30)).add("fail").add((long long)EIO)); } }
}
// ---- C09: imports ---------------------------------------------------------------------------------------------------
string dirOf(const string& p) { size_t s = p.rfind('/'); return s == string::npos ? "" : p.substr(0, s + 1); }
string clean(const string& p) { string s = p.empty() || p[0] != '/' ? "/sim/" + p : p; vector<string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('/', i); if (e == string::npos) e = s.size(); string c = s.substr(i, e - i); if (c == "..") { if (!v.empty()) v.pop_back(); } else if (!c.empty() && c != ".") v.push_back(c); i = e + 1; } string o; for (size_t k = 0; k < v.size(); ++k) o += "/" + v[k]; return o; }
bool importLine(const string& l, string& f) { if (l.compare(0, 8, "import \"") != 0 || l.size() < 9 || l[l.size() - 1] != '"') return false; f = l.substr(8, l.size() - 9); return f.find('"') == string::npos && !f.empty(); }
vector<string> lines(const string& t) { vector<string> v; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == string::npos) e = t.size(); v.push_back(t.substr(i, e - i)); i = e + 1; } return v; }
void exec9(const Plan& plan) {
    begin(plan); proj::Files pf = proj::from_plan(plan); if (pf.name.empty() || pf.argv.size() < 3) return; load(pf); Snap start = snapshot(); string mainf = pf.argv[0], data; if (!get(mainf, data)) return;
    // reference walk: what must be read, each exactly once
    set<string> seen, names; vector<string> todo; bool missing = false, langTwice = false; set<string> langs; string flat; map<string, int> expect; int nimp = 0;
    struct W { string text; bool main; }; vector<W> work; work.push_back({ data, true }); seen.insert(clean(mainf)); names.insert(clean(mainf)); expect[clean(mainf)] = 1; bool odd = false;
    while (!work.empty()) { W w = work.back(); work.pop_back(); vector<string> ls = lines(w.text); for (size_t i = 0; i < ls.size(); ++i) { string f; if (!importLine(ls[i], f)) { if (ls[i].compare(0, 9, "language ") == 0) { string n = ls[i].substr(9); n = n.substr(0, n.find(' ')); if (!langs.insert(n).second) langTwice = true; } flat += ls[i] + "\n"; continue; }
        ++nimp; string key = clean(f); if (!names.insert(key).second) { probe("imported-again"); continue; } string file = key, t; if (!get(file, t)) { file = clean((f[0] == '/' ? "" : dirOf(mainf)) + f); if (!get(file, t)) { missing = true; continue; } } if (!seen.insert(file).second) odd = true; ++expect[file]; work.push_back({ t, false }); } }
    if (odd) return;                                       // one file under two real names: out of scope
    log_ev("imports %d files %d", nimp, (int)seen.size()); reset_opens(); Run r = base(pf); int chunk; r.faults = faultsOf(plan, 0, r.diskFull, chunk); r.chunk = chunk; Result x = run_tool(r); Snap got = snapshot(); if (x.threw) fail("tool-threw", "an exception left main: " + x.what + ": " + x.err.substr(0, 160));
    bool parsed = x.err.find("Syntax error") == string::npos; vector<string> all; for (Snap::iterator i = start.begin(); i != start.end(); ++i) all.push_back(i->first);
    for (size_t i = 0; i < all.size(); ++i) { int n = opens_of(all[i]); int w = expect.count(all[i]) ? expect[all[i]] : 0; if (n > w) fail(w ? "read-twice" : "read-without-import", all[i] + " was opened " + to_string(n) + " times, expected " + to_string(w)); if (parsed && n < w && x.code != 0 && !missing && !langTwice) probe("stopped-early"); if (parsed && x.code == 0 && n != w) fail("import-not-read", all[i] + " is imported but was never opened"); }
    log_ev("code %d", x.code); state(mix(hash_str(flat), (u64)x.code));
    if (missing && x.code == 0) fail("missing-import-ignored", "a file that cannot be found is imported, and the tool succeeded"); if (missing) { probe("missing-import"); if (x.err.empty()) fail("silent-failure", "missing import without a message"); }
    if (langTwice) probe("language-defined-twice");
    if (!missing) {                                         // the same definitions in one file give the same result
        restore(start); for (size_t i = 0; i < all.size(); ++i) if (all[i] != clean(mainf)) del(all[i]); put(mainf, flat); Run fr = base(pf); Result y = run_tool(fr); Snap fg = snapshot(); if ((x.code == 0) != (y.code == 0)) fail("imports-change-result", "spread over files: " + brief(x) + "; in one file: " + brief(y));
        if (x.code == 0) { string o = clean(pf.argv[2]); for (int k = 0; k < 2; ++k) { string n = o + (k ? ".h" : ".cpp"); if (got[n] != fg[n]) fail("imports-change-result", n + " differs from the same definitions in one file"); } probe("equal-to-flattened"); } }
    if (nimp >= 2 && seen.size() >= 2) nontrivial(); if (nimp > (int)seen.size() - 1) probe("cycle-or-diamond");
}
void gen9(Rng& r, Plan& p) {
    proj::Opts o; o.imports = true; o.dir = r.chance(1, 3) ? "proj/" : ""; proj::gen(r, p, o);
    if (r.chance(1, 6)) { int f = r.below(3); p.push_back(L("ln").add(f).add("import \"nowhere.tp\"")); }
    if (r.chance(1, 3)) p.push_back(L("chunk").add(0).add(r.range(1, 300))); if (r.chance(1, 4)) for (int i = r.range(1, 4); i > 0; --i) p.push_back(L("fault").add(0).add("read").add(r.below(20)).add(r.chance(1, 2) ? "eintr" : "short").add(r.range(1, 60)));
}
// ---- C12: output depends on the input alone --------------------------------------------------------------------------
void exec12(const Plan& plan) {
    begin(plan); vector<proj::Files> ps; for (int g = 0; g < 3; ++g) { proj::Files f = proj::from_plan(plan, g); if (!f.name.empty() && f.argv.size() >= 3) ps.push_back(f); } if (ps.empty()) return;
    for (size_t g = 0; g < ps.size(); ++g) for (size_t i = 0; i < ps[g].name.size(); ++i) put(ps[g].name[i], ps[g].text[i]);
    Snap start = snapshot(), all = start; vector<Result> ref; vector<Snap> outs;
    for (size_t g = 0; g < ps.size(); ++g) { restore(start); ref.push_back(run_tool(base(ps[g]))); if (ref[g].threw) fail("tool-threw", "an exception left main: " + ref[g].what + ": " + ref[g].err.substr(0, 160)); Snap s = stamped(snapshot()); outs.push_back(s); for (Snap::iterator k = s.begin(); k != s.end(); ++k) all[k->first] = k->second; if (ref[g].exited) return; log_ev("ref %d %s", ref[g].code, ref[g].err.substr(0, 120).c_str()); log_str(ref[g].out); }
    bool any = false; for (size_t g = 0; g < ps.size(); ++g) if (ref[g].code == 0) any = true; if (any) probe("compiles");
    int n = 0;
    for (size_t i = 0; i < plan.size() && n < 12; ++i) { const Line& l = plan[i]; restore(start); string what;
        if (l.op == "env") { ++n; size_t g = (size_t)(llabs(l.n(0)) % (long long)ps.size()); Run r = base(ps[g]); r.useHeap = true; r.heap.seed = (u64)l.n(1); r.heap.fill = (int)l.n(2) & 255; r.heap.reuse = (int)(llabs(l.n(3)) % 3); r.heap.pad = (int)(llabs(l.n(4)) % 60); r.now = llabs(l.n(5)); r.chunk = (int)llabs(l.n(6)); r.env = (u64)l.n(7); if (r.env) fault("other-account-and-locale"); fault("heap-layout"); fault("clock-jump"); Result x = run_tool(r);
            if (x.code != ref[g].code || x.out != ref[g].out || x.err != ref[g].err) fail("depends-on-environment", "another heap layout, clock, account or read size changes the messages: " + brief(x) + " / " + brief(ref[g])); string d = diffSnap(outs[g], stamped(snapshot())); if (!d.empty()) fail("depends-on-environment", "another heap layout, clock, account or read size changes the output: " + d); nontrivial(); }
        else if (l.op == "after") { ++n; vector<Run> rs; vector<int> who; for (size_t k = 0; k < l.a.size() && k < 6; ++k) { int g = (int)(llabs(l.n(k)) % (long long)ps.size()); rs.push_back(base(ps[g])); who.push_back(g); } if (rs.empty()) continue; fault("earlier-run-in-process", rs.size() - 1); vector<Result> xs = run_tools(rs, 1, true); Snap got = stamped(snapshot());
            for (size_t k = 0; k < xs.size(); ++k) if (xs[k].code != ref[who[k]].code || xs[k].out != ref[who[k]].out || xs[k].err != ref[who[k]].err) fail("depends-on-history", "compiled after another project in the same process, the messages change: " + brief(xs[k]) + " / " + brief(ref[who[k]]));
            for (Snap::iterator f = got.begin(); f != got.end(); ++f) if (all.count(f->first) && all[f->first] != f->second) fail("depends-on-history", f->first + " differs when compiled after another project in the same process"); for (size_t k = 0; k < who.size(); ++k) for (Snap::iterator f = outs[who[k]].begin(); f != outs[who[k]].end(); ++f) if (!got.count(f->first)) fail("depends-on-history", f->first + " is missing"); nontrivial(); }
        else if (l.op == "inter") { ++n; vector<Run> rs; set<int> who; for (size_t k = 1; k < l.a.size() && k < 4; ++k) { int g = (int)(llabs(l.n(k)) % (long long)ps.size()); if (!who.insert(g).second) continue; Run r = base(ps[g]); r.chunk = 97; rs.push_back(r); } if (rs.size() < 2) continue; fault("interleaved-compilations"); vector<Result> xs = run_tools(rs, (u64)l.n(0), false); Snap got = stamped(snapshot()); size_t k = 0;
            for (size_t q = 1; q < l.a.size() && k < xs.size(); ++q) { (void)q; } vector<int> order; { set<int> s; for (size_t q = 1; q < l.a.size() && q < 4; ++q) { int g = (int)(llabs(l.n(q)) % (long long)ps.size()); if (s.insert(g).second) order.push_back(g); } }
            for (size_t q = 0; q < xs.size(); ++q) { if (xs[q].code != ref[order[q]].code) fail("depends-on-schedule", "interleaved with another compilation the exit code changes from " + to_string(ref[order[q]].code) + " to " + to_string(xs[q].code)); for (Snap::iterator f = outs[order[q]].begin(); f != outs[order[q]].end(); ++f) if (!got.count(f->first) || got[f->first] != f->second) fail("depends-on-schedule", f->first + " differs when compiled interleaved with another project"); } nontrivial(); }
    }
}
void gen12(Rng& r, Plan& p) {
    int g = r.range(1, 3); for (int k = 0; k < g; ++k) { proj::Opts o; o.tests = r.chance(1, 4); o.multi = true; o.imports = r.chance(1, 3); o.dir = k == 0 ? "" : k == 1 ? "p1/" : "p2/"; proj::gen(r, p, o, k); if (r.chance(1, 4)) { static const char* F[] = { "--show-parser", "--show-parser-closure", "--show-propagation", "--show-conflict-details", "--verbose", "--allow-reduce-conflicts", "--no-conflicts", "--show-error-codes", "--disable-compact-dfa", "--disable-merged-dfa" }; const char* f = F[r.below(10)]; bool have = false; for (size_t q = 0; q < p.size(); ++q) if (p[q].op == "arg" && p[q].n(0) == k && p[q].s(1) == f) have = true; if (!have) p.push_back(L("arg").add(k).add(f)); } }
    int n = r.range(2, 5); for (int i = 0; i < n; ++i) { int c = r.below(g > 1 ? 5 : 3); if (c < 2) p.push_back(L("env").add(r.below(g)).add((long long)(r.next() >> 8)).add(r.below(256)).add(r.below(3)).add(r.below(60)).add((long long)r.below(2000000000)).add(r.chance(1, 2) ? 0 : r.range(1, 500)).add(r.chance(1, 3) ? 0 : (long long)(r.next() >> 8)));
        else if (c < 4) { Line l("after"); int m = r.range(2, 3); for (int k = 0; k < m; ++k) l.add(r.below(g)); p.push_back(l); } else { Line l("inter"); l.add((long long)(r.next() >> 8)); for (int k = 0; k < g; ++k) l.add((k + (int)i) % g); p.push_back(l); } }
}
// ---- C14: damaged definition files ------------------------------------------------------------------------------------
// line and token level damage: most results still parse, and many still compile
void mild(string& t, const Line& l) {
    if (t.empty()) return;
    if (l.op.size() && l.op[l.op.size() - 1] == 'l') { vector<string> v = lines(t); if (v.empty()) return; size_t a = (size_t)(llabs(l.n(1)) % (long long)v.size()), b = (size_t)(llabs(l.n(2)) % (long long)v.size()); string x = v[a];
        if (l.op == "dropl") { v.erase(v.begin() + a); fault("line-lost"); } else if (l.op == "dupl") { v.insert(v.begin() + b, x); fault("line-repeated"); } else { v.erase(v.begin() + a); v.insert(v.begin() + min(b, v.size()), x); fault("line-moved"); } t.clear(); for (size_t i = 0; i < v.size(); ++i) t += v[i] + "\n"; return; }
    if (l.op == "inherit") { vector<string> v = lines(t); vector<size_t> w; for (size_t i = 0; i < v.size(); ++i) if (v[i].compare(0, 9, "language ") == 0 && v[i].find('{') != string::npos) w.push_back(i); if (w.empty()) return; string& x = v[w[(size_t)(llabs(l.n(1)) % (long long)w.size())]]; size_t c = x.find_first_of(":{"); x = x.substr(0, c) + ": Lang" + to_string(llabs(l.n(2)) % 4) + " {"; fault("base-language-overwritten"); t.clear(); for (size_t i = 0; i < v.size(); ++i) t += v[i] + "\n"; return; }
    if (l.op == "regex") { vector<pair<size_t, size_t>> w; vector<string> v = lines(t); size_t at = 0; for (size_t i = 0; i < v.size(); ++i) { size_t a = v[i].find("= /"), b = v[i].rfind('/'); if (a != string::npos && b > a + 2) w.push_back({ at + a + 3, b - a - 3 }); at += v[i].size() + 1; } if (w.empty()) return; pair<size_t, size_t> x = w[(size_t)(llabs(l.n(1)) % (long long)w.size())]; string n = l.s(2); for (size_t i = 0; i < n.size(); ++i) if (n[i] == '\n') n[i] = ' '; t.replace(x.first, x.second, n); fault("expression-overwritten"); return; }
    vector<pair<size_t, size_t>> k; for (size_t i = 0; i < t.size();) { if (isspace((unsigned char)t[i])) { ++i; continue; } size_t e = i; while (e < t.size() && !isspace((unsigned char)t[e])) ++e; k.push_back({ i, e - i }); i = e; } if (k.empty()) return;
    size_t a = (size_t)(llabs(l.n(1)) % (long long)k.size()), b = (size_t)(llabs(l.n(2)) % (long long)k.size()); string x = t.substr(k[a].first, k[a].second), y = t.substr(k[b].first, k[b].second);
    if (l.op == "kind") { auto cat = [](const string& w) { return w.empty() ? 0 : w[0] == '<' ? 1 : w[0] == '/' ? 2 : w[0] == '"' ? 3 : w.compare(0, 4, "Lang") == 0 ? 4 : w.size() > 1 && w[0] == 'k' && isdigit((unsigned char)w[1]) ? 5 : isalpha((unsigned char)w[0]) ? 6 : 7; }; for (size_t q = 0; q < k.size(); ++q) { size_t c = (b + q) % k.size(); string z = t.substr(k[c].first, k[c].second); if (c != a && cat(z) == cat(x) && z != x) { t.replace(k[a].first, k[a].second, z); fault("name-overwritten"); return; } } return; }
    if (l.op == "dropt") { t.erase(k[a].first, k[a].second); fault("token-lost"); } else if (l.op == "rept") { t.replace(k[a].first, k[a].second, y); fault("token-overwritten"); } else { if (a > b) { swap(a, b); swap(x, y); } if (a == b) return; t.replace(k[b].first, k[b].second, x); t.replace(k[a].first, k[a].second, y); fault("tokens-swapped"); }
}
// text no decoder can read (overlong forms aside)
bool malformed(const string& s) { for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; if (c < 128) { ++i; continue; } int n = (c & 0xe0) == 0xc0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : (c & 0xf8) == 0xf0 ? 3 : 0; if (!n || i + n >= s.size()) return true; unsigned v = n == 3 ? c & 7 : 0; for (int k = 1; k <= n; ++k) { unsigned char d = s[i + k]; if ((d & 0xc0) != 0x80) return true; v = v << 6 | (d & 63); } if (n == 3 && (v < 0x10000 || v > 0x10ffff)) return true; i += n + 1; } return false; }
void exec14(const Plan& plan) {
    begin(plan); proj::Files pf = proj::from_plan(plan); if (pf.name.empty() || pf.argv.empty()) return; int n = 0;
    for (size_t i = 0; i < plan.size(); ++i) { const Line& l = plan[i]; if (l.op == "dropl" || l.op == "dupl" || l.op == "movel" || l.op == "swapt" || l.op == "rept" || l.op == "dropt" || l.op == "kind" || l.op == "regex" || l.op == "inherit") { mild(pf.text[(size_t)(llabs(l.n(0)) % (long long)pf.text.size())], l); ++n; continue; } if (l.op != "flip" && l.op != "cut" && l.op != "zero" && l.op != "dup" && l.op != "junk" && l.op != "remark" && l.op != "move") continue; string& t = pf.text[(size_t)(llabs(l.n(0)) % (long long)pf.text.size())]; if (t.empty()) continue; size_t a = (size_t)(llabs(l.n(1)) % (long long)t.size()), len = (size_t)(llabs(l.n(2)) % 200 + 1); ++n;
        if (l.op == "flip") { t[a] = (char)(t[a] ^ (1 << (llabs(l.n(2)) % 8))); fault("bit-flip"); } else if (l.op == "cut") { t.resize(a); fault("file-truncated"); } else if (l.op == "zero") { for (size_t k = a; k < min(t.size(), a + len); ++k) t[k] = 0; fault("block-zeroed"); } else if (l.op == "dup") { t.insert(a, t.substr(a, len)); fault("block-repeated"); } else if (l.op == "move") { string b = t.substr(a, len); t.erase(a, len); if (!t.empty()) t.insert((size_t)(llabs(l.n(3)) % (long long)t.size()), b); fault("blocks-swapped"); } else if (l.op == "remark") { t += "\n// " + l.s(1) + " x\n"; fault("foreign-bytes"); } else { t.insert(a, l.s(2)); fault("foreign-bytes"); } }
    load(pf); reset_opens(); Snap start = snapshot(); Run rn = base(pf); rn.hangOk = true; rn.cpu = 12; for (size_t i = 0; i < rn.argv.size();) if (find(rn.argv.begin(), rn.argv.end(), string("--run-tests")) != rn.argv.end() && (rn.argv[i] == "--silent" || rn.argv[i] == "--suppress-warnings")) rn.argv.erase(rn.argv.begin() + i); else ++i;
    Result x = run_tool(rn); Snap got = snapshot(); if (x.exited) return;
    if (x.hung) {                                          // running a test of a damaged grammar may be endless (a cycle behind a reported conflict, a guard inside a left recursion or starting with itself); compiling it may not
        vector<string>::iterator t = find(rn.argv.begin(), rn.argv.end(), string("--run-tests")); if (t != rn.argv.end()) { rn.argv.erase(t); probe("endless-test-of-damaged-grammar"); } restore(start); rn.hangOk = false; x = run_tool(rn); got = snapshot(); if (x.exited) return; }
    log_ev("code %d %s", x.code, x.err.substr(0, 200).c_str());
    if (x.threw) fail("tool-threw", "an exception left main: " + x.what + ": " + x.err.substr(0, 200)); if (x.code != 0 && x.err.empty()) fail("silent-failure", "exit code " + to_string(x.code) + " without a message"); if (x.code == 0 && x.err.find(" error: ") != string::npos) fail("error-ignored", "an error was reported and the tool succeeded: " + x.err.substr(0, 200)); if (x.code >= 6 || x.err.find("compiler failure") != string::npos) fail("internal-error", "the tool blames itself: " + x.err.substr(x.err.find("compiler failure") == string::npos ? 0 : max(0, (int)x.err.find("compiler failure") - 60), 200));
    for (Snap::iterator k = start.begin(); k != start.end(); ++k) if (got[k->first] != k->second) fail("input-modified", k->first + " was changed by the tool");
    for (size_t k = 0; k < pf.name.size(); ++k) { const string& f = pf.name[k]; if (!malformed(pf.text[k]) || !opens_of(clean(f))) continue; if (f.size() < 4 || f.compare(f.size() - 3, 3, ".tp") != 0) { bool judge = false; for (size_t i = 0; i < plan.size(); ++i) judge = judge || plan[i].op == "whole-test-text"; if (judge && x.code == 0) fail("test-text-ignored", "the test that reads " + f + " passes on the part before a byte that is no character"); continue; } probe("definition-not-utf8"); if (x.code == 0) fail("text-ignored", f + " can only be read up to a byte that is no character, and the tool succeeds without its rest"); }
    if (x.code == 0) { probe("accepted"); for (int k = 0; pf.argv.size() >= 3 && pf.argv[1] == "-o" && k < 2; ++k) if (!got.count(clean(pf.argv[2]) + (k ? ".h" : ".cpp"))) fail("no-output", "exit code 0 without output"); } else probe("diagnosed");
    state(mix(hash_str(x.err), (u64)x.code)); if (n) nontrivial();
}
void gen14(Rng& r, Plan& p) {
    proj::Opts o; o.imports = r.chance(1, 3); o.multi = true; o.tests = r.chance(1, 3); proj::gen(r, p, o); int nf = 0; for (size_t i = 0; i < p.size(); ++i) if (p[i].op == "name") ++nf; int n = r.range(1, 4);
    static const char* F[] = { "--run-tests", "--show-parser", "--show-parser-closure", "--show-propagation", "--disable-compact-dfa", "--disable-merged-dfa", "--allow-reduce-conflicts", "--no-conflicts", "--show-conflict-details", "--show-error-codes", "--verbose", "--enable-lr1-resolver", "--suppress-warnings", "--silent" };
    for (int i = r.below(3); i > 0; --i) { const char* f = F[r.below((int)(sizeof F / sizeof *F))]; bool have = false; for (size_t k = 0; k < p.size(); ++k) if (p[k].op == "arg" && p[k].s(1) == f) have = true; if (!have) p.push_back(L("arg").add(0).add(f)); }
    if (r.chance(1, 12)) { p.push_back(L("arg").add(0).add("-S")); p.push_back(L("arg").add(0).add(r.chance(1, 2) ? "N1" : "nowhere")); } if (r.chance(1, 12)) { p.push_back(L("arg").add(0).add("-L")); p.push_back(L("arg").add(0).add(r.chance(1, 2) ? "Lang1" : "nowhere")); }
    if (r.chance(1, 20)) { static const char* B[] = { "\xff\xfe", "\xc3", "\xe2\x28\xa1", "\xe2\x82", "\x80", "\xf4\x90\x80\x80", "\xf0\x80\x80\x80", "\xf0\x9f\x98", "\xf7\xbf\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xfc", "\xc3\xc3\xa9", "\xe6\x97\xff", "\xf0\x9f\x41\x80", "\xf0\x41\x98\x80", "\xf0\x9f\x98\x41", "\xe6\x41\xa5", "\xc3\x41", "\xf0\x9f\x98\x80", "\xc3\xa9" }; p.push_back(L("remark").add(r.below(nf)).add(B[r.below((int)(sizeof B / sizeof *B))])); if (r.chance(5, 6)) return; }
    if (r.chance(1, 2)) { for (int i = 0; i < n; ++i) { int c = r.below(8); long long u = (long long)(r.next() >> 40), v = (long long)(r.next() >> 40); int f = r.chance(1, 2) ? 0 : r.below(nf); if (c < 5) p.push_back(L("kind").add(f).add(u).add(v)); else if (c < 6) p.push_back(L("inherit").add(f).add(u).add(v)); else { static const char* E[] = { "a", "b-", "[z-a]", "[^a-z]", "(", ")", "[", "]", "|", "*", "+", "?", ".", "{2}", "{digit}", "{number}", "{identifier}", "\\u03b1", "\\x4", "\\o777777", "\\0", "\\", "\\ufffd", "()", "[]", "[^]", "^", "$", "-", "k0", "[\xce\xb1-\xcf\x89]", "\xf0\x9f\x98\x80", "\\ud800", "{1,}", "{", "}", " ", "(a|b)", "[a-", "\\/" }; string e; for (int q = r.range(1, 7); q > 0; --q) e += E[r.below((int)(sizeof E / sizeof *E))]; p.push_back(L("regex").add(f).add(u).add(e)); } } if (r.chance(9, 10)) return; n = 1; }
    if (r.chance(1, 2)) { for (int i = 0; i < n; ++i) { static const char* K[] = { "dropl", "dupl", "movel", "swapt", "rept", "rept", "dropt" }; p.push_back(L(K[r.below(7)]).add(r.below(nf)).add((long long)(r.next() >> 40)).add((long long)(r.next() >> 40))); } if (r.chance(2, 3)) return; n = 1; }
    static const char* J[] = { "|", "{", "}", "'", "\"", "/", "(", ")*", "[=>", "]", "\xff\xfe", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xc3", "=", "language Lang0 : Lang1 {}\n", "<N0>", "import \"main.tp\"\n", "/a{2}/", "[^", "\\", "{identifier}", "precedence { left '+' }", "//", "/*", "replace", "Lang0.<N0>", ":Lang0", "()", "<N9>", "weak", "\\u12", "+*?", "''", "/()/", "test Lang0 { <N5> = \"x\" }", "parser Q : Lang1 { <N1> }" };
    for (int i = 0; i < n; ++i) { int f = r.below(nf); long long a = (long long)(r.next() >> 40); switch (r.below(9)) { case 0: p.push_back(L("flip").add(f).add(a).add(r.below(8))); break; case 1: p.push_back(L("cut").add(f).add(a)); break; case 2: p.push_back(L("zero").add(f).add(a).add(r.below(60))); break; case 3: p.push_back(L("dup").add(f).add(a).add(r.below(100))); break; case 4: p.push_back(L("move").add(f).add(a).add(r.below(60)).add((long long)(r.next() >> 40))); break; default: p.push_back(L("junk").add(f).add(a).add(J[r.below((int)(sizeof J / sizeof *J))])); } }
}
const char* REAL = "parsetool main and console, all compiler stages, generated definition parser, lexer, LALR builder, C++ output, libstdc++ and Boost streams";
const char* STUB = "disk, clock, working directory and console streams behind the system calls";
Reg r10({"C10", "seeded projects (imports, inheritance, tests, test files) compiled by the real tool while chosen open and read calls fail, are interrupted or return short; non-trivial: at least one fault fired", gen10, exec10, 1500, 30000, REAL, STUB});
Reg r11({"C11", "seeded projects compiled by the real tool while chosen open and write calls fail, return short, are interrupted, the disk fills, or the process dies at a chosen system call, each followed by a fault-free rerun on the surviving disk; non-trivial: at least one fault or crash fired", gen11, exec11, 1500, 30000, REAL, STUB});
Reg r9({"C09", "seeded import graphs (trees, diamonds, cycles, self imports, missing files, several spellings of a name) over slow and short reads; files opened are compared with a reference walk and the result with the flattened project; non-trivial: at least two imports and two files", gen9, exec9, 2500, 40000, REAL, STUB});
Reg r12({"C12", "up to three projects compiled alone, again with other heap layouts, memory garbage, clocks, locales and environment variables and read sizes, one after another in one process, and interleaved at every system call; non-trivial: at least one such variation", gen12, exec12, 1500, 25000, REAL, STUB});
Reg r14({"C14", "seeded projects damaged by bit flips, truncation, zeroed, repeated or swapped blocks and foreign bytes, compiled by the real tool; non-trivial: at least one file damaged", gen14, exec14, 6000, 100000, REAL, STUB});
}

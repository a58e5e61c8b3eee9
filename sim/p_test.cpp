// C08 every test of a definition file, and every text given to --test, gets the verdict the definition implies.
// Real: the tool (parsetool), every compiler stage, lexers and parsers.  Stub: the disk, the standard input and the console behind the system calls (simfs.cpp).
// Oracle: deflang: whether the text is a sentence of the language; what follows for the counts, the lines of the report, the error positions and the exit code.
#include "simfs.h"
#include "deflang.h"
#include <cerrno>
using namespace std; using namespace sim; using namespace simfs;
namespace {
struct T { string kind, name, text, shown; int nt; bool pass, missing; int line; string full; };
struct TB { string lang; vector<T> ts; };
void swap_item(gram::Item& i, int k) { if (i.k == 'n') i.id = i.id == k ? 0 : i.id == 0 ? k : i.id; for (size_t q = 0; q < i.sub.size(); ++q) swap_item(i.sub[q], k); }
def::Model startAt(def::Model m, int k) { if (k) for (size_t l = 0; l < m.langs.size(); ++l) for (size_t b = 0; b < m.langs[l].blocks.size(); ++b) { vector<def::Prod>& v = m.langs[l].blocks[b].prods; for (size_t p = 0; p < v.size(); ++p) { v[p].nt = v[p].nt == k ? 0 : v[p].nt == 0 ? k : v[p].nt; for (size_t a = 0; a < v[p].alts.size(); ++a) for (size_t y = 0; y < v[p].alts[a].items.size(); ++y) swap_item(v[p].alts[a].items[y], k); } } return m; }
struct Bank { const def::Model& m; map<pair<string, int>, unique_ptr<def::Language>> ls; Bank(const def::Model& x) : m(x) {}
    def::Language* get(const string& l, int nt) { pair<string, int> k(l, nt); map<pair<string, int>, unique_ptr<def::Language>>::iterator f = ls.find(k); if (f == ls.end()) { unique_ptr<def::Language> n(new def::Language()); def::Model s = startAt(m, nt); def::compile(s, l, 0, *n); f = ls.insert(make_pair(k, move(n))).first; } return f->second->problem.empty() && f->second->parseSure ? f->second.get() : 0; } };
string quote(const string& s) { string o = "\""; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\n') o += "\\n"; else if (s[i] == '\t') o += "\\t"; else if (s[i] == '\r') o += "\\r"; else if (s[i] == '\f') o += "\\f"; else if (s[i] == '\a') o += "\\a"; else if (s[i] == 27) o += "\\e"; else { if (s[i] == '"' || s[i] == '\\') o += '\\'; o += s[i]; } } return o + "\""; }
int lines(const string& s) { ref::PosTrack p; ref::Syms v = ref::unutf8(s); for (size_t i = 0; i < v.size(); ++i) p.eat(v[i]); return p.p.line + 1; }
vector<string> split(const string& t) { vector<string> v; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == string::npos) e = t.size(); v.push_back(t.substr(i, e - i)); i = e + 1; } return v; }
bool disk_changed(const vector<pair<string, string>>& fs) { vector<string> l = list(); for (size_t i = 0; i < l.size(); ++i) { string n = l[i].substr(l[i].rfind('/') + 1), d; bool ok = false; for (size_t k = 0; k < fs.size(); ++k) if (fs[k].first == n && get(l[i], d) && d == fs[k].second) ok = true; if (!ok) return true; } return l.size() != fs.size(); }
void exec08(const Plan& plan) {
    def::Model m = def::from_plan(plan); Bank bank(m); if (!bank.get(m.main, 0)) return; vector<TB> tbs; string in; bool useIn = false, badUtf = false, trace = false, verbose = false; Run run; bool hard = false;
    for (size_t i = 0; i < plan.size(); ++i) { const Line& l = plan[i];
        if (l.op == "tests") { TB b; b.lang = l.s(0); tbs.push_back(b); }
        else if (l.op == "test" && !tbs.empty()) { T t; t.kind = l.s(0); t.nt = (int)l.n(1); t.name = l.s(2) == "-" ? "" : l.s(2); t.text = l.s(3); t.missing = l.n(4) != 0; if ((t.kind != "=" && t.kind != "!=" && t.kind != "from") || t.nt < 0 || t.nt > 39 || t.name.size() > 20) continue; if (t.kind != "from") t.missing = false;
            def::Language* L = bank.get(tbs.back().lang, t.nt); if (!L) continue; ref::Syms raw = ref::unutf8(t.text); if (raw.size() > 3000 || ref::utf8(raw) != t.text) continue; bool odd = false; for (size_t k = 0; k < raw.size(); ++k) if (raw[k] == 0 || raw[k] > 0x10ffff || (raw[k] >= 0xd800 && raw[k] < 0xe000)) odd = true; if (odd) continue; raw = ref::utf16(raw); if (!L->nfa.sure(raw)) continue;
            def::Verdict v = def::parse(*L, def::lex(*L, raw)); if (v.accepts < 0) continue; t.pass = (v.accepts == 1) == (t.kind != "!="); t.shown = sim::q(t.text); tbs.back().ts.push_back(t); }
        else if (l.op == "stdin") { in = l.s(0); ref::Syms raw = ref::unutf8(in); badUtf = in.find('\xff') != string::npos || (!in.empty() && (unsigned char)in.back() > 0xc1); useIn = in.size() < 20000 && (badUtf || ref::utf8(raw) == in); for (size_t k = 0; k < raw.size(); ++k) if (!badUtf && (raw[k] == 0 || raw[k] > 0x10ffff || (raw[k] >= 0xd800 && raw[k] < 0xe000))) useIn = false; }
        else if (l.op == "stdin-fails") run.inFail = max(0LL, l.n(0));
        else if (l.op == "stdin-chunks") { for (size_t k = 0; k < l.a.size() && k < 8; ++k) run.inChunks.push_back((int)l.n(k)); }
        else if (l.op == "trace") trace = true;
        else if (l.op == "verbose") verbose = true;
        else if (l.op == "chunk") run.chunk = (int)max(0LL, l.n(0));
        else if (l.op == "fault") { Fault f; f.kind = l.s(0); f.nth = l.n(1); f.act = l.s(2); f.arg = l.n(3); if (f.kind != "read" && f.kind != "open") continue; if (f.act == "fail") hard = true; else if (f.act != "eintr" && f.act != "short") continue; run.faults.push_back(f); } }
    vector<pair<string, string>> fs = def::files(m); disk_init(); string& o = fs[0].second; if (o.empty() || o[o.size() - 1] != '\n') o += "\n"; int nf = 0, total = 0, bad = 0, missing = 0; bool any = false;
    for (size_t b = 0; b < tbs.size(); ++b) { if (!bank.get(tbs[b].lang, 0) && tbs[b].ts.empty()) continue; any = true; map<string, int> ids; o += "test " + tbs[b].lang + " {\n";
        for (size_t k = 0; k < tbs[b].ts.size(); ++k) { T& t = tbs[b].ts[k]; bool cont = k && tbs[b].ts[k - 1].kind == t.kind && tbs[b].ts[k - 1].nt == t.nt && (k & 1); if (!cont) o += "  <N" + to_string(t.nt) + "> " + t.kind + "\n"; string arg = quote(t.text); if (t.kind == "from") { string f = "t" + to_string(nf++) + ".txt"; if (!t.missing) put(f, t.text); arg = quote(f); } t.line = lines(o); o += "    " + (t.name.empty() ? arg : t.name + (k % 3 ? " (" : "(") + arg + ")") + "\n";
            if (t.missing) { ++missing; continue; } string nm = tbs[b].lang + "." + (t.name.empty() ? "<N" + to_string(t.nt) + ">" : t.name); t.full = nm + "." + to_string(++ids[nm]); ++total; if (!t.pass) ++bad; }
        o += "}\n"; }
    if (!any && !useIn) return;
    if (!any) o += "parser P : " + m.main + " { <N0> }\n"; for (size_t i = 0; i < fs.size(); ++i) put(fs[i].first, fs[i].second); if (g_verbose) for (size_t i = 0; i < fs.size(); ++i) printf("--- %s\n%s\n", fs[i].first.c_str(), fs[i].second.c_str()); sample(o.substr(0, 500));
    string src = o.size() < 1500 ? "\n" + o : ""; for (size_t i = 1; i < fs.size(); ++i) if (src.size() + fs[i].second.size() < 2500) src += "\n--- " + fs[i].first + "\n" + fs[i].second;
    run.argv = { "f0.tp" }; if (verbose) run.argv.push_back("--verbose"); if (!any && trace) { run.argv.push_back("-T"); run.argv.push_back("test-trace"); } else run.argv.push_back(any ? "--run-tests" : "--test"); run.in = any ? "" : in; if (any) run.inFail = -1; else if (run.inFail > (long long)in.size()) run.inFail = (long long)in.size(); Result x = run_tool(run); log_ev("code %d fired %llu", x.code, (unsigned long long)x.faultsFired); state(mix((u64)x.code, mix((u64)total * 64 + (u64)bad, x.faultsFired)));
    if (g_verbose) printf("exit %d\n%s\n%s\n", x.code, x.out.c_str(), x.err.c_str());
    if (x.threw || x.crashed) fail("tool-died", "the tool ended abnormally: " + x.what + x.err.substr(0, 200) + src);
    bool disturbed = hard && x.faultsFired; if (disturbed && x.code != 0) { probe("failed-on-read-error"); if (x.err.empty()) fail("silent-failure", "the tool fails without a message"); nontrivial(); return; }
    if (!any && disk_changed(fs)) fail("output-written", "a run that only tests the standard input changed the disk" + src);
    if (!any && (badUtf || run.inFail >= 0)) { nontrivial(); probe(badUtf ? "stdin-not-utf8" : "stdin-read-error"); fault(badUtf ? "stdin-not-utf8" : "stdin-read-error"); if (x.code == 0) fail("wrong-verdict", string("given ") + sim::q(in) + " on its standard input" + (run.inFail >= 0 ? ", which cannot be read after " + to_string(run.inFail) + " bytes" : ", which is not UTF-8") + ", the tool accepts it; " + x.err.substr(0, 200) + src); if (x.err.find("stdin:") == string::npos) fail("silent-failure", "nothing is reported about the standard input: " + x.err.substr(0, 200) + src); return; }
    if (!any) { def::Language* L = bank.get(m.main, 0); ref::Syms u = ref::utf16(ref::unutf8(in)); if (!L->nfa.sure(u)) return; vector<def::Token> ts = def::lex(*L, u); def::Verdict v = def::parse(*L, ts); if (v.accepts < 0) return; probe(v.accepts ? "stdin-accepted" : "stdin-rejected"); nontrivial(); bool acc = x.code == 0; if (acc != (v.accepts == 1)) fail("wrong-verdict", string("given ") + sim::q(in) + " on its standard input, the tool exits with " + to_string(x.code) + "; the text is " + (v.accepts ? "" : "not ") + "a sentence of the language; " + x.err.substr(0, 200) + src);
        if (!acc && x.err.find("stdin:") == string::npos) fail("silent-failure", "the syntax error in the standard input is not reported: " + x.err.substr(0, 200));
        if (!acc && v.shifted <= (int)v.kept.size()) { string at = "stdin:::"; if (v.shifted < (int)v.kept.size()) { ref::PosTrack pt; for (int k = 0; k < ts[v.kept[v.shifted]].off; ++k) pt.eat(u[k]); at = "stdin:" + to_string(pt.p.line + 1) + ":" + to_string(pt.p.col + 1) + ":"; } probe("stdin-error-position"); if (x.err.find(at) == string::npos) fail("wrong-error-position", string("given ") + sim::q(in) + " on its standard input, the first symbol that cannot be there is at " + at + ", the tool says " + x.err.substr(0, 200) + src); }
        return; }
    if (total) nontrivial(); if (tbs.size() > 1) probe("several-blocks");
    // the counts of every block, in order
    vector<string> out = split(x.out); size_t at = 0; auto next = [&](const string& want) { while (at < out.size() && out[at] != want) ++at; return at < out.size() ? (++at, true) : false; };
    for (size_t b = 0; b < tbs.size(); ++b) { if (!bank.get(tbs[b].lang, 0) && tbs[b].ts.empty()) continue; int p = 0, n = 0; bool failed = false; for (size_t k = 0; k < tbs[b].ts.size(); ++k) { T& t = tbs[b].ts[k]; if (t.missing) continue; ++n; if (t.pass) ++p; else failed = true; }
        if (failed || verbose) for (size_t k = 0; k < tbs[b].ts.size(); ++k) { T& t = tbs[b].ts[k]; if (t.missing) continue; string pre = "      " + t.full; while (pre.size() < 60) pre += '.'; probe(t.pass ? "passing-test" : "failing-test"); if (!next(pre + (t.pass ? "ok" : "FAILED"))) fail("wrong-verdict", "test " + t.full + " (" + t.kind + " " + t.shown + ") should " + (t.pass ? "pass" : "fail") + ", but the report says:\n" + x.out.substr(0, 800) + src); }
        string sum = "    " + tbs[b].lang + ": " + to_string(p) + "/" + to_string(n) + " passed"; if (!next(sum)) { string all; for (size_t k = 0; k < tbs[b].ts.size(); ++k) all += "\n" + tbs[b].ts[k].full + " " + tbs[b].ts[k].kind + " " + tbs[b].ts[k].shown + (tbs[b].ts[k].pass ? " passes" : " fails"); fail("wrong-count", "expected \"" + sum + "\", the report says:\n" + x.out.substr(0, 800) + x.err.substr(0, 300) + all + src); } }
    bool ok = !bad && !missing; if ((x.code == 0) != ok) fail("wrong-exit-code", to_string(bad) + " of " + to_string(total) + " tests fail and " + to_string(missing) + " test files are missing, and the exit code is " + to_string(x.code) + "; " + x.err.substr(0, 300) + src);
    // failures are reported where they are
    vector<string> err = split(x.err); for (size_t b = 0; b < tbs.size(); ++b) for (size_t k = 0; k < tbs[b].ts.size(); ++k) { T& t = tbs[b].ts[k]; if (t.kind == "from" || t.missing || t.pass) continue; string pre = "f0.tp:" + to_string(t.line) + ":"; bool f = false; for (size_t e = 0; e < err.size(); ++e) if (err[e].compare(0, pre.size(), pre) == 0 && err[e].find("Test failed") != string::npos) f = true; if (!f) fail("failure-not-located", "no message for the failing test " + t.full + " at line " + to_string(t.line) + ": " + x.err.substr(0, 500) + src); }
    if (ok) for (size_t e = 0; e < err.size(); ++e) if (err[e].find("error") != string::npos) fail("wrong-exit-code", "the exit code is 0 after " + err[e]); if (disturbed) probe("read-error-without-effect");
}
void gen08(Rng& r, Plan& p) {
    Plan d; def::generate(r, d); for (size_t i = 0; i < d.size(); ++i) if (d[i].op != "text") p.push_back(d[i]); def::Model m = def::from_plan(p); Bank bank(m); if (!bank.get(m.main, 0)) return;
    if (r.chance(1, 3)) p.push_back(L("verbose")); auto text = [&](const string& lang, int nt) { def::Language* l = bank.get(lang, nt); return def::text_for(r, startAt(m, nt), *l, gram::gen_sentence(r, l->spec, r.range(3, 40))); };
    if (r.chance(1, 5)) { string t = text(m.main, 0); int f = r.below(8); if (f == 0) { t.insert((size_t)r.below((int)t.size() + 1), "\xff"); } else if (f == 1) t += r.chance(1, 2) ? "\xc3" : "\xe2"; p.push_back(L("stdin").add(t)); if (f == 2) p.push_back(L("stdin-fails").add(r.chance(1, 2) ? (long long)t.size() : (long long)r.below((int)t.size() + 1))); if (r.chance(1, 2)) { Line c("stdin-chunks"); for (int k = r.range(1, 7); k > 0; --k) c.add(r.range(1, 12)); p.push_back(c); } if (r.chance(1, 3)) p.push_back(L("trace")); }
    else { bool allPass = r.chance(1, 2); int nb = r.chance(1, 3) ? r.range(2, 3) : 1; static const char* names[] = { "-", "-", "t", "case-1", "a", "sum", "identifier-test" };
        for (int b = 0; b < nb; ++b) { string lang = m.main; if (b && r.chance(1, 2)) lang = m.langs[r.below((int)m.langs.size())].name; p.push_back(L("tests").add(lang)); for (int k = r.range(0, 6); k > 0; --k) { int nt = r.chance(1, 2) ? 0 : r.below(4); if (!bank.get(lang, nt)) continue; string t = text(lang, nt); def::Language* l = bank.get(lang, nt); int acc = def::parse(*l, def::lex(*l, ref::utf16(ref::unutf8(t)))).accepts; bool neg = acc == 0; if (!allPass && r.chance(1, 4)) neg = !neg; bool from = !neg && r.chance(1, 4); if (from && allPass && acc == 0) from = false; p.push_back(L("test").add(neg ? "!=" : from ? "from" : "=").add(nt).add(names[r.below(7)]).add(t).add(from && !allPass && r.chance(1, 8))); } } }
    if (r.chance(1, 2)) p.push_back(L("chunk").add(r.range(1, 200))); int n = r.below(4); for (int i = 0; i < n; ++i) { int a = r.below(12); p.push_back(L("fault").add(a == 11 ? "open" : "read").add(r.below(a > 9 ? 5 : 40)).add(a > 9 ? "fail" : a < 5 ? "eintr" : "short").add(a > 9 ? (long long)EIO : (long long)r.range(1, 50))); }
}
Reg r08({"C08", "seeded definitions with seeded test blocks (matching, non-matching and from-file tests, several start symbols, languages, blocks and names, missing files) run by the real tool over a simulated disk with short, interrupted and failing reads, and texts parsed from the standard input; report lines, counts, positions and exit code compared with what the definition means", gen08, exec08, 3000, 40000,
    "the whole tool: main, console, every compiler stage, lexers, parsers", "disk, standard input and output behind the system calls"});
}

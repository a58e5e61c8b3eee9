// C13 the generated C++ parser does what the language compiled in memory does.
// Real: the tool (to generate), the generated C++ (lexer tables, parser tables, typed tree), the compiler stages, lexer, parser, syntax pointers.
// Stub: the input devices.  Oracle: the same language compiled in memory, run alone; Earley recognition of the grammar the definition was written from.
#include "simfs.h"
#include "simio.h"
#include "genproj.h"
#include "ref_regex.h"
#include "genlang.h"
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
#include <algorithm>
#include "TameParse/TameParse.h"
#include "TameParse/Compiler/std_console.h"
#include "TameParse/Compiler/parser_stage.h"
#include "TameParse/Compiler/import_stage.h"
#include "TameParse/Compiler/language_builder_stage.h"
#include "TameParse/Compiler/lexer_stage.h"
#include "TameParse/Compiler/lr_parser_stage.h"
using namespace std; using namespace sim;
namespace sim { const LangApi* const* generated_languages(int& n) __attribute__((weak)); }
namespace {
// ---- writing the definition files -----------------------------------------------------------------------------------
struct Style { int named, naming; vector<string> spell; int lit; };
string litFor(int t) { static const char* w[] = { "+", "-", "*", ";", "(", ")", "{", "}", "<<", "->", "=", "==", "!", "@" }; return w[t % 14]; }
// how terminal t is written in the definition and in texts: 0 keyword kT, 1 literal string, 2 lexer symbol with a regular expression
int kindOf(int style, int t, const gram::Spec& s) { if (!s.weak.empty() || s.ignored.count(t)) return 0; int k = (style >> (2 * (t % 8))) & 3; return k == 3 ? 0 : k; }
string termRef(int style, int t, const gram::Spec& s) { for (map<int, int>::const_iterator w = s.weak.begin(); w != s.weak.end(); ++w) if (w->second == t) return "identifier"; int k = kindOf(style, t, s); return k == 1 ? (t % 2 ? "'" + litFor(t) + "'" : "\"" + litFor(t) + "\"") : k == 2 ? "word" + to_string(t) : "k" + to_string(t); }
string termText(int style, int t, const gram::Spec& s, int variant) {
    for (map<int, int>::const_iterator w = s.weak.begin(); w != s.weak.end(); ++w) if (w->second == t) return variant % 3 ? "zz" + string(1, 'a' + variant % 20) : "y"; int k = kindOf(style, t, s); if (k == 1) return litFor(t); if (k == 0) return (s.ignored.count(t) ? "~" : "k") + to_string(t);
    string o(1, (char)('A' + t)); for (int i = variant % 5; i > 0; --i) o += (char)('0' + (variant + i) % 10); return o;
}
string itemRef(int style, const gram::Item& i, const gram::Spec& s, const string& nm, int& k) {
    string tag; if (!nm.empty() && i.k != 'g') { tag = "[" + nm + "i" + to_string(k) + "]"; ++k; }
    if (i.k == 't') return termRef(style, i.id, s) + tag; if (i.k == 'n') return "<N" + to_string(i.id) + ">" + tag; string o; for (size_t q = 0; q < i.sub.size(); ++q) o += (q ? (i.k == 'a' ? " | " : " ") : "") + itemRef(style, i.sub[q], s, i.k == 'g' ? "" : nm, k);
    if (i.k == 'g') return "[=> " + o + "]"; if (i.k == 'a') return "(" + o + ")" + tag; return "(" + o + ")" + (i.k == 'o' ? "?" : i.k == 'r' ? "+" : "*") + tag;
}
string definition(Rng& r, const gram::Spec& s, int style, int naming, const vector<int>& starts, bool inherit, bool block) {
    string o = inherit ? "language B {\n" : "language G {\n"; set<int> strong; for (map<int, int>::const_iterator w = s.weak.begin(); w != s.weak.end(); ++w) strong.insert(w->second);
    string lx; if (!strong.empty()) lx += "    identifier = /[a-z]+[0-9]*/\n"; int T = s.terms(); for (int t = 0; t < T; ++t) if (!strong.count(t) && kindOf(style, t, s) == 2) lx += "    word" + to_string(t) + " = /" + string(1, (char)('A' + t)) + "[0-9]*/\n";
    if (r.chance(1, 3)) lx += "    greek = /[\\u03b1-\\u03c9]+\\u0416?/\n"; if (r.chance(1, 3)) lx += "    accent = /[\xc3\xa0-\xc3\xbc]+/\n"; if (r.chance(1, 4)) lx += "    spare = /%[%a-f]*%/\n"; if (lx.empty()) lx = "    spare = /%[%a-f]*%/\n"; o += "  lexer {\n" + lx + "  }\n";
    o += "  ignore {\n    ws = /[ \\n\\t]+/\n"; for (set<int>::const_iterator i = s.ignored.begin(); i != s.ignored.end(); ++i) o += "    k" + to_string(*i) + " = /~" + to_string(*i) + "/\n"; o += "  }\n";
    string kw, wk; for (int t = 0; t < T; ++t) if (!strong.count(t) && !s.ignored.count(t) && kindOf(style, t, s) == 0) (s.weak.count(t) ? wk : kw) += "    k" + to_string(t) + "\n"; if (!kw.empty()) o += "  keywords {\n" + kw + "  }\n"; if (!wk.empty()) o += "  weak keywords {\n" + wk + "  }\n";
    string more; o += "  grammar {\n"; for (int n = 0; n < s.nts(); ++n) { int last = 0; for (size_t k = 0; k < s.rules.size(); ++k) last += s.rules[k].nt == n; bool first = true; int alt = 0; for (size_t k = 0; k < s.rules.size(); ++k) if (s.rules[k].nt == n) { string b; int at = 0; string nm = naming == 0 ? "" : naming == 1 ? "a" + to_string(alt) : "x"; for (size_t q = 0; q < s.rules[k].items.size(); ++q) b += " " + itemRef(style, s.rules[k].items[q], s, nm, at); if (inherit && alt && alt == last - 1) { more += "    <N" + to_string(n) + "> |=" + b + "\n"; continue; } o += string("    ") + (first ? "<N" + to_string(n) + "> =" : "  |") + b + "\n"; first = false; ++alt; } } o += "  }\n}\n"; if (inherit) o += "language G : B {\n" + (more.empty() ? string() : "  grammar {\n" + more + "  }\n") + "}\n"; if (!block) return o;
    o += "parser P : G {"; for (size_t i = 0; i < starts.size(); ++i) o += " <N" + to_string(starts[i]) + ">"; return o + " }\n";
}
// ---- generating, at build time --------------------------------------------------------------------------------------
string quote(const string& s) { string o = "\""; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c == '\n') o += "\\n"; else if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\%03o", c); o += b; } else o += (char)c; } return o + "\""; }
void spit(const string& f, const string& s) { FILE* h = fopen(f.c_str(), "wb"); if (!h) { perror(f.c_str()); exit(2); } fwrite(s.data(), 1, s.size(), h); fclose(h); }
// the walker: every class the header declares, its members in order
string walker(const string& h, const string& cls) {
    string fwd, body; size_t i = 0; string cur; bool list = false, term = false; vector<string> mem; map<string, bool> known; vector<string> all;
    auto flush = [&]() { if (cur.empty()) return; string full = cls + "::" + cur; fwd += "void walk(const " + full + "* n, Tree& t);\n"; body += "void walk(const " + full + "* n, Tree& t) { "; if (term) body += "leaf(n, t);"; else { body += "branch(n, \"" + cur + "\", t);"; if (list) body += " for (" + full + "::iterator i = n->begin(); i != n->end(); ++i) kid(t, \"\", i->item());"; for (size_t k = 0; k < mem.size(); ++k) body += " kid(t, \"" + mem[k] + "\", n->" + mem[k] + ".item());"; } body += " }\n"; cur.clear(); };
    while (i < h.size()) { size_t e = h.find('\n', i); if (e == string::npos) e = h.size(); string l = h.substr(i, e - i); i = e + 1; size_t a = l.find_first_not_of(' '); if (a == string::npos) continue; l = l.substr(a);
        if (l.compare(0, 6, "class ") == 0 && l.find('{') != string::npos && l.find('}') == string::npos) { flush(); size_t z = l.find_first_of(" :{", 6); string n = l.substr(6, z - 6); list = term = false; mem.clear(); if (n.compare(0, 3, "yy_") == 0 && l.find(": public") != string::npos) { cur = n; term = l.find("public terminal") != string::npos; } continue; }
        if (cur.empty()) continue; if (l.find("add_child(") != string::npos) list = true;
        size_t p = l.find("util::syntax_ptr<"); if (p != string::npos && l.compare(0, 7, "typedef") != 0 && l.find('(') == string::npos && l[l.size() - 1] == ';') { size_t z = l.rfind(' '); mem.push_back(l.substr(z + 1, l.size() - z - 2)); } }
    flush(); return fwd + body;
}
// one run of the tool in a process of its own: a crash or an endless run is a broken source, not a broken build
string slurp(const string& f) { string o; FILE* h = fopen(f.c_str(), "rb"); if (h) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) o.append(b, n); fclose(h); } return o; }
void isolated(const simfs::Run& run, simfs::Result& x, string& h, string& cpp, const string& tmp) {
    for (const char* e : { ".h", ".cpp", ".err" }) unlink((tmp + e).c_str()); fflush(0); pid_t c = fork();
    if (c == 0) { alarm(60); simfs::Result y = simfs::run_tool(run); string a, b; simfs::get("/sim/out.h", a); simfs::get("/sim/out.cpp", b); spit(tmp + ".h", a); spit(tmp + ".cpp", b); spit(tmp + ".err", y.err); _exit(y.code & 255); }
    int st = 0; waitpid(c, &st, 0); x.code = WIFEXITED(st) ? WEXITSTATUS(st) : 255; h = slurp(tmp + ".h"); cpp = slurp(tmp + ".cpp"); x.err = slurp(tmp + ".err"); for (const char* e : { ".h", ".cpp", ".err" }) unlink((tmp + e).c_str());
}
// languages that are always there (the directed plans name them), the rest are generated
const char* FIXED[] = {
    "rule 0 z:n1\nrule 1 g:t0.t1 t0 t1 n2 t2\nrule 1 n2 t2\nrule 1 t5 r:n2 t2\nrule 2 t0\nrule 2 t3 n2 t4\nstyle 18568\nnaming 0\n",
    "rule 0 r:n1 t5\nrule 1 g:t0.t1 t0 n2\nrule 1 t0 n2\nrule 1 t3 t0\nrule 1 n2 t3\nrule 2 t1 t1\nrule 2 t2 t1\nrule 2 t4 t2 r:t4 t6\nstyle 6\nnaming 2\n",
    "rule 0 t0 n1 t1\nrule 0 t0 n1 n1\nrule 1 t2 z:t3 a:t5.t6 t2\nrule 1 t4 g:t5.t2 t5 n1 t3\nrule 1 t4 t5 t3 g:t1\nrule 1 g:t2.t4 t2 t2 n1\nstyle 0\nnaming 1\n" };
int cmdGen(const string& dir, int want) {
    string all = "#include \"genlang.h\"\nnamespace sim {\n", list; int got = 0;
    for (int c = -3; got < want && c < want * 6; ++c) {
        Rng r(hash_str("generated-language") + (u64)c * 7919); bool guards = r.chance(1, 3), weak = r.chance(1, 5); gram::Spec s; Plan fx; if (c < 0) { fx = decode_plan(FIXED[c + 3]); s = gram::from_plan(fx); } else for (int k = 0; k < 40; ++k) { s = gram::gen_spec(r, guards, weak); if (s.check().empty() && s.terms() <= 12 && s.rules.size() <= 14) break; } if (!s.check().empty()) continue; { set<int> st; for (map<int, int>::iterator w = s.weak.begin(); w != s.weak.end(); ++w) st.insert(w->second); if (st.size() > 1) continue; }
        int style = r.below(1 << 16), naming = r.below(3); for (size_t k = 0; k < fx.size(); ++k) { if (fx[k].op == "style") style = (int)fx[k].n(0); if (fx[k].op == "naming") naming = (int)fx[k].n(0); } vector<int> starts(1, 0); bool inherit = false, block = true; if (c >= 0) { Rng q(hash_str("starts") + (u64)c * 104729); for (int k = 1; k < s.nts() && starts.size() < 3; ++k) if (q.chance(1, 3)) starts.push_back(k); if (q.chance(1, 3)) reverse(starts.begin(), starts.end()); inherit = q.chance(1, 2); block = !q.chance(1, 4); } string tp = definition(r, s, style, naming, starts, inherit, block);
        simfs::disk_init(); simfs::put("g.tp", tp); simfs::Run run; run.argv = { "g.tp", "-o", "out", "-C", "c" + to_string(got) }; if (r.chance(1, 3)) { run.argv.push_back("-N"); run.argv.push_back("n"); } if (r.chance(1, 5)) run.argv.push_back("--disable-compact-dfa"); if (r.chance(1, 5)) run.argv.push_back("--disable-merged-dfa"); if (!block) { run.argv.push_back("-L"); run.argv.push_back("G"); for (size_t k = 0; k < starts.size(); ++k) { run.argv.push_back("-S"); run.argv.push_back("<N" + to_string(starts[k]) + ">"); } } bool ns = find(run.argv.begin(), run.argv.end(), string("-N")) != run.argv.end();
        simfs::Result x; string h, cpp; isolated(run, x, h, cpp, dir + "/child"); if (getenv("SIM_DUMP")) fprintf(stderr, "candidate %d exit %d %s\n%s\n", c, x.code, x.err.substr(0, 300).c_str(), tp.c_str()); if (x.code != 0 || h.empty() || cpp.empty()) { if (x.err.find("onflict") != string::npos) continue; }
        string id = to_string(got), nm = "l" + id; spit(dir + "/" + nm + ".tp", tp); spit(dir + "/" + nm + ".h", h); size_t q = cpp.find("\"out.h\""); if (q != string::npos) cpp.replace(q, 7, "\"" + nm + ".h\""); spit(dir + "/" + nm + ".cpp", cpp);
        Plan sp; gram::to_plan(s, sp); sp.push_back(L("style").add(style)); for (size_t k = 0; k < starts.size(); ++k) sp.push_back(L("start").add(starts[k])); for (size_t k = 0; k < run.argv.size(); ++k) sp.push_back(L("opt").add(run.argv[k])); string spec = encode_plan(sp); string cl = (ns ? "yy_n::yy_c" : "yy_c") + to_string(got); bool bad = x.code != 0 || h.empty() || cpp.empty(); string lacks; for (size_t k = tp.find('['); k != string::npos; k = tp.find('[', k + 1)) if ((tp[k + 1] == 'a' || tp[k + 1] == 'x') && k + 2 < tp.size() && (isdigit((unsigned char)tp[k + 2]) || tp[k + 2] == 'i')) { size_t z = tp.find(']', k); string m = tp.substr(k + 1, z - k - 1); if (m.find_first_not_of("axi0123456789") == string::npos && h.find(" yy_" + m + ";") == string::npos) lacks = m; }
        string g = "#include \"genlang.h\"\n#define TP " + quote(tp) + "\n#define SPEC " + quote(spec) + "\n#ifdef BROKEN\nnamespace sim { static LangApi mk() { LangApi a; a.tp = TP; a.spec = SPEC; a.problem = BROKEN; return a; } extern const LangApi lang_" + id + "; const LangApi lang_" + id + " = mk(); }\n#else\n" + (bad ? "#error " + string("no source was generated") : lacks.size() ? "#error the item named " + lacks + " has no member in the generated classes" : "#include \"" + nm + ".cpp\"") + "\nnamespace sim {\n" + walker(h, cl) ;
        string reg; for (size_t k = 0; k < starts.size(); ++k) { string n = to_string(k), sy = "N" + to_string(starts[k]); for (int e = 0; e < 2; ++e) { string f = (e ? "open8_" : "open_") + n; g += "static AstSession* " + f + (e ? "(std::istream& i)" : "(std::wistream& i)") + " { return new AstImpl<" + cl + ", " + cl + "::yy_" + sy + "_n>(" + cl + "::create_yy_" + sy + "(i)); }\n"; reg += string(e ? " a.open8" : " a.open") + ".push_back(" + f + ");"; } }
        g += "static LangApi mk() { LangApi a; a.tp = TP; a.spec = SPEC; a.lexer = &" + cl + "::lexer; a.tables = &" + cl + "::lr_tables; " + reg;
        for (int t = 0; t < s.terms(); ++t) { string ref = termRef(style, t, s); if (ref[0] == 'k' || ref[0] == 'w') g += " a.terms.push_back(std::make_pair(\"" + ref + "\", (int)" + cl + "::t::yy_" + ref + "));"; } for (int n = 0; n < s.nts(); ++n) g += " a.nts.push_back(std::make_pair(\"N" + to_string(n) + "\", (int)" + cl + "::nt::yy_N" + to_string(n) + "));";
        g += " return a; }\nextern const LangApi lang_" + id + "; const LangApi lang_" + id + " = mk();\n}\n#endif\n"; spit(dir + "/glue" + id + ".cpp", g); all += "extern const LangApi lang_" + id + ";\n"; list += (got ? ", &lang_" : "&lang_") + id; ++got;
    }
    all += "static const LangApi* const A[] = { " + list + " };\nconst LangApi* const* generated_languages(int& n) { n = " + to_string(got) + "; return A; }\n}\n"; spit(dir + "/all.cpp", all); printf("%d\n", got); fflush(stdout); return got ? 0 : 2;
}
// ---- the language in memory -----------------------------------------------------------------------------------------
struct Con : compiler::std_console {
    string text; wstring name; wostringstream msg; int worst; vector<wstring> opts; wstring err;
    Con(const string& t, const vector<string>& o) : compiler::std_console(L"g.tp"), text(t), worst(0) { for (size_t i = 0; i < o.size(); ++i) opts.push_back(wstring(o[i].begin(), o[i].end())); }
    compiler::console* clone() const { return 0; }
    void report_error(const compiler::error& e) { if (e.sev() >= compiler::error::sev_error) { worst = e.sev(); err = e.description(); } }
    wostream& message_stream() { return msg; } wostream& verbose_stream() { return msg; } int exit_code() { return worst; }
    wstring get_option(const wstring& n) const { for (size_t i = 0; i < opts.size(); ++i) if (opts[i] == L"--" + n) return L"1"; return L""; }
    istream* open_file(const wstring&) { return new istringstream(text); }
    string real(const string& s) { return s; } wstring real_path(const wstring& p) { return p; }
};
struct Memory {
    Con* con; compiler::console_container* cc; compiler::parser_stage* ps; compiler::import_stage* is; compiler::language_builder_stage* bs; compiler::language_stage* ls; compiler::lexer_stage* lx; compiler::lr_parser_stage* lr;
    Memory(const string& tp, const vector<string>& opts, const vector<int>& starts) {
        Lib lb; con = new Con(tp, opts); cc = new compiler::console_container(con, true); ps = new compiler::parser_stage(*cc, L"g.tp"); ps->compile(); check("parse"); is = new compiler::import_stage(*cc, L"g.tp", ps->definition_file()); is->compile(); check("import"); bs = new compiler::language_builder_stage(*cc, L"g.tp", is); bs->compile(); check("language"); ls = bs->language_with_name(L"G"); if (!ls) { NotLib nl; fail("memory-differs", "the language the tool compiles is not found in memory"); }
        lx = new compiler::lexer_stage(*cc, L"g.tp", ls); lx->compile(); check("lexer"); vector<wstring> sy; for (size_t i = 0; i < starts.size(); ++i) sy.push_back(L"<N" + to_wstring(starts[i]) + L">"); lr = new compiler::lr_parser_stage(*cc, L"g.tp", ls, lx, sy); lr->compile(); check("parser");
    }
    void check(const char* st) { if (con->worst) { string e(con->err.begin(), con->err.end()); NotLib nl; fail("memory-differs", string("the tool generated a parser, but in memory the ") + st + " stage fails: " + e); } }
};
// ---- one parse, with actions that build plain trees ------------------------------------------------------------------
struct PNode { int kind, sym, rule, tok, len; vector<int> kids; };
struct PItem { int id; PItem() : id(-1) {} explicit PItem(int i) : id(i) {} };
struct Trace { vector<PNode> nodes; vector<u64> ev; int toks; Trace() : toks(0) {} };
struct PActions;
typedef lr::parser<PItem, PActions> PParser;
struct PActions {
    Trace& t; dfa::lexeme_stream* s; PActions(Trace& x, dfa::lexeme_stream* y) : t(x), s(y) {} ~PActions() { delete s; }
    dfa::lexeme* read() { dfa::lexeme* l = 0; (*s) >> l; NotLib nl; steps(1); if (l) { ++t.toks; } return l; }
    PItem shift(const dfa::lexeme_container& l) { NotLib nl; PNode n; n.kind = 0; n.rule = -1; n.sym = l->matched(); n.tok = l->pos().offset(); n.len = (int)l->content().size(); u64 h = mix(1, mix((u64)n.sym, mix((u64)n.tok, (u64)n.len))); for (size_t i = 0; i < l->content().size(); ++i) h = mix(h, (u64)(unsigned)l->content()[i]); h = mix(h, mix((u64)l->pos().line(), (u64)l->pos().column())); t.ev.push_back(h); t.nodes.push_back(n); return PItem((int)t.nodes.size() - 1); }
    PItem reduce(int nt, int rule, const PParser::reduce_list& l, const dfa::position& p) { NotLib nl; PNode n; n.kind = 1; n.sym = nt; n.rule = rule; n.tok = p.offset(); n.len = 0; for (size_t i = l.size(); i > 0; --i) n.kids.push_back(l[i - 1].id); t.ev.push_back(mix(2, mix((u64)nt, mix((u64)rule, mix((u64)p.offset(), l.size()))))); t.nodes.push_back(n); return PItem((int)t.nodes.size() - 1); }
};
// canonical text of a tree: named nonterminals and tokens; everything else is flattened, nodes without tokens are dropped
struct Canon { string s; int first, last; };
Canon canonP(const Trace& t, int id, const map<int, string>& cls, const set<pair<int, int>>& guards) {
    const PNode& n = t.nodes[id]; Canon c; c.first = c.last = -1; if (n.kind == 0) { c.s = to_string(n.sym) + "@" + to_string(n.tok) + "+" + to_string(n.len) + " "; c.first = c.last = n.tok; return c; }
    string in; for (size_t i = 0; i < n.kids.size(); ++i) { if (n.kids[i] < 0 || guards.count(make_pair(n.rule, (int)i))) continue; Canon k = canonP(t, n.kids[i], cls, guards); if (k.first < 0) continue; in += k.s; if (c.first < 0) c.first = k.first; c.last = k.last; }
    map<int, string>::const_iterator f = cls.find(n.sym); if (f == cls.end() || c.first < 0) c.s = in; else c.s = f->second + "( " + in + ") "; return c;
}
int nameIndex(const string& m) { size_t i = m.find_last_of('i'); if (m.compare(0, 3, "yy_") || i == string::npos || i + 1 >= m.size() || !isdigit((unsigned char)m[i + 1])) return -1; if (m[3] != 'a' && m[3] != 'x') return -1; return atoi(m.c_str() + i + 1); }
Canon canonT(const Tree& t, bool& misplaced) {
    Canon c; c.first = c.last = -1; if (t.leaf) { c.s = to_string(t.sym) + "@" + to_string(t.tok) + "+" + to_string(t.len) + " "; c.first = c.last = t.tok; if (t.pos != t.tok) misplaced = true; return c; }
    vector<pair<int, Canon>> ks; bool named = true, list = false; for (size_t i = 0; i < t.kids.size(); ++i) { if (t.kids[i].first.empty()) list = true; else if (nameIndex(t.kids[i].first) < 0) named = false; }
    for (size_t i = 0; i < t.kids.size(); ++i) { Canon k = canonT(t.kids[i].second, misplaced); if (k.first < 0) continue; ks.push_back(make_pair(list ? (int)i : named ? nameIndex(t.kids[i].first) : k.first, k)); }
    stable_sort(ks.begin(), ks.end(), [](const pair<int, Canon>& a, const pair<int, Canon>& b) { return a.first < b.first; });
    string in; for (size_t i = 0; i < ks.size(); ++i) { in += ks[i].second.s; if (c.first < 0) c.first = ks[i].second.first; c.last = ks[i].second.last; }
    bool ntc = t.cls.size() > 6 && t.cls.compare(0, 4, "yy_N") == 0 && t.cls.find_first_not_of("0123456789", 4) == t.cls.size() - 2; if (!ntc || c.first < 0) c.s = in; else c.s = t.cls.substr(3, t.cls.size() - 5) + "( " + in + ") ";
    return c;
}
// where pos() may be checked: the chain of first items down to a token
void ends(const Tree& x, int& m, int& e) { if (x.leaf) { m = min(m, x.tok); e = max(e, x.fin); } for (size_t i = 0; i < x.kids.size(); ++i) ends(x.kids[i].second, m, e); }
void token_starts(const Tree& x, set<int>& o) { if (x.leaf) o.insert(x.tok); for (size_t i = 0; i < x.kids.size(); ++i) token_starts(x.kids[i].second, o); }
// a node begins where its first token does; it ends where its last token does, or, if its last items are empty, where the following token begins (nowhere at the end of the text)
string posWrong(const Tree& t, const set<int>& st) {
    if (t.leaf) return ""; int m = 1 << 30, e = -1; ends(t, m, e);
    if (e >= 0 && t.cls.size() && (t.pos != m || (t.fin >= 0 && t.fin < e) || (t.fin > e && (st.lower_bound(e) == st.end() || t.fin > *st.lower_bound(e))))) return t.cls + " covers the tokens from " + to_string(m) + " to " + to_string(e) + ", its position says " + to_string(t.pos) + " to " + to_string(t.fin);
    for (size_t i = 0; i < t.kids.size(); ++i) { string w = posWrong(t.kids[i].second, st); if (w.size()) return w; } return "";
}

// what is left of a tree when elements that occur more than once in a list are kept once (recorded finding: forks of a parser append to the same list)
Tree once(const Tree& t) { Tree o = t; o.kids.clear(); set<string> seen; for (size_t i = 0; i < t.kids.size(); ++i) { Tree k = once(t.kids[i].second); bool m = false; if (t.kids[i].first.empty() && !seen.insert(canonT(k, m).s).second) continue; o.kids.push_back(make_pair(t.kids[i].first, k)); } return o; }

struct Input { Feed feed; unique_ptr<SimBuf<wchar_t>> wb; unique_ptr<SimBuf<char>> cb; unique_ptr<wistream> wis; unique_ptr<istream> cis; bool wide;
    void open(const vector<int>& text, const vector<int>& chunks, bool w) { feed.data = text; feed.chunks = chunks; wide = w; if (w) { wb.reset(new SimBuf<wchar_t>(feed)); wis.reset(new wistream(wb.get())); wis->exceptions(ios::badbit); } else { cb.reset(new SimBuf<char>(feed)); cis.reset(new istream(cb.get())); cis->exceptions(ios::badbit); } }
    dfa::lexeme_stream* lex(const dfa::lexer* l) { return wide ? l->create_stream_from(*wis) : l->create_stream_from(*cis); }
    void clear() { if (wis) wis->clear(); if (cis) cis->clear(); } };
struct TokD { int sym; ref::Syms c; int off, line, col; };
const int CAP = 20000;
void exec13(const Plan& plan) {
    int n = 0; const LangApi* const* A = generated_languages ? generated_languages(n) : 0; if (!n) { fprintf(stderr, "no generated languages are linked\n"); _exit(9); }
    HeapCfg hc; int li = 0; for (size_t i = 0; i < plan.size(); ++i) { if (plan[i].op == "heap") { hc.seed = plan[i].n(0); hc.fill = (int)plan[i].n(1) & 255; hc.reuse = (int)plan[i].n(2) % 3; } if (plan[i].op == "lang") li = (int)(llabs(plan[i].n(0)) % n); }
    heap_begin(hc); const LangApi& A1 = *A[li]; Plan sp = decode_plan(A1.spec); gram::Spec spec = gram::from_plan(sp); int style = 0; vector<string> opts; vector<int> starts; for (size_t i = 0; i < sp.size(); ++i) { if (sp[i].op == "style") style = (int)sp[i].n(0); if (sp[i].op == "opt") opts.push_back(sp[i].s(0)); if (sp[i].op == "start") starts.push_back((int)sp[i].n(0)); }
    sample(string("language ") + to_string(li) + ": " + encode_plan(plan).substr(0, 380)); if (A1.problem) fail("generated-source-broken", string("the source generated for language ") + to_string(li) + " " + A1.problem + "; definition: " + A1.tp);
    if (starts.empty()) starts.push_back(0); Memory mem(A1.tp, opts, starts); map<int, string> cls; map<string, int> ntId;
    { Lib lb; for (int k = 0; k < spec.nts(); ++k) { string nm = "N" + to_string(k); string full = "<" + nm + ">"; int id = mem.ls->grammar()->id_for_nonterminal(wstring(full.begin(), full.end())); NotLib nl; cls[id] = nm; ntId[nm] = id; } }
    for (size_t i = 0; i < A1.nts.size(); ++i) if (ntId[A1.nts[i].first] != A1.nts[i].second) fail("symbol-numbers-differ", "nonterminal " + A1.nts[i].first + " is " + to_string(A1.nts[i].second) + " in the generated class, " + to_string(ntId[A1.nts[i].first]) + " in memory");
    for (size_t i = 0; i < A1.terms.size(); ++i) { int id; { Lib lb; id = mem.ls->terminals()->symbol_for_name(wstring(A1.terms[i].first.begin(), A1.terms[i].first.end())); } if (id != A1.terms[i].second) fail("symbol-numbers-differ", "terminal " + A1.terms[i].first + " is " + to_string(A1.terms[i].second) + " in the generated class, " + to_string(id) + " in memory"); }
    set<pair<int, int>> guards; { Lib lb; const contextfree::grammar& g = *mem.ls->grammar(); for (int k = 0; k < g.max_rule_identifier(); ++k) { const contextfree::rule_container& rc = g.rule_with_identifier(k); NotLib nl; int at = 0; for (contextfree::rule::iterator it = rc->begin(); it != rc->end(); ++it, ++at) if ((*it)->type() == contextfree::item::guard) guards.insert(make_pair(k, at)); } }
    PParser* memP; PParser* genP; { Lib lb; memP = new PParser(*mem.lr->get_tables()); genP = new PParser(*A1.tables); }
    lr::conflict_list cl; bool conflicts; { Lib lb; lr::conflict::find_conflicts(*mem.lr->get_parser(), cl); conflicts = !cl.empty(); cl.clear(); } if (conflicts && gram::has_nullable(gram::lower(spec))) return;   // such parses may be endless (reported as a conflict)
    // texts
    struct Sess { vector<int> text, chunks; bool wide, clean; vector<int> toks; vector<TokD> lexed; Trace tr; vector<int> res; vector<size_t> evAt; bool accepted; string canon; map<size_t, int> faults; bool full; int forks, start; };
    vector<unique_ptr<Sess>> ss;
    for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "text") { unique_ptr<Sess> s(new Sess()); vector<int> t = plan[i].s(1).empty() ? vector<int>() : csv(plan[i].s(1)); Rng r((u64)plan[i].n(2)); s->wide = plan[i].n(3) != 0; s->chunks = csv(plan[i].s(4)); s->clean = true; s->forks = 0; s->start = (int)(llabs(plan[i].n(6)) % (long long)starts.size()); if (s->start) probe("other-start-symbol"); for (size_t k = 0; k < t.size() && k < 3000; ++k) { if (t[k] < 0 || t[k] >= spec.terms()) continue; string w = termText(style, t[k], spec, r.below(60)); s->text.insert(s->text.end(), w.begin(), w.end()); s->text.push_back(r.chance(1, 12) ? '\n' : ' '); if (r.chance(1, 15)) s->text.push_back('\t'); s->toks.push_back(t[k]); } if (!s->text.empty() && plan[i].n(5)) s->text.pop_back(); ss.push_back(move(s)); if (ss.size() >= 5) break; }
    if (ss.empty()) return;
    for (size_t i = 0; i < plan.size(); ++i) { if (plan[i].op == "junk") { Sess& s = *ss[(size_t)(llabs(plan[i].n(0)) % (long long)ss.size())]; int ch = (int)plan[i].n(2); if (!s.wide) ch &= 255; s.text.insert(s.text.begin() + (size_t)(llabs(plan[i].n(1)) % (long long)(s.text.size() + 1)), ch); s.clean = false; } if (plan[i].op == "cut") { Sess& s = *ss[(size_t)(llabs(plan[i].n(0)) % (long long)ss.size())]; s.text.resize((size_t)(llabs(plan[i].n(1)) % (long long)(s.text.size() + 1))); s.clean = false; } if (plan[i].op == "fault") ss[(size_t)(llabs(plan[i].n(0)) % (long long)ss.size())]->faults[(size_t)llabs(plan[i].n(1))] = Feed::THROW; }
    // alone, in memory, undisturbed
    for (size_t i = 0; i < ss.size(); ++i) { Sess& s = *ss[i];
        { Input in; in.open(s.text, vector<int>(), s.wide); dfa::lexeme_stream* ls; { Lib lb; ls = in.lex(mem.lx->get_lexer()); } for (;;) { dfa::lexeme* l = 0; { Lib lb; (*ls) >> l; } if (!l) break; TokD d; d.sym = l->matched(); d.c.assign(l->content().begin(), l->content().end()); d.off = l->pos().offset(); d.line = l->pos().line(); d.col = l->pos().column(); s.lexed.push_back(d); { Lib lb; delete l; } if (s.lexed.size() > 20000) return; } { Lib lb; delete ls; } }
        Input in; in.open(s.text, vector<int>(), s.wide); PParser::state* st; { Lib lb; st = memP->create_parser(new PActions(s.tr, in.lex(mem.lx->get_lexer())), s.start); } s.full = false; for (int k = 0; k < CAP; ++k) { int x; { Lib lb; x = st->process(); } s.res.push_back(x); s.evAt.push_back(s.tr.ev.size()); if (x != lr::parser_result::more) { s.full = true; break; } } if (!s.full) return;
        s.accepted = s.res.back() == lr::parser_result::accept; if (s.accepted) { int root = st->get_item().id; s.canon = canonP(s.tr, root, cls, guards).s; probe("accepted-input"); } else probe("rejected-input"); { Lib lb; delete st; } log_ev("text %zu %s %zu tokens", i, s.accepted ? "accepted" : "rejected", s.lexed.size());
        if (s.clean && !conflicts && !spec.guards && spec.weak.empty()) { vector<int> eff; for (size_t k = 0; k < s.toks.size(); ++k) if (!spec.ignored.count(s.toks[k])) eff.push_back(s.toks[k]); if (eff.size() <= 60) { gram::Earley e = gram::earley(gram::lower(spec, starts[s.start]), eff); if (e.accepts != s.accepted) fail(s.accepted ? "accepts-non-sentence" : "rejects-sentence", "the language as defined " + string(e.accepts ? "contains" : "does not contain") + " this text, the parser compiled from its definition " + (s.accepted ? "accepts" : "rejects") + " it"); probe("checked-against-reference"); } }
        if (s.accepted && s.lexed.size() >= 3) nontrivial();
    }
    // lexers: the generated one, with chunks and faults
    for (size_t i = 0; i < ss.size(); ++i) { Sess& s = *ss[i]; Input in; in.open(s.text, s.chunks, s.wide); in.feed.faults = s.faults; dfa::lexeme_stream* ls; { Lib lb; ls = in.lex(A1.lexer); } size_t at = 0; int io = 0; for (;;) { dfa::lexeme* l = 0; try { Lib lb; (*ls) >> l; } catch (const IoError&) { in.clear(); if (++io > 100) fail("livelock", "read failures kept recurring"); continue; } if (!l) break; steps(1); if (at >= s.lexed.size()) fail("generated-lexer-differs", "the generated lexer produces more tokens than the lexer in memory"); const TokD& d = s.lexed[at]; ref::Syms c(l->content().begin(), l->content().end()); if (l->matched() != d.sym || c != d.c || l->pos().offset() != d.off || l->pos().line() != d.line || l->pos().column() != d.col) fail("generated-lexer-differs", "token " + to_string(at) + " is symbol " + to_string(l->matched()) + " '" + ref::utf8(c) + "' at " + to_string(l->pos().offset()) + " in the generated lexer, symbol " + to_string(d.sym) + " '" + ref::utf8(d.c) + "' at " + to_string(d.off) + " in memory"); ++at; { Lib lb; delete l; } } if (at != s.lexed.size()) fail("generated-lexer-differs", "the generated lexer stops after " + to_string(at) + " tokens of " + to_string(s.lexed.size())); { Lib lb; delete ls; } }
    // parsers: generated tables and the generated tree, interleaved and forked as the plan says
    struct P { int sess; unique_ptr<Input> own; Input* in; Trace* tr; PParser::state* ps; AstSession* as; int k; bool done; int res; size_t evBase; };
    vector<P> ps; vector<unique_ptr<Input>> keepIn; vector<unique_ptr<Trace>> keepTr;
    for (size_t i = 0; i < ss.size(); ++i) for (int a = 0; a < 2; ++a) { P p; p.sess = (int)i; keepIn.push_back(unique_ptr<Input>(new Input())); p.in = keepIn.back().get(); p.in->open(ss[i]->text, ss[i]->chunks, ss[i]->wide); p.in->feed.faults = ss[i]->faults; keepTr.push_back(unique_ptr<Trace>(new Trace())); p.tr = keepTr.back().get(); p.ps = 0; p.as = 0; p.k = 0; p.done = false; p.res = 0; { Lib lb; if (a) p.as = p.in->wide ? A1.open[ss[i]->start](*p.in->wis) : A1.open8[ss[i]->start](*p.in->cis); else p.ps = genP->create_parser(new PActions(*p.tr, p.in->lex(A1.lexer)), ss[i]->start); } ps.push_back(move(p)); }
    int forks = 0; u64 hs = 1;
    auto finish = [&](P& p, bool kept) { Sess& s = *ss[p.sess]; bool acc = p.res == lr::parser_result::accept; if (acc != s.accepted) fail("generated-parser-differs", string("the generated parser ") + (acc ? "accepts" : "rejects") + " a text that the same language in memory " + (s.accepted ? "accepts" : "rejects"));
        if (p.as && acc) { Tree t; bool ok; { Lib lb; if (kept) p.as->keep(); ok = p.as->tree(t); } if (!ok) fail("generated-tree-differs", "the accepted parse did not leave a tree of the start symbol"); bool mis = false; string c = canonT(t, mis).s; if (c != s.canon && s.forks && canonT(once(t), mis).s == s.canon) fail("forks-share-lists", "a parser was forked " + to_string(s.forks) + " times and the forks added their elements to the same list: the typed tree is " + c.substr(0, 300) + ", the parse in memory is " + s.canon.substr(0, 300)); if (c != s.canon) fail("generated-tree-differs", "the typed tree is " + c.substr(0, 300) + ", the parse in memory is " + s.canon.substr(0, 300)); set<int> st; token_starts(t, st); string pw = mis ? "a token of the typed tree is not where the lexer found it" : posWrong(t, st); if (pw.size() && !s.forks) fail("generated-tree-position", pw); log_ev("tree %llu", (unsigned long long)hash_str(c)); probe("typed-tree-checked"); } };
    auto step = [&](P& p) -> bool { if (p.done) return false; Sess& s = *ss[p.sess]; int r; try { Lib lb; r = p.ps ? p.ps->process() : p.as->process(); } catch (const IoError&) { p.in->clear(); probe("retry-after-read-error"); return true; } steps(1); if (p.k >= (int)s.res.size()) fail("generated-parser-differs", "the generated parser takes more steps"); if (r != s.res[p.k]) fail("generated-parser-differs", "step " + to_string(p.k) + " of the generated parser returns " + to_string(r) + ", in memory " + to_string(s.res[p.k]));
        if (p.ps && p.tr && p.evBase != (size_t)-1) { size_t from = p.k ? s.evAt[p.k - 1] : 0, to = s.evAt[p.k]; if (p.tr->ev.size() != to) fail("generated-parser-differs", "step " + to_string(p.k) + " performs " + to_string(p.tr->ev.size() - from) + " actions, in memory " + to_string(to - from)); for (size_t q = from; q < to; ++q) if (p.tr->ev[q] != s.tr.ev[q]) fail("generated-parser-differs", "action " + to_string(q) + " of the generated parser differs from the parser in memory"); }
        ++p.k; p.res = r; if (r != lr::parser_result::more) p.done = true; return true; };
    for (size_t i = 0; i < ps.size(); ++i) ps[i].evBase = 0;
    for (size_t i = 0; i < plan.size(); ++i) { const Line& l = plan[i]; if (l.op != "step" && l.op != "fork" && l.op != "drop") continue; int id = (int)(llabs(l.n(0)) % (long long)ps.size()); sched(mix(hash_str(l.op), (u64)id));
        if (l.op == "step") { for (long long q = max(1LL, l.n(1, 1)); q > 0; --q) if (!step(ps[id])) break; }
        else if (l.op == "fork") { if (!ps[id].as || ps.size() >= 16) continue; P p; p.sess = ps[id].sess; p.in = ps[id].in; p.tr = 0; p.ps = 0; p.k = ps[id].k; p.done = ps[id].done; p.res = ps[id].res; p.evBase = 0; { Lib lb; p.as = ps[id].as->fork(); } ps.push_back(move(p)); ++forks; ++ss[p.sess]->forks; probe("forked-generated-parser"); }
        else if (l.op == "drop") { if (ps.size() < 3) continue; { Lib lb; delete ps[id].ps; delete ps[id].as; } ps.erase(ps.begin() + id); }
        u64 h = (u64)li; for (size_t k = 0; k < ps.size(); ++k) h = mix(h, (u64)ps[k].sess * 7919 + ps[k].k * 2 + (ps[k].as ? 1 : 0)); state(h); hs = mix(hs, h); }
    for (size_t i = 0; i < ps.size(); ++i) { int guard = 0; while (!ps[i].done && ++guard < CAP * 2) step(ps[i]); finish(ps[i], i % 2 == 0); }
    log_ev("end %llu forks %d", (unsigned long long)hs, forks);
    for (size_t i = 0; i < ps.size(); ++i) { Lib lb; delete ps[i].ps; delete ps[i].as; }
}
void gen13(Rng& r, Plan& p) {
    int n = 0; const LangApi* const* A = generated_languages ? generated_languages(n) : 0; if (!n) return; int li = r.below(n); Plan lp = decode_plan(A[li]->spec); gram::Spec s = gram::from_plan(lp); vector<int> starts; for (size_t i = 0; i < lp.size(); ++i) if (lp[i].op == "start") starts.push_back((int)lp[i].n(0)); if (starts.empty()) starts.push_back(0);
    p.push_back(L("heap").add((long long)(r.next() >> 8)).add(r.below(256)).add(r.below(3))); p.push_back(L("lang").add(li)); int ns = r.range(1, 3);
    for (int i = 0; i < ns; ++i) { vector<int> ch; for (int k = r.below(4); k > 0; --k) ch.push_back(r.range(1, 40)); int st = r.below((int)starts.size()); p.push_back(L("text").add(i).add(tocsv(gram::gen_sentence(r, s, r.chance(1, 12) ? r.range(100, 600) : r.range(3, 40), starts[st]))).add((long long)(r.next() >> 8)).add(r.below(2)).add(tocsv(ch)).add(r.below(2)).add(st)); }
    if (r.chance(1, 4)) for (int i = r.range(1, 4); i > 0; --i) { static const int J[] = { '?', '#', 'k', 'Z', '~', '%', 0x3b1, 0x416, 0xe9, 0xff, 0, 0x7f, 0x80, 0x100, 0x2028, 0xffff, 0x10ffff, '+', ';', 0x103b1, 0x10041, 0x1006b, 0x1000e0, 0x10025, 0xd801, 0xdc41 }; p.push_back(L("junk").add(i % ns).add((long long)(r.next() >> 44)).add(J[r.below(26)])); } if (r.chance(1, 8)) p.push_back(L("cut").add(r.below(ns)).add((long long)(r.next() >> 44)));
    if (r.chance(1, 2)) for (int i = r.range(1, 5); i > 0; --i) p.push_back(L("fault").add(r.below(ns)).add(r.below(60)));
    for (int i = r.range(2, 30); i > 0; --i) { int k = r.below(10); if (k < 7) p.push_back(L("step").add(r.below(12)).add(r.chance(1, 3) ? r.range(1, 60) : r.range(1, 4))); else p.push_back(L(k < 9 ? "fork" : "drop").add(r.below(12))); }
}
Reg r13({"C13", "languages generated at build time by the real tool and compiled with g++; texts (sentences, mutated sentences, foreign characters, truncation) delivered in seeded chunks with failing reads to the generated lexer, the generated tables and the generated typed-tree parser, stepped in seeded order and forked; tokens, actions, results and trees compared with the same definition compiled in memory; non-trivial: an accepted text of three or more tokens; distinct by event-log hash", gen13, exec13, 4000, 60000,
    "the tool that generated the sources, the generated C++ (lexer tables, parser tables, tree classes), compiler stages, lexer, parser, syntax pointers", "input devices; the disk during generation"});
}
namespace sim { int gen_command(int argc, char** argv) { return cmdGen(argv[2], atoi(argv[3])); } }

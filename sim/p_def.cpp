// C07 a compiled language is the one its definition files describe.
// Real: the definition parser, imports, language, lexer and parser stages, LALR builder and rewriters, lexers, parsers.
// Stub: the files and the input devices (chunks, interrupted and failing reads).  Oracle: deflang (what the definition means, read off the model the files were written from).
#include "deflang.h"
#include "simio.h"
#include <sstream>
#include <algorithm>
#include "TameParse/TameParse.h"
#include "TameParse/Compiler/std_console.h"
#include "TameParse/Compiler/parser_stage.h"
#include "TameParse/Compiler/import_stage.h"
#include "TameParse/Compiler/language_builder_stage.h"
#include "TameParse/Compiler/lexer_stage.h"
#include "TameParse/Compiler/lr_parser_stage.h"
using namespace std; using namespace sim;
namespace {
wstring W(const string& s) { return wstring(s.begin(), s.end()); }
string N(const wstring& s) { ref::Syms v(s.begin(), s.end()); return ref::utf8(ref::unutf16(v)); }
// a file, read in chunks
struct FileStream : istream { Feed feed; SimBuf<char> sb; FileStream(const string& t, const vector<int>& ch) : istream(0), sb(feed) { for (size_t i = 0; i < t.size(); ++i) feed.data.push_back((unsigned char)t[i]); feed.chunks = ch; rdbuf(&sb); } };
struct Con : compiler::std_console {
    map<string, string> disk; vector<int> chunks; wostringstream msg; int worst; vector<string> errs;
    Con() : compiler::std_console(L"f0.tp"), worst(0) {}
    compiler::console* clone() const { return 0; }
    void report_error(const compiler::error& e) { NotLib nl; if (e.sev() > worst) worst = e.sev(); if (e.sev() >= compiler::error::sev_error) errs.push_back(N(e.filename()) + ":" + to_string(e.pos().line() + 1) + ": " + N(e.identifier()) + " " + N(e.description())); }
    wostream& message_stream() { return msg; } wostream& verbose_stream() { return msg; } int exit_code() { return worst; }
    wstring get_option(const wstring&) const { return L""; }
    istream* open_file(const wstring& f) { NotLib nl; map<string, string>::iterator i = disk.find(N(f)); probe("file-opened"); return i == disk.end() ? 0 : new FileStream(i->second, chunks); }
    string real(const string& s) { return s; } wstring real_path(const wstring& p) { return p; }
};
struct PNode { int kind, sym, rule, tok; vector<int> kids; };
struct PItem { int id; PItem() : id(-1) {} explicit PItem(int i) : id(i) {} };
struct Trace { vector<PNode> nodes; map<int, int> ord; };
struct PActions;
typedef lr::parser<PItem, PActions> PParser;
struct PActions {
    Trace& t; dfa::lexeme_stream* s; PActions(Trace& x, dfa::lexeme_stream* y) : t(x), s(y) {} ~PActions() { delete s; }
    dfa::lexeme* read() { dfa::lexeme* l = 0; (*s) >> l; NotLib nl; steps(1); return l; }
    PItem shift(const dfa::lexeme_container& l) { NotLib nl; PNode n; n.kind = 0; n.rule = -1; n.sym = l->matched(); n.tok = l->pos().offset(); t.nodes.push_back(n); return PItem((int)t.nodes.size() - 1); }
    PItem reduce(int nt, int rule, const PParser::reduce_list& l, const dfa::position&) { NotLib nl; PNode n; n.kind = 1; n.sym = nt; n.rule = rule; n.tok = -1; for (size_t i = l.size(); i > 0; --i) n.kids.push_back(l[i - 1].id); t.nodes.push_back(n); return PItem((int)t.nodes.size() - 1); }
};
void canon(const Trace& t, int id, const map<int, string>& names, const set<pair<int, int>>& guards, string& o) {
    const PNode& n = t.nodes[id]; if (n.kind == 0) { map<int, int>::const_iterator f = t.ord.find(n.tok); o += "#" + (f == t.ord.end() ? string("?") : to_string(f->second)) + " "; return; }
    map<int, string>::const_iterator f = names.find(n.sym); if (f != names.end()) o += f->second + "( "; for (size_t i = 0; i < n.kids.size(); ++i) if (n.kids[i] >= 0 && !guards.count(make_pair(n.rule, (int)i))) canon(t, n.kids[i], names, guards, o); if (f != names.end()) o += ") ";
}
string where(const def::Model& m) { vector<pair<string, string>> f = def::files(m); string o; for (size_t i = 0; i < f.size(); ++i) o += "\n--- " + f[i].first + "\n" + f[i].second; return o; }

struct Input { Feed feed; unique_ptr<SimBuf<wchar_t>> wb; unique_ptr<SimBuf<char>> cb; unique_ptr<wistream> wis; unique_ptr<istream> cis; bool wide;
    void open(const vector<int>& text, const vector<int>& chunks, bool w) { feed.data = text; feed.chunks = chunks; wide = w; if (w) { wb.reset(new SimBuf<wchar_t>(feed)); wis.reset(new wistream(wb.get())); wis->exceptions(ios::badbit); } else { cb.reset(new SimBuf<char>(feed)); cis.reset(new istream(cb.get())); cis->exceptions(ios::badbit); } }
    dfa::lexeme_stream* lex(const dfa::lexer* l) { return wide ? l->create_stream_from(*wis) : l->create_stream_from(*cis); }
    void clear() { if (wis) wis->clear(); if (cis) cis->clear(); } };
void exec07(const Plan& plan) {
    def::Model m = def::from_plan(plan); def::Language L; def::compile(m, m.main, 0, L); if (!L.problem.empty()) return; HeapCfg hc; u64 seed = 1; vector<int> chunks; for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "heap") { hc.seed = plan[i].n(0); hc.fill = (int)plan[i].n(1) & 255; hc.reuse = (int)plan[i].n(2) % 3; seed = mix(hc.seed, 77); if (!plan[i].s(3).empty()) chunks = csv(plan[i].s(3)); }
    vector<pair<string, string>> fs = def::files(m); sample(fs[0].second.substr(0, 400)); heap_begin(hc); Con* con; { Lib lb; con = new Con(); } for (size_t i = 0; i < fs.size(); ++i) con->disk[fs[i].first] = fs[i].second; con->chunks = chunks; if (fs.size() > 1) probe("imported-files"); if (m.langs.size() > 1) probe("inherited");
    string src = g_verbose ? "" : where(m); if (src.size() > 1500) src.resize(1500); if (g_verbose) printf("%s\n", where(m).c_str());
    compiler::console_container* cc; compiler::lexer_stage* lx; compiler::lr_parser_stage* lr; compiler::language_stage* ls = 0; wstring main = W(m.main);
    auto check = [&](const char* st) { NotLib nl; if (con->worst >= compiler::error::sev_error) { fail("valid-definition-rejected", string("the ") + st + " stage reports " + (con->errs.empty() ? "an error" : con->errs[0]) + src); } };
    { Lib lb; cc = new compiler::console_container(con, true); compiler::parser_stage* ps = new compiler::parser_stage(*cc, L"f0.tp"); ps->compile(); check("parse"); compiler::import_stage* is = new compiler::import_stage(*cc, L"f0.tp", ps->definition_file()); is->compile(); check("import"); compiler::language_builder_stage* bs = new compiler::language_builder_stage(*cc, L"f0.tp", is); bs->compile(); check("language"); ls = bs->language_with_name(main); }
    if (!ls) fail("valid-definition-rejected", "language " + m.main + " is not found" + src);
    { Lib lb; lx = new compiler::lexer_stage(*cc, L"f0.tp", ls); lx->compile(); check("lexer"); lr = new compiler::lr_parser_stage(*cc, L"f0.tp", ls, lx, vector<wstring>(1, L"<N0>")); lr->compile(); }
    bool conflicts = false; if (lr->get_parser()) { Lib lb; lr::conflict_list cl; lr::conflict::find_conflicts(*lr->get_parser(), cl); conflicts = !cl.empty(); }
    if (L.conflictSure) { probe(L.rec->status ? "conflict-free" : "with-conflicts"); if (L.rec->status && conflicts) fail("invented-conflict", "the compiler reports a conflict that the definition does not have" + src); if (!L.rec->status && !conflicts) fail("hidden-conflict", "the definition has a conflict its precedences and attributes do not resolve, and the compiler reports none" + src); }
    if (conflicts) { if (!L.res.precs.empty() || L.conflictSure) nontrivial(); } else check("parser"); if (!lr->get_tables() || !lx->get_lexer()) { if (conflicts) return; fail("valid-definition-rejected", "there is no parser" + src); }
    if (L.conflictSure && (!L.res.precs.empty() || !L.res.attr.empty())) probe("resolved-by-precedence-or-attribute"); if (!L.weak.empty() && L.strongSure) probe("weak-symbols");
    map<int, string> names; set<pair<int, int>> guards; map<int, int> symOf;
    { Lib lb; for (int k = 0; k < L.spec.nts(); ++k) { string nm = "N" + to_string(k); int id = ls->grammar()->id_for_nonterminal(W("<" + nm + ">")); NotLib nl; names[id] = nm; }
      const contextfree::grammar& g = *ls->grammar(); for (int k = 0; k < g.max_rule_identifier(); ++k) { const contextfree::rule_container& rc = g.rule_with_identifier(k); NotLib nl; int at = 0; for (contextfree::rule::iterator it = rc->begin(); it != rc->end(); ++it, ++at) if ((*it)->type() == contextfree::item::guard) guards.insert(make_pair(k, at)); } }
    auto nameOf = [&](int sym) -> string { if (sym < 0) return "nothing"; string o; { Lib lb; wstring w = ls->terminals()->name_for_symbol(sym); NotLib nl; o = N(w); } return o; };
    // a name the definition gives is a symbol of the language
    for (map<string, int>::const_iterator i = L.id.begin(); i != L.id.end(); ++i) { ref::Syms v = ref::utf16(ref::unutf8(i->first)); wstring w(v.begin(), v.end()); int s; { Lib lb; s = ls->terminals()->symbol_for_name(w); } if (s < 0) fail("symbol-missing", "symbol " + i->first + " is not in the compiled language" + src); symOf[s] = i->second; }
    PParser* P; { Lib lb; P = new PParser(*lr->get_tables()); }
    struct S { vector<int> text; ref::Syms raw; vector<def::Token> toks; def::Verdict v; Input* in; Trace tr; PParser::state* st; int res, calls; string shown; bool parsed; }; vector<unique_ptr<S>> ss; Rng r(seed);
    for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "text") { unique_ptr<S> s(new S()); s->raw = ref::utf16(ref::unutf8(plan[i].s(0))); if (s->raw.size() > 3000 || !L.nfa.sure(s->raw)) continue; bool wide = plan[i].n(1) != 0; for (size_t k = 0; k < s->raw.size(); ++k) { if (s->raw[k] > 255) wide = true; s->text.push_back(s->raw[k]); }
        s->toks = def::lex(L, s->raw); s->v = def::parse(L, s->toks); s->shown = sim::q(plan[i].s(0)); s->res = lr::parser_result::more; s->calls = 0; s->parsed = !conflicts && !(gram::has_nullable(gram::lower(L.spec)) && false);
        for (size_t k = 0; k < s->v.kept.size(); ++k) s->tr.ord[s->toks[s->v.kept[k]].off] = (int)k;
        // the tokens
        Input in; in.open(s->text, plan[i].s(2).empty() ? vector<int>() : csv(plan[i].s(2)), wide); if (!plan[i].s(3).empty()) { vector<int> f = csv(plan[i].s(3)); for (size_t k = 0; k < f.size(); ++k) in.feed.faults[(size_t)f[k]] = Feed::THROW; }
        dfa::lexeme_stream* st; { Lib lb; st = in.lex(lx->get_lexer()); } size_t at = 0; int io = 0;
        for (;;) { dfa::lexeme* l = 0; try { Lib lb; (*st) >> l; } catch (const IoError&) { in.clear(); probe("retry-after-read-error"); if (++io > 100) fail("lexer-stuck", "a read error does not go away"); continue; } catch (const ios::failure&) { in.clear(); if (++io > 100) fail("lexer-stuck", "a read error does not go away"); continue; } if (!l) break; steps(1);
            int off = l->pos().offset(), len = (int)l->content().size(), sym = l->matched(); { Lib lb; delete l; } if (at >= s->toks.size()) fail("tokens-differ", "after the last token of " + s->shown + " comes another one, at " + to_string(off) + src);
            const def::Token& x = s->toks[at]; bool ign = x.sym >= 0 && L.ignored.count(x.sym); string want = x.sym < 0 ? "nothing" : L.names[x.sym], got = nameOf(sym);
            bool same = off == x.off && len == x.len; if (same && ign) { bool g; { Lib lb; g = ls->ignored_symbols()->count(sym) != 0; } same = g; } else if (same) { same = want == got; if (!same && !L.strongSure && x.sym >= 0 && L.weak.count(x.sym)) same = true; }
            if (!same) fail("tokens-differ", "token " + to_string(at) + " of " + s->shown + " is " + got + " at " + to_string(off) + " of length " + to_string(len) + "; the definition says " + want + (ign ? " (ignored)" : "") + " at " + to_string(x.off) + " of length " + to_string(x.len) + src); ++at; }
        if (at != s->toks.size()) fail("tokens-differ", "the input ends after " + to_string(at) + " of the " + to_string(s->toks.size()) + " tokens of " + s->shown + src); { Lib lb; delete st; } if (at > 2) nontrivial();
        // the parse starts here
        if (s->parsed && L.parseSure && s->v.accepts >= 0) { s->in = new Input(); s->in->open(s->text, plan[i].s(2).empty() ? vector<int>() : csv(plan[i].s(2)), wide); if (!plan[i].s(3).empty()) { vector<int> f = csv(plan[i].s(3)); for (size_t k = 0; k < f.size(); ++k) s->in->feed.faults[(size_t)f[k]] = Feed::THROW; } { Lib lb; s->st = P->create_parser(new PActions(s->tr, s->in->lex(lx->get_lexer()))); } ss.push_back(move(s)); } }
    // all parses at once, in the order the seed says
    size_t left = ss.size(); u64 hs = 1; while (left) { size_t k = (size_t)r.below((int)ss.size()); S& s = *ss[k]; if (s.res != lr::parser_result::more) continue; int n = r.range(1, 12); sched(mix(k, (u64)n)); for (; n > 0 && s.res == lr::parser_result::more; --n) { if (++s.calls > 20000) fail("parser-stuck", "the parser does not come to an end on " + s.shown + src); try { Lib lb; s.res = s.st->process(); } catch (const IoError&) { s.in->clear(); probe("retry-after-read-error"); } catch (const ios::failure&) { s.in->clear(); } } hs = mix(hs, (u64)s.calls); state(hs); if (s.res != lr::parser_result::more) --left; }
    for (size_t k = 0; k < ss.size(); ++k) { S& s = *ss[k]; bool acc = s.res == lr::parser_result::accept; probe(s.v.accepts ? "accepted-input" : "rejected-input"); if (s.toks.size() >= 3) nontrivial();
        if (L.splits && !acc && s.v.accepts == 1) fail("split-weak-rejected", "a weak symbol that matches the texts of several strong symbols is not accepted where the grammar asks for it: " + s.shown + src); if (L.splits) { { Lib lb; delete s.st; } delete s.in; continue; }
        if (acc != (s.v.accepts == 1)) fail(acc ? "wrong-text-accepted" : "right-text-rejected", string("the compiled language ") + (acc ? "accepts " : "rejects ") + s.shown + "; the definition says otherwise" + src);
        if (acc) { string t; canon(s.tr, s.st->get_item().id, names, guards, t); if (t != s.v.tree) fail("tree-differs", "the tree of " + s.shown + " is " + t + "; the definition says " + s.v.tree + src); }
        { Lib lb; delete s.st; } delete s.in; }
    string dmg = heap_check(); if (!dmg.empty()) fail("memory-damaged", dmg); log_ev("end %llu", (unsigned long long)hs);
}
void gen07(Rng& r, Plan& p) { vector<int> ch; for (int z = r.below(4); z > 0; --z) ch.push_back(r.range(1, 60)); p.push_back(sim::L("heap").add((long long)(r.next() >> 8)).add(r.below(256)).add(r.below(3)).add(tocsv(ch))); def::generate(r, p); }
Reg r07({"C07", "seeded definitions (inheritance over files, added and replaced symbols and rules, lexer symbols, case modes, weak symbols, literals, precedences, conflict attributes, comments and layout) compiled from files that are read in chunks; texts lexed and parsed under seeded chunks and read failures, the parses interleaved; conflicts, tokens, verdicts and trees compared with what the definition means", gen07, exec07, 6000, 60000,
    "definition parser, import, language, lexer and parser stages, LALR builder, rewriters, lexers, parsers", "files and input devices"});
}

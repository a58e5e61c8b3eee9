// C01 forked parser states are independent, C02 the session's token buffer, C15 what a parse commits is a derivation of the tokens.
// Real: grammar, LALR builder, rewriters, parser tables, parser, session, states, stack.  Stub: the token source (the plan decides tokens, faults and end).
// Oracles: C01 the same state run alone; C02 demand computed from the lone run; C15 Earley recognition and derivation checking in gram.cpp.
#include "core.h"
#include "simio.h"
#include "gram.h"
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/ebnf_items.h"
#include "TameParse/ContextFree/standard_items.h"
#include "TameParse/ContextFree/guard.h"
#include "TameParse/Lr/lalr_builder.h"
#include "TameParse/Lr/conflict.h"
#include "TameParse/Lr/parser.h"
#include "TameParse/Lr/ast_parser.h"
#include "TameParse/Lr/ignored_symbols.h"
#include "TameParse/Lr/weak_symbols.h"
#include "TameParse/Lr/lr1_rewriter.h"
using namespace std; using namespace sim;
namespace {
enum { CHK_FORK = 1, CHK_TOKENS = 2, CHK_DERIV = 4, CHK_MEM = 8 };
int g_tokLive = 0, g_actLive = 0; bool g_mem = false;       // g_mem: allocations of the library fail now and then (the harness's own never do)
struct Tok : dfa::lexeme { Tok(const symbols& s, const dfa::position& p, int m) : dfa::lexeme(s, p, m) { ++g_tokLive; } Tok(const Tok& o) : dfa::lexeme(o.content(), o.pos(), o.matched()) { ++g_tokLive; } ~Tok() { --g_tokLive; } dfa::lexeme* clone() const { return new Tok(*this); } };
// hash-consed parse results: equal ids mean equal trees
struct Node { int kind, sym, rule, tok; vector<int> kids; bool operator<(const Node& o) const { return tie(kind, sym, rule, tok, kids) < tie(o.kind, o.sym, o.rule, o.tok, o.kids); } };
vector<Node>* g_nodes; map<Node, int>* g_intern;
int intern(const Node& n) { map<Node, int>::iterator f = g_intern->find(n); if (f != g_intern->end()) return f->second; int id = (int)g_nodes->size(); g_nodes->push_back(n); (*g_intern)[n] = id; return id; }
struct Item { int id; Item() : id(-1) {} explicit Item(int i) : id(i) {} };

struct Sess { vector<int> toks; set<int> faults; size_t reads; bool eofSeen; int eofReads; bool closed; vector<u64>* ev; int* delta; bool derr; string err; Sess() : reads(0), eofSeen(false), eofReads(0), closed(false), ev(0), delta(0), derr(false) {} };
struct Actions;
typedef lr::parser<Item, Actions> Parser;
struct Actions {
    Sess& s; Actions(Sess& x) : s(x) { ++g_actLive; } ~Actions() { --g_actLive; s.closed = true; }
    dfa::lexeme* read() {
        NotLib nl; steps(1);
        if (s.closed) fail("read-after-close", "token requested from a session that was released");
        if (s.eofSeen) { fail("read-past-end", "a token was requested after the source had reported its end"); }
        if (s.faults.count((int)s.reads)) { s.faults.erase((int)s.reads); fault("token-read-throws"); throw IoError(); }
        if (s.reads >= s.toks.size()) { s.eofSeen = true; return 0; }
        int i = (int)s.reads++; dfa::lexeme::symbols c; c += 'a' + s.toks[i]; c += (int)i + 1; if (!g_mem) ++g_in_lib; dfa::lexeme* t = new Tok(c, dfa::position(i, i / 7, i % 7), s.toks[i]); if (!g_mem) --g_in_lib; return t;
    }
    Item shift(const dfa::lexeme_container& l) {
        NotLib nl; Node n; n.kind = 0; n.rule = -1; n.sym = -1; n.tok = -1;
        if (l.item()) { n.sym = l->matched(); n.tok = l->pos().offset(); if (n.tok < 0 || n.tok >= (int)s.toks.size()) { s.derr = true; s.err = "shifted a lexeme that is not in the input"; } else { if (l->content().size() != 2 || l->content()[0] != 'a' + s.toks[n.tok] || l->content()[1] != n.tok + 1) { s.derr = true; s.err = "a shifted lexeme has lost its content"; } } }
        int id = intern(n); if (s.ev) s.ev->push_back(mix(1, (u64)id)); if (s.delta) *s.delta += 1; return Item(id);
    }
    Item reduce(int nt, int rule, const Parser::reduce_list& l, const dfa::position& p) {
        NotLib nl; Node n; n.kind = 1; n.sym = nt; n.rule = rule; n.tok = p.offset(); for (size_t i = l.size(); i > 0; --i) n.kids.push_back(l[i - 1].id);
        if (p.offset() >= 0 && (p.line() != p.offset() / 7 || p.column() != p.offset() % 7)) { s.derr = true; s.err = "reduction got a position that no token has"; }
        int id = intern(n); if (s.ev) s.ev->push_back(mix(2, (u64)id)); if (s.delta) *s.delta += 1 - (int)l.size(); return Item(id);
    }
};
struct Built {
    set<pair<int, int>> guardPos;
    gram::Spec spec; gram::Bnf bnf; unique_ptr<contextfree::grammar> g; unique_ptr<contextfree::terminal_dictionary> terms; unique_ptr<lr::lalr_builder> b; unique_ptr<lr::weak_symbols> weak; unique_ptr<Parser> p; bool conflicts;
    vector<int> term; map<int, int> termBack; map<int, int> ntOf;             // terminal index <-> symbol id; nonterminal identifier -> bnf nonterminal
    map<int, string> guardOf;
    contextfree::item_container mk(const gram::Item& i) {
        using namespace contextfree;
        if (i.k == 't') return item_container(new terminal(term[i.id]), true);
        if (i.k == 'n') return g->get_nonterminal(name(i.id));
        if (i.k == 'g') { guard* x = new guard(); for (size_t k = 0; k < i.sub.size(); ++k) (*x->get_rule()) << mk(i.sub[k]); return item_container(x, true); }
        if (i.k == 'a') { ebnf_alternate* x = new ebnf_alternate(); (*x->get_rule()) << mk(i.sub[0]); for (size_t k = 1; k < i.sub.size(); ++k) (*x->add_rule()) << mk(i.sub[k]); return item_container(x, true); }
        ebnf* x = i.k == 'o' ? (ebnf*)new ebnf_optional() : i.k == 'r' ? (ebnf*)new ebnf_repeating() : (ebnf*)new ebnf_repeating_optional();
        for (size_t k = 0; k < i.sub.size(); ++k) (*x->get_rule()) << mk(i.sub[k]); return item_container(x, true);
    }
    static wstring name(int n) { return L"N" + to_wstring(n); }
    void build() {
        using namespace contextfree; Lib lb; NotLib nl; bnf = gram::lower(spec);
        ++g_in_lib;
        g.reset(new grammar()); terms.reset(new terminal_dictionary()); int T = spec.terms(); for (int i = 0; i < T; ++i) { term.push_back(terms->add_symbol(L"t" + to_wstring(i))); termBack[term[i]] = i; }
        int N = spec.nts(); for (int i = 0; i < N; ++i) g->id_for_nonterminal(name(i));
        vector<pair<gram::Item, item_container>> made;
        for (size_t r = 0; r < spec.rules.size(); ++r) { grammar::builder bl = ((*g) += name(spec.rules[r].nt)); for (size_t k = 0; k < spec.rules[r].items.size(); ++k) { item_container ic = mk(spec.rules[r].items[k]); bl << ic; made.push_back(make_pair(spec.rules[r].items[k], ic)); } }
        for (int i = 0; i < N; ++i) ntOf[g->identifier_for_item(g->get_nonterminal(name(i)))] = i;
        for (size_t k = 0; k < made.size(); ++k) { char c = made[k].first.k; if (c == 't' || c == 'n') continue; int id = g->identifier_for_item(made[k].second); if (c == 'g') { guardOf[id] = gram::text(made[k].first); } int s = gram::bnf_symbol(bnf, spec, made[k].first); ntOf[id] = -1 - s; }
        b.reset(new lr::lalr_builder(*g, *terms)); b->add_initial_state(g->get_nonterminal(name(0)));
        if (!spec.ignored.empty()) { lr::ignored_symbols* ig = new lr::ignored_symbols(); lr::action_rewriter_container c(ig, true); for (set<int>::iterator i = spec.ignored.begin(); i != spec.ignored.end(); ++i) ig->add_item(item_container(new terminal(term[*i]), true)); b->add_rewriter(c); }
        if (!spec.weak.empty()) { weak.reset(new lr::weak_symbols(g.get())); map<int, item_set*> bySt; for (map<int, int>::iterator w = spec.weak.begin(); w != spec.weak.end(); ++w) { item_set ws(*g); ws.insert(item_container(new terminal(term[w->first]), true)); weak->add_symbols(item_container(new terminal(term[w->second]), true), ws); } b->add_rewriter(lr::action_rewriter_container(new lr::weak_symbols(*weak), true)); }
        b->complete_parser();
        for (int k = 0; k < g->max_rule_identifier(); ++k) { int at = 0; for (rule::iterator it = g->rule_with_identifier(k)->begin(); it != g->rule_with_identifier(k)->end(); ++it, ++at) if ((*it)->type() == item::guard) guardPos.insert(make_pair(k, at)); }
        lr::conflict_list cl; lr::conflict::find_conflicts(*b, cl); conflicts = !cl.empty();
        p.reset(new Parser(*b, weak.get())); --g_in_lib;
    }
};
struct Step { int result; vector<u64> ev; size_t reads; bool eof; int consumed; u64 stack; int depth; int top; };
u64 stackHash(const Parser::state& st, int depth) { const Parser::stack& s = st.get_stack(); u64 h = 5; int d = depth; for (int i = 0; i < d; ++i) { h = mix(h, (u64)(i == 0 ? s->item.id : s[-i].item.id) + 3); h = mix(h, (u64)(i == 0 ? s->state : s[-i].state)); if (i > 40) i += 6; } return h; }
struct Lone { vector<Step> st; bool full; Step first; };
const int CAP = 9000;
struct World {
    Built g; int chk; 
    Lone lone(const vector<int>& toks, bool lookEach) {
        Lone o; o.full = false; Sess s; s.toks = toks; vector<u64> ev; int depth = 0; s.ev = &ev; s.delta = &depth; Parser::state* st; { Lib lb; st = g.p->create_parser(new Actions(s)); }
        auto cons = [&]() { if (!lookEach) return -1; Lib lb; const dfa::lexeme_container& l = st->look(0); return l.item() ? l->pos().offset() : (int)toks.size(); };
        o.first.depth = 0; o.first.reads = 0; o.first.eof = false; o.first.consumed = cons(); o.first.stack = stackHash(*st, 0); o.first.result = lr::parser_result::more; o.first.top = -1;
        for (int k = 0; k < CAP; ++k) { ev.clear(); Step x; { Lib lb; x.result = st->process(); } steps(1); x.ev = ev; x.reads = s.reads; x.eof = s.eofSeen; x.depth = depth; x.stack = stackHash(*st, depth); x.top = depth > 0 ? st->get_item().id : -1; x.consumed = cons(); o.st.push_back(x); if (x.result != lr::parser_result::more) { o.full = true; break; } }
        if (chk & CHK_DERIV) if (s.derr) fail("wrong-lexeme", s.err);
        { Lib lb; delete st; } if (g_actLive != 0) fail("leak", "the actions object outlived its session"); return o;
    }
};
// the library's own AST and accept-only parsers over the same tables
struct TokStream : dfa::lexeme_stream {
    Sess& s; TokStream(Sess& x) : s(x) { ++g_actLive; } ~TokStream() { --g_actLive; } void set_initial_state(int) {}
    dfa::lexeme_stream& operator>>(dfa::lexeme*& r) { NotLib nl; if (s.faults.count((int)s.reads)) { s.faults.erase((int)s.reads); fault("token-read-throws"); throw IoError(); } if (s.reads >= s.toks.size()) { r = 0; return *this; } int i = (int)s.reads++; dfa::lexeme::symbols c; c += 'a' + s.toks[i]; c += i + 1; ++g_in_lib; r = new Tok(c, dfa::position(i, i / 7, i % 7), s.toks[i]); --g_in_lib; return *this; }
};
void sameTree(const util::astnode_container& root, int id) {
    vector<pair<const util::astnode*, int>> st(1, make_pair(root.item(), id)); size_t visited = 0;
    while (!st.empty()) {
        const util::astnode* a = st.back().first; int nid = st.back().second; st.pop_back(); if (++visited > 300000) return; if (!a || nid < 0) fail("ast-differs", "the AST lacks a node");
        const Node& n = (*g_nodes)[nid];
        if (n.kind == 0) {
            const dfa::lexeme* l = a->lexeme().item(); if (a->children().size() || a->item_identifier() != -1) fail("ast-differs", "the AST has a nonterminal where the parse shifted a token"); if ((l != 0) != (n.tok >= 0)) fail("ast-differs", "a node of the AST has no lexeme");
            if (a->rule() != -1) fail("ast-differs", "the AST node of a token claims to be made by rule " + to_string(a->rule()));
            if (l && (l->matched() != n.sym || l->pos().offset() != n.tok || l->content().size() != 2 || l->content()[1] != n.tok + 1)) fail("ast-differs", "a node of the AST holds another token");
        } else {
            if (a->lexeme().item() || a->item_identifier() != n.sym || a->rule() != n.rule) fail("ast-differs", "a node of the AST is for nonterminal " + to_string(a->item_identifier()) + " rule " + to_string(a->rule()) + "; the parse reduced to " + to_string(n.sym) + " by rule " + to_string(n.rule));
            if (a->children().size() != n.kids.size()) fail("ast-differs", "a node of the AST has " + to_string(a->children().size()) + " children; the parse reduced " + to_string(n.kids.size())); 
            for (size_t k = 0; k < n.kids.size(); ++k) st.push_back(make_pair((*a)[(int)k].item(), n.kids[k]));
        }
    }
}
struct St { Parser::state* p; int sess; int k; bool dead = false; };
struct Rec { Sess s; Lone lone; size_t need; bool needEof; };

void checkAst(World& w, Rec& r, const set<int>& faults) {
    const Step& last = r.lone.st.back(); bool acc = last.result == lr::parser_result::accept; Sess s; s.toks = r.s.toks; s.faults = faults;
    { lr::ast_parser* p; lr::ast_parser::state* st; { Lib lb; p = new lr::ast_parser(&w.g.p->get_tables(), false); st = p->create_parser(new lr::ast_parser_actions(new TokStream(s))); }
      bool got = false; for (int k = 0; k < 60; ++k) { try { Lib lb; got = st->parse(); break; } catch (const IoError&) { probe("retry-after-read-error"); } }
      if (got != acc) fail("ast-differs", string("the AST parser ") + (got ? "accepted" : "rejected") + " an input that the same tables " + (acc ? "accept" : "reject"));
      if (acc) { sameTree(st->get_item(), last.top); probe("ast-compared"); }
      Lib lb; delete st; delete p; }
    Sess s2; s2.toks = r.s.toks; s2.faults = faults; bool got = false;
    { lr::simple_parser* p; lr::simple_parser::state* st; { Lib lb; p = new lr::simple_parser(w.g.p->get_tables()); st = p->create_parser(new lr::simple_parser_actions(new TokStream(s2))); }
      for (int k = 0; k < 60; ++k) { try { Lib lb; got = st->parse(); break; } catch (const IoError&) { } } Lib lb; delete st; delete p; }
    if (got != acc) fail("ast-differs", "the accept-only parser disagrees with the parser over the same tables"); if (g_actLive != 0) fail("leak", "a token stream outlived its parser");
}
// ---- derivation checking ------------------------------------------------------------------------------------------
struct Deriv { World& w; const vector<int>& toks; vector<int> leaves; vector<int> eff; vector<int> effIdx; size_t guardsSeen;
    Deriv(World& x, const vector<int>& t) : w(x), toks(t), guardsSeen(0) { for (size_t i = 0; i < t.size(); ++i) { map<int, int>::iterator f = w.g.termBack.find(t[i]); int k = f == w.g.termBack.end() ? -1 : f->second; if (w.g.spec.ignored.count(k)) continue; eff.push_back(k); effIdx.push_back((int)i); } }
    void guardAt(const string& gk, size_t at) {             // the tokens from here on must match what the guard asks for (weak tokens may stand for their strong symbol: checked only without weak symbols)
        ++guardsSeen; if (!w.g.spec.weak.empty() || eff.size() > 400) return; gram::Item gi; gram::parse_item(gk, gi); gram::Bnf b = w.g.bnf; int nt = (int)b.alts.size(); b.alts.push_back(vector<vector<int>>()); vector<int> body; for (size_t k = 0; k < gi.sub.size(); ++k) body.push_back(gram::bnf_symbol(b, w.g.spec, gi.sub[k])); b.alts[nt].push_back(body);
        size_t len; if (!gram::prefix_match(b, nt, eff, at, len)) fail("guard-not-matched", "the parse went through guard " + gk + " at token " + to_string(at) + " although the tokens that follow do not match it"); probe("guard-passed"); if (len > 8) probe("guard-looked-far-ahead");
    }
    void walk(int root) {
        struct F { int id; size_t k; }; vector<F> st; st.push_back({ root, 0 }); size_t visited = 0;
        while (!st.empty()) { F& f = st.back(); const Node& n = (*g_nodes)[f.id]; if (++visited > 2000000) return;
            if (n.kind == 0) { leaves.push_back(n.tok); st.pop_back(); continue; }
            if (f.k == 0) checkNode(n);
            if (f.k >= n.kids.size()) { st.pop_back(); continue; }
            int kid = n.kids[f.k]; size_t pos = f.k++; string gk = guardChild(n, pos); if (!gk.empty()) { guardAt(gk, leaves.size()); continue; }
            if (kid < 0) fail("not-a-derivation", "a reduction used an item that no action produced"); st.push_back({ kid, 0 }); }
    }
    const vector<vector<int>>& alts(const Node& n) { map<int, int>::iterator f = w.g.ntOf.find(n.sym); if (f == w.g.ntOf.end()) fail("not-a-derivation", "reduction to an unknown nonterminal " + to_string(n.sym)); return w.g.bnf.alts[f->second]; }
    bool isGuardNt(int sym) { if (sym >= 0) return false; for (map<string, int>::iterator i = w.g.bnf.ebnf.begin(); i != w.g.bnf.ebnf.end(); ++i) if (i->second == -1 - sym) return i->first[0] == 'g'; return false; }
    string guardText(int sym) { for (map<string, int>::iterator i = w.g.bnf.ebnf.begin(); i != w.g.bnf.ebnf.end(); ++i) if (i->second == -1 - sym && i->first[0] == 'g') return i->first; return ""; }
    bool fits(const Node& n, const vector<int>& alt) {
        if (alt.size() != n.kids.size()) return false;
        for (size_t i = 0; i < alt.size(); ++i) { int kid = n.kids[i]; if (kid < 0) return false; const Node& c = (*g_nodes)[kid];
            if (isGuardNt(alt[i]) != (w.g.guardPos.count(make_pair(n.rule, (int)i)) != 0)) return false;      // (a guard is not told from a token by what was shifted for it)
            if (isGuardNt(alt[i])) { if (c.kind != 0) return false; continue; }
            if (alt[i] >= 0) { if (c.kind != 0) return false; map<int, int>::iterator f = w.g.termBack.find(c.sym); if (f == w.g.termBack.end() || f->second != alt[i]) return false; }
            else { if (c.kind != 1) return false; map<int, int>::iterator f = w.g.ntOf.find(c.sym); if (f == w.g.ntOf.end() || f->second != -1 - alt[i]) return false; } }
        return true;
    }
    map<const Node*, int> dummy;
    int altFor(const Node& n) { const vector<vector<int>>& a = alts(n); for (size_t i = 0; i < a.size(); ++i) if (fits(n, a[i])) return (int)i; return -1; }
    void checkNode(const Node& n) { if (altFor(n) < 0) { string k; for (size_t i = 0; i < n.kids.size(); ++i) { const Node& c = (*g_nodes)[n.kids[i]]; k += " " + string(c.kind ? "n" : "t") + to_string(c.kind ? w.g.ntOf[c.sym] : w.g.termBack[c.sym]); } fail("not-a-derivation", "reduction to nonterminal " + to_string(w.g.ntOf[n.sym]) + " from" + k + " is no rule of the grammar"); } }
    string guardChild(const Node& n, size_t pos) { int a = altFor(n); if (a < 0) return ""; int s = alts(n)[a][pos]; return isGuardNt(s) ? guardText(s) : ""; }
    void leavesAre(size_t want) {                          // leaves, in order, are exactly the first `want` non-ignored tokens
        if (leaves.size() != want) fail("not-a-derivation", "the parse holds " + to_string(leaves.size()) + " tokens; " + to_string(want) + " were shifted from the input");
        for (size_t i = 0; i < leaves.size(); ++i) if (leaves[i] != effIdx[i]) fail("not-a-derivation", "token " + to_string(i) + " of the parse is input token " + to_string(leaves[i]) + ", expected " + to_string(effIdx[i]));
    }
};
void execP(const Plan& plan, int chk) {
    HeapCfg hc; for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "heap") { hc.seed = plan[i].n(0); hc.fill = (int)plan[i].n(1) & 255; hc.reuse = (int)plan[i].n(2) % 3; }
    heap_begin(hc); sample(encode_plan(plan).substr(0, 420)); g_nodes = new vector<Node>(); g_intern = new map<Node, int>();
    World w; w.chk = chk; w.g.spec = gram::from_plan(plan); string why = w.g.spec.check(); if (!why.empty() || w.g.spec.rules.size() > 40 || w.g.spec.terms() == 0) return;
    w.g.build();
    if ((chk & CHK_DERIV) && !w.g.spec.guards && w.g.spec.weak.empty()) { gram::Bnf b = gram::lower(w.g.spec); int ref = gram::lalr(b); if (ref >= 0) { probe(ref ? "lalr-grammar" : "not-lalr-grammar"); if (ref && w.g.conflicts) fail("invented-conflict", "the builder reports a conflict; the grammar is LALR(1)"); if (!ref && !w.g.conflicts) fail("conflict-missed", "the builder reports no conflict; the grammar is not LALR(1)"); } }
    bool useConf = false; for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "conflicts") useConf = true;
    // Conflicting grammars are used only where every parse is finite by construction: the builder resolves conflicts by preferring to reduce, and with empty productions that may go on for ever, which it does report as a conflict. Looking whether a symbol can be reduced tries every branch of a conflict, so their texts are short.
    if (w.g.conflicts && !w.g.spec.guards) { bool ok = useConf; if (!w.g.spec.weak.empty()) { Built base; base.spec = w.g.spec; base.spec.weak.clear(); base.build(); ok = ok || !base.conflicts; } if (!ok || gram::has_nullable(w.g.bnf)) return; probe("grammar-with-conflicts"); }
    if (w.g.spec.guards && gram::hidden_left_recursion(w.g.bnf)) return;                // (a guard hides the conflict, not the endless parse)
    vector<unique_ptr<Rec>> ss;
    for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "tok") { unique_ptr<Rec> r(new Rec()); vector<int> t = csv(plan[i].s(1)); if (plan[i].s(1).empty()) t.clear(); if (w.g.conflicts && !w.g.spec.guards && t.size() > 14) t.resize(14); for (size_t k = 0; k < t.size(); ++k) r->s.toks.push_back(t[k] >= 0 && t[k] < (int)w.g.term.size() ? w.g.term[t[k]] : -1); ss.push_back(move(r)); }
    if (ss.empty()) return; if (ss.size() > 6) ss.resize(6);
    size_t maxTok = 0; int accepted = 0, rejected = 0;
    for (size_t i = 0; i < ss.size(); ++i) { Rec& r = *ss[i]; maxTok = max(maxTok, r.s.toks.size()); r.lone = w.lone(r.s.toks, false); Lone l2 = w.lone(r.s.toks, true); if (l2.st.size() != r.lone.st.size()) fail("look-changes-parse", "looking at the next token changed the parse"); r.lone.first.consumed = l2.first.consumed; for (size_t k = 0; k < l2.st.size(); ++k) { if (l2.st[k].ev != r.lone.st[k].ev || l2.st[k].result != r.lone.st[k].result) fail("look-changes-parse", "looking at the next token changed the parse"); r.lone.st[k].consumed = l2.st[k].consumed; } if (!r.lone.full) return; if (r.lone.st.back().result == lr::parser_result::accept) ++accepted; else ++rejected; r.need = 0; r.needEof = false; }
    if (accepted) probe("accepted-input"); if (rejected) probe("rejected-input"); if (w.g.spec.guards) probe("grammar-with-guards"); if (!w.g.spec.weak.empty()) probe("grammar-with-weak-symbols"); if (maxTok > 200) probe("long-input");
    if (chk & CHK_DERIV) for (size_t i = 0; i < ss.size(); ++i) {
        Rec& r = *ss[i]; const Step& last = r.lone.st.back(); Deriv d(w, r.s.toks); { set<int> fs; for (size_t k = 0; k < plan.size(); ++k) if (plan[k].op == "fault" && plan[k].n(0) % (long long)ss.size() == (long long)i) fs.insert((int)plan[k].n(1)); checkAst(w, r, fs); }
        if (last.result == lr::parser_result::accept) { if (last.depth != 1) fail("not-a-derivation", "accepted with " + to_string(last.depth) + " entries on the stack"); const Node& n = (*g_nodes)[last.top]; if (n.kind != 1 || w.g.ntOf.count(n.sym) == 0 || w.g.ntOf[n.sym] != 0) fail("not-a-derivation", "accepted without a result for the start symbol"); d.walk(last.top); d.leavesAre(d.eff.size()); log_ev("accept %zu", d.eff.size()); }
        else log_ev("reject after %d", last.consumed);
        if (!w.g.conflicts && !w.g.spec.guards && w.g.spec.weak.empty() && d.eff.size() <= 70) {
            gram::Bnf b = w.g.bnf; b.start = 0; gram::Earley e = gram::earley(b, d.eff); bool acc = last.result == lr::parser_result::accept;
            if (acc != e.accepts) fail(acc ? "accepts-non-sentence" : "rejects-sentence", string("the parser ") + (acc ? "accepted" : "rejected") + " an input that is " + (e.accepts ? "a sentence" : "no sentence") + " of the grammar");
            if (!acc) { int effCons = 0; for (size_t k = 0; k < d.effIdx.size(); ++k) if (d.effIdx[k] < last.consumed) ++effCons; if (effCons != e.viable) fail("error-position", "rejected with " + to_string(effCons) + " tokens shifted; the first token that no sentence continues with is number " + to_string(e.viable)); }
            probe("checked-against-reference");
        }
        if (w.g.spec.guards != !w.g.spec.weak.empty() && d.eff.size() <= 40) {
gram::Recogniser rec(w.g.spec); int sh = 0, ref = rec.accepts(d.eff, sh); bool acc = last.result == lr::parser_result::accept; const char* what = w.g.spec.guards ? "guard" : "weak-symbol";
            if (ref >= 0) { if (ref != (int)acc) fail(string(what) + (acc ? "-accepts-wrongly" : "-rejects-wrongly"), string("the parser ") + (acc ? "accepted" : "rejected") + " the input; with every guard that matches taken, and every weak symbol read as itself only where it can be shifted, it is " + (ref ? "accepted" : "rejected")); int effCons = 0; for (size_t k = 0; k < d.effIdx.size(); ++k) if (d.effIdx[k] < last.consumed) ++effCons; if (!acc && effCons != sh) fail("error-position", "rejected with " + to_string(effCons) + " tokens shifted, expected " + to_string(sh)); probe(w.g.spec.guards ? "guards-checked-against-reference" : "weak-checked-against-reference"); }
        }
        if (d.eff.size() >= 3) nontrivial();
    }
    // ---- forks ----------------------------------------------------------------------------------------------------
    vector<St> st; for (size_t i = 0; i < ss.size(); ++i) { for (size_t k = 0; k < plan.size(); ++k) if (plan[k].op == "fault" && plan[k].n(0) % (long long)ss.size() == (long long)i) ss[i]->s.faults.insert((int)plan[k].n(1)); }
    u64 lib0 = heap_live_lib(); int tok0 = g_tokLive; if ((chk & CHK_TOKENS) && tok0 != 0) fail("leak", to_string(tok0) + " tokens outlived their session");
    for (size_t i = 0; i < ss.size(); ++i) { St s; { Lib lb; s.p = w.g.p->create_parser(new Actions(ss[i]->s)); } s.sess = (int)i; s.k = 0; st.push_back(s); }
    int forks = 0, switches = 0, lastSt = -1, drops = 0; size_t ops = 0; u64 hs = 1;
    auto at = [&](const St& s) -> const Step& { return s.k == 0 ? ss[s.sess]->lone.first : ss[s.sess]->lone.st[min((size_t)s.k, ss[s.sess]->lone.st.size()) - 1]; };
    auto checkReads = [&](Rec& r, size_t lo, const char* what) {
        if (!(chk & CHK_TOKENS)) return;
        if (r.s.reads > r.need) fail("read-too-early", to_string(r.s.reads) + " tokens requested after " + what + "; " + to_string(r.need) + " are needed"); if (r.s.reads < lo) fail("token-skipped", "fewer tokens requested than the parse needs"); if (r.s.eofSeen && !r.needEof) fail("read-too-early", string("the end of the input was asked for before it was needed, after ") + what); };
    long long memAt = -1; int lost = 0; struct Arm { bool on; Arm(long long& at) : on(at >= 0) { if (on) heap_fail_at(at); at = -1; } ~Arm() { if (on) heap_fail_at(-1); } };
    auto oneStep = [&](St& s, int id) -> bool {                 // returns false on an injected read error or a failed allocation
        Rec& r = *ss[s.sess]; const Step& want = r.lone.st[min((size_t)s.k, r.lone.st.size() - 1)]; bool done = s.k >= (int)r.lone.st.size();
        vector<u64> ev; int delta = 0; r.s.ev = &ev; r.s.delta = &delta; int res; bool io = false; if (want.reads > r.need) r.need = want.reads; if (want.eof) r.needEof = true;
        try { Arm arm(memAt); Lib lb; res = s.p->process(); } catch (const IoError&) { io = true; } catch (const bad_alloc&) { r.s.ev = 0; r.s.delta = 0; log_ev("st%d out of memory", id); probe("parse-out-of-memory"); s.dead = true; ++lost; return false; }
        r.s.ev = 0; r.s.delta = 0; steps(1); ++ops;
        if (io) { probe("retry-after-read-error"); if ((chk & CHK_FORK) && !ev.empty()) fail("fault-left-trace", "a step that failed reading a token had already performed an action"); checkReads(r, 0, "a failed read"); log_ev("st%d io", id); return false; }
        log_ev("st%d step %d res %d", id, s.k, res);
        if (chk & (CHK_FORK | CHK_DERIV)) {
            if (res != want.result) fail("fork-diverged", "state " + to_string(id) + " step " + to_string(s.k) + " returned " + to_string(res) + ", alone it returns " + to_string(want.result));
            if (ev != (done ? r.lone.st.back().ev : want.ev)) fail("fork-diverged", "state " + to_string(id) + " step " + to_string(s.k) + " performed different actions from the same parse run alone");
        } else if (res != want.result) fail("fork-diverged", "a parse did not continue as it does alone");
        if (!done) ++s.k;
        if (chk & CHK_FORK) if (stackHash(*s.p, at(s).depth) != at(s).stack) fail("fork-diverged", "state " + to_string(id) + " holds a different stack from the same parse run alone at step " + to_string(s.k));
        checkReads(r, want.reads, "a parse step");
        if ((chk & CHK_TOKENS) && !done) { int before = s.k >= 2 ? r.lone.st[s.k - 2].consumed : r.lone.first.consumed; if (at(s).consumed != before) { long long keep = 0; for (size_t q = 0; q < ss.size(); ++q) { int mn = 1 << 30; bool any = false; for (size_t z = 0; z < st.size(); ++z) if (st[z].sess == (int)q) { any = true; mn = min(mn, at(st[z]).consumed); } if (any) keep += max(0LL, (long long)ss[q]->s.reads - mn); } if (ss.size() == 1 && drops == 0 && g_tokLive > keep + 24) fail("tokens-accumulate", to_string(g_tokLive) + " tokens are kept; only " + to_string(keep) + " can still be seen by a state"); if (ss.size() == 1 && g_tokLive < (long long)r.s.reads - (long long)r.s.toks.size()) fail("token-lost", "a token was released too early"); } }
        return true;
    };
    auto reap = [&]() {                                     // a parse that ran out of memory is given up; the others go on
        for (size_t k = 0; k < st.size();) { if (!st[k].dead) { ++k; continue; } { Lib lb; delete st[k].p; } int se = st[k].sess; st.erase(st.begin() + k); bool any = false; for (size_t q = 0; q < st.size(); ++q) if (st[q].sess == se) any = true; if (any == ss[se]->s.closed) fail(any ? "session-closed-early" : "session-not-closed", "session lifetime does not follow its states"); if (any) probe("others-go-on-after-out-of-memory"); }
    };
    for (size_t i = 0; i < plan.size(); ++i) {
        const Line& l = plan[i]; if (st.empty()) break; if (l.op != "proc" && l.op != "parse" && l.op != "fork" && l.op != "drop" && l.op != "look" && l.op != "can" && l.op != "mem") continue;
        if (l.op == "mem") { if (chk & CHK_MEM) memAt = llabs(l.n(0)); continue; }
        int id = (int)(llabs(l.n(0)) % (long long)st.size()); St& s = st[id]; Rec& r = *ss[s.sess]; sched(mix(hash_str(l.op), (u64)id)); if (lastSt != id) { ++switches; lastSt = id; }
        if (l.op == "proc") { int n = (int)max(1LL, l.n(1, 1)); for (int k = 0; k < n; ++k) { if (!oneStep(st[id], id)) break; if (st[id].k >= (int)r.lone.st.size() && k > 2) break; } }
        else if (l.op == "parse") { Rec& rr = *ss[s.sess]; if (!rr.s.faults.empty()) { for (int g = 0; g < CAP && st[id].k < (int)rr.lone.st.size(); ++g) oneStep(st[id], id); }
            else { rr.need = max(rr.need, rr.lone.st.back().reads); if (rr.lone.st.back().eof) rr.needEof = true; bool ok = false; try { Arm arm(memAt); Lib lb; ok = s.p->parse(); } catch (const bad_alloc&) { s.dead = true; ++lost; probe("parse-out-of-memory"); log_ev("st%d out of memory", id); reap(); continue; } s.k = (int)rr.lone.st.size(); steps(1); log_ev("st%d parse %d", id, (int)ok); if ((chk & CHK_FORK)) { if (ok != (rr.lone.st.back().result == lr::parser_result::accept)) fail("fork-diverged", string("parse() gave ") + (ok ? "accept" : "reject") + ", alone the same parse gives the opposite"); if (stackHash(*s.p, at(s).depth) != at(s).stack) fail("fork-diverged", "parse() left a different stack from the same parse run alone"); } checkReads(rr, rr.lone.st.back().reads, "parse"); } }
        else if (l.op == "fork") { if (st.size() >= 20) continue; St n = s; n.p = 0; try { Arm arm(memAt); Lib lb; n.p = new Parser::state(*s.p); } catch (const bad_alloc&) { } if (!n.p) { probe("fork-out-of-memory"); continue; } st.push_back(n); ++forks; log_ev("fork %d", id); if ((chk & CHK_FORK) && stackHash(*n.p, at(n).depth) != at(n).stack) fail("fork-diverged", "a fresh fork holds a different stack"); }
        else if (l.op == "drop") { { Lib lb; delete s.p; } int se = s.sess; st.erase(st.begin() + id); ++drops; log_ev("drop %d", id); bool any = false; for (size_t k = 0; k < st.size(); ++k) if (st[k].sess == se) any = true; if (any == ss[se]->s.closed) fail(any ? "session-closed-early" : "session-not-closed", any ? "the session was released while a state still uses it" : "the last state went but the session was not released"); }
        else if (l.op == "look") { int off = (int)(llabs(l.n(1)) % 12); int idx = at(s).consumed + off; bool eof = idx >= (int)r.s.toks.size(); r.need = max(r.need, min((size_t)idx + 1, r.s.toks.size())); if (eof) r.needEof = true; bool io = false; int got = -2; try { Arm arm(memAt); Lib lb; const dfa::lexeme_container& c = s.p->look(off); got = c.item() ? c->pos().offset() : -1; } catch (const IoError&) { io = true; } catch (const bad_alloc&) { io = true; probe("look-out-of-memory"); } steps(1); if (io) { probe("retry-after-read-error"); log_ev("look io"); continue; } log_ev("st%d look %d -> %d", id, off, got); if (got != (eof ? -1 : idx)) fail("wrong-token-seen", "state " + to_string(id) + " looking " + to_string(off) + " ahead sees token " + to_string(got) + ", expected " + to_string(eof ? -1 : idx)); checkReads(r, 0, "look"); }
        else if (l.op == "can") { int t = w.g.term[llabs(l.n(1)) % w.g.term.size()]; bool a = false; try { Arm arm(memAt); Lib lb; a = s.p->can_reduce(t); } catch (const bad_alloc&) { probe("query-out-of-memory"); } log_ev("can %d", (int)a); checkReads(r, 0, "can_reduce"); if ((chk & CHK_FORK) && stackHash(*s.p, at(s).depth) != at(s).stack) fail("query-left-trace", "asking whether a symbol can be shifted changed the parse"); }
        reap();
        if (ops % 4 == 0 && (chk & CHK_FORK)) for (size_t k = 0; k < st.size(); ++k) if (stackHash(*st[k].p, at(st[k]).depth) != at(st[k]).stack) fail("fork-diverged", "an idle state's stack changed");
        u64 h = 0; for (size_t k = 0; k < st.size(); ++k) h = mix(h, (u64)st[k].sess * 7919 + st[k].k); state(h); hs = mix(hs, h);
    }
    // every remaining state finishes as it would alone; faults stop here
    memAt = -1; for (size_t i = 0; i < ss.size(); ++i) ss[i]->s.faults.clear();
    for (size_t i = 0; i < st.size(); ++i) { while (st[i].k < (int)ss[st[i].sess]->lone.st.size()) if (!oneStep(st[i], (int)i)) break; oneStep(st[i], (int)i); }
    while (!st.empty()) { size_t k = st.size() & 1 ? 0 : st.size() - 1; { Lib lb; delete st[k].p; } int se = st[k].sess; st.erase(st.begin() + k); bool any = false; for (size_t q = 0; q < st.size(); ++q) if (st[q].sess == se) any = true; if (any == ss[se]->s.closed) fail(any ? "session-closed-early" : "session-not-closed", "session lifetime does not follow its states"); }
    if (g_actLive != 0) fail("session-not-closed", "an actions object was not released"); 
    memAt = -1; if (chk & (CHK_TOKENS | CHK_MEM)) { if (g_tokLive != 0) fail("leak", to_string(g_tokLive) + " tokens remain after every state went"); }
    if (!(chk & CHK_MEM) && heap_live_lib() > lib0) fail("leak", to_string(heap_live_lib() - lib0) + " library blocks remain after every state went");
    if (forks >= 1) probe("forked"); if (forks >= 4) probe("four-or-more-forks"); if (switches > 4) probe("interleaved-states");
    if (!(chk & CHK_DERIV) && maxTok >= 2 && forks >= 1 && switches >= 3) nontrivial();
}
void exec17(const Plan& p) { g_mem = true; execP(p, CHK_FORK | CHK_MEM); g_mem = false; }
void exec1(const Plan& p) { execP(p, CHK_FORK); }
void exec2(const Plan& p) { execP(p, CHK_TOKENS); }
void exec15(const Plan& p) { execP(p, CHK_DERIV); }
void genG(Rng& r, Plan& p, int nsess, bool guards, bool weak, int budget) {
    p.push_back(L("heap").add((long long)(r.next() >> 8)).add(r.below(256)).add(r.below(3)));
    gram::Spec s = gram::gen_spec(r, guards, weak); gram::to_plan(s, p); if (r.chance(1, 6)) p.push_back(L("conflicts"));
    for (int i = 0; i < nsess; ++i) p.push_back(L("tok").add(i).add(tocsv(gram::gen_sentence(r, s, budget))));
}
void ops(Rng& r, Plan& p, int nsess, bool faults, bool looky, int budget) {
    if (faults) { int n = r.range(1, 4); for (int i = 0; i < n; ++i) p.push_back(L("fault").add(r.below(nsess)).add(r.chance(1, 5) ? budget : r.below(max(2, min(budget, 30))))); }
    int n = r.range(8, 90), shape = r.below(4);
    for (int i = 0; i < n; ++i) { int k = r.below(100), f = r.below(64);
        if (k < 50) p.push_back(L("proc").add(f).add(shape == 1 ? r.range(1, 40) : shape == 2 && r.chance(1, 5) ? 500 : r.range(1, 6)));
        else if (k < 64) p.push_back(L("fork").add(f)); else if (k < (looky ? 86 : 72)) p.push_back(L("look").add(f).add(r.below(r.chance(1, 4) ? 12 : 3)));
        else if (k < 90) p.push_back(L("drop").add(f)); else if (k < 93) p.push_back(L("parse").add(f)); else p.push_back(L("can").add(f).add(r.below(8))); }
}
void gen1(Rng& r, Plan& p) { int ns = r.chance(2, 3) ? 1 : r.range(2, 3); int b = r.chance(1, 10) ? r.range(100, 900) : r.range(3, 40); genG(r, p, ns, r.chance(2, 5), r.chance(1, 5), b); ops(r, p, ns, r.chance(1, 3), false, b); }
void gen2(Rng& r, Plan& p) { int ns = r.chance(4, 5) ? 1 : 2; int b = r.chance(1, 5) ? r.range(100, 700) : r.range(3, 40); genG(r, p, ns, r.chance(2, 5), r.chance(1, 6), b); ops(r, p, ns, r.chance(1, 2), true, b); }
// A state runs ahead of a fork that stays behind, so that the tokens the session keeps outgrow their buffer while allocations fail one after the other.
void lag17(Rng& r, Plan& p) { int b = r.range(30, 90); genG(r, p, 1, false, r.chance(1, 6), b); int hold = r.range(2, 10); p.push_back(L("proc").add(0).add(r.range(1, 4))); for (int i = 0; i < hold; ++i) p.push_back(L("fork").add(0));
    for (int g = 0; g < hold; ++g) { p.push_back(L("proc").add(0).add(r.range(5, 70))); for (int i = r.range(4, 16); i > 0; --i) { if (r.chance(2, 3)) p.push_back(L("mem").add(r.below(4))); if (r.chance(1, 3)) p.push_back(L("look").add(0).add(r.below(12))); else p.push_back(L("proc").add(r.chance(1, 12) ? 1 : 0).add(r.range(1, 3))); } } }
void gen17(Rng& r, Plan& p) { if (r.chance(1, 5)) { lag17(r, p); return; } int b = r.chance(1, 10) ? r.range(100, 400) : r.range(3, 40); genG(r, p, r.chance(3, 4) ? 1 : 2, r.chance(2, 5), r.chance(1, 4), b); Plan q; ops(r, q, 1, false, true, b); int den = r.pick(vector<int>{2, 4, 10}); for (size_t i = 0; i < q.size(); ++i) { if (r.chance(1, den)) p.push_back(L("mem").add(r.below(r.chance(1, 4) ? 40 : 5))); if (q[i].op == "proc" && r.chance(1, 3)) q[i].a[1] = "1"; p.push_back(q[i]); if (r.chance(1, 9)) p.push_back(L("fork").add(r.below(9))); } }
void gen15(Rng& r, Plan& p) { int ns = r.range(2, 6); int b = r.chance(1, 12) ? r.range(100, 900) : r.range(3, 40); genG(r, p, ns, r.chance(1, 3), r.chance(1, 6), b);
    if (r.chance(2, 3)) { for (int i = r.range(1, 5); i > 0; --i) p.push_back(L("fault").add(r.below(ns)).add(r.below(max(2, min(b, 30))))); for (int i = r.range(2, 10); i > 0; --i) p.push_back(L(r.chance(1, 8) ? "fork" : "proc").add(r.below(16)).add(r.chance(1, 2) ? 1000 : r.range(1, 30))); } }
const char* REAL = "grammar, EBNF items, LALR builder, ignored/weak rewriters, conflict finder, parser tables, parser, session, states, guard evaluation, parser stack, lexeme containers";
const char* STUB = "token source and parser actions (the plan decides tokens, read failures and the end of input)";
Reg r1({"C01", "seeded interleavings of process/parse/look/can_reduce/fork/destroy over up to 20 states of up to 3 sessions of one parser (generated and template grammars, guards, weak and ignored symbols), with failing reads; every step compared with the same parse run alone; non-trivial: at least one fork, three switches between states and two tokens; distinct by event-log hash", gen1, exec1, 12000, 150000, REAL, STUB});
Reg r2({"C02", "as C01 with slow and fast states, look-ahead queries and long inputs; the number of tokens requested after every operation must equal the demand of the lone runs, and live tokens must stay within what some state can still see; non-trivial: at least one fork, three switches and two tokens; distinct by event-log hash", gen2, exec2, 12000, 150000, REAL, STUB});
Reg r15({"C15", "generated grammars (templates, random rules, guards, weak and ignored symbols) and token streams ending early, mutated or failing to read; the committed result is checked to be a derivation of exactly the tokens delivered, and for conflict-free grammars acceptance and error position are compared with Earley recognition; non-trivial: three or more tokens; distinct by event-log hash", gen15, exec15, 12000, 150000, REAL, STUB});
}
namespace sim { void exec_parse_mem(const Plan& p) { exec17(p); } void gen_parse_mem(Rng& r, Plan& p) { gen17(r, p); } }

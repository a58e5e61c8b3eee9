#include "deflang.h"
#include "simio.h"
#include <algorithm>
namespace def {
static gram::Item item_of(const string& s, char& attr, bool& ok) { gram::Item x; string t = s; attr = 0; if (t.size() > 2 && t[t.size() - 2] == '!') { attr = t[t.size() - 1]; t.resize(t.size() - 2); } ok = gram::parse_item(t, x) && (!attr || attr == 's' || attr == 'r'); return x; }
static Alt alt_of(const Line& l, size_t from, bool& ok) { Alt a; ok = true; for (size_t k = from; k < l.a.size(); ++k) { char at; bool good; gram::Item x = item_of(l.a[k], at, good); if (!good) { ok = false; return a; } if (at) a.attr[(int)a.items.size()] = at; a.items.push_back(x); } return a; }
Model from_plan(const Plan& p) {
    Model m; Prod* prod = 0;
    for (size_t i = 0; i < p.size(); ++i) { const Line& l = p[i]; Block* b = m.langs.empty() || m.langs.back().blocks.empty() ? 0 : &m.langs.back().blocks.back();
        if (l.op == "term" && l.n(0) >= 0 && l.n(0) < 40) m.terms[(int)l.n(0)] = l.s(1);
        else if (l.op == "splits") m.splits = true; else if (l.op == "style") m.style = (u64)l.n(0); else if (l.op == "main") m.main = l.s(0);
        else if (l.op == "lang") { Lang x; x.name = l.s(0); x.base = l.s(1) == "-" ? "" : l.s(1); x.file = (int)(llabs(l.n(2)) % 4); m.langs.push_back(x); prod = 0; if (x.file + 1 > m.files) m.files = x.file + 1; }
        else if (l.op == "block" && !m.langs.empty()) { Block x; x.type = l.s(0).empty() || !strchr("skligp", l.s(0)[0]) ? 's' : l.s(0)[0]; x.weak = l.n(1) != 0 && (x.type == 'k' || x.type == 'l'); x.cs = x.type == 'i' ? 0 : (int)(llabs(l.n(2)) % 3); m.langs.back().blocks.push_back(x); prod = 0; }
        else if (l.op == "sym" && b && strchr("skli", b->type) && l.a.size() >= 4 && !l.s(0).empty() && !l.s(1).empty() && !l.s(2).empty()) { Sym x; x.name = l.s(0); x.op = l.s(1)[0]; x.p.kind = l.s(2)[0]; x.p.t = l.s(3); b->syms.push_back(x); }
        else if (l.op == "prod" && b && b->type == 'g' && l.n(0) >= 0 && l.n(0) < 40 && !l.s(1).empty()) { Prod x; x.nt = (int)l.n(0); x.op = l.s(1)[0]; bool ok; Alt a = alt_of(l, 2, ok); if (ok) x.alts.push_back(a); else { prod = 0; continue; } b->prods.push_back(x); prod = &b->prods.back(); }
        else if (l.op == "alt" && prod) { bool ok; Alt a = alt_of(l, 0, ok); if (ok) prod->alts.push_back(a); }
        else if (l.op == "prec" && b && b->type == 'p') { Prec x; x.assoc = (int)(llabs(l.n(0)) % 3); for (size_t k = 1; k < l.a.size(); ++k) x.terms.push_back((int)l.n(k)); b->precs.push_back(x); }
    }
    return m;
}
static void add_items(Line& l, const Alt& a) { for (size_t k = 0; k < a.items.size(); ++k) { map<int, char>::const_iterator f = a.attr.find((int)k); l.add(gram::text(a.items[k]) + (f != a.attr.end() ? string("!") + f->second : "")); } }
void to_plan(const Model& m, Plan& p) {
    p.push_back(L("style").add((long long)(m.style >> 8))); p.push_back(L("main").add(m.main)); for (map<int, string>::const_iterator t = m.terms.begin(); t != m.terms.end(); ++t) p.push_back(L("term").add(t->first).add(t->second));
    for (size_t i = 0; i < m.langs.size(); ++i) { const Lang& g = m.langs[i]; p.push_back(L("lang").add(g.name).add(g.base.empty() ? "-" : g.base).add(g.file));
        for (size_t k = 0; k < g.blocks.size(); ++k) { const Block& b = g.blocks[k]; p.push_back(L("block").add(string(1, b.type)).add(b.weak).add(b.cs));
            for (size_t q = 0; q < b.syms.size(); ++q) p.push_back(L("sym").add(b.syms[q].name).add(string(1, b.syms[q].op)).add(string(1, b.syms[q].p.kind)).add(b.syms[q].p.t));
            for (size_t q = 0; q < b.prods.size(); ++q) { Line l("prod"); l.add(b.prods[q].nt).add(string(1, b.prods[q].op)); for (size_t z = 0; z < b.prods[q].alts.size(); ++z) { if (z) l = Line("alt"); add_items(l, b.prods[q].alts[z]); p.push_back(l); } }
            for (size_t q = 0; q < b.precs.size(); ++q) { Line l("prec"); l.add(b.precs[q].assoc); for (size_t z = 0; z < b.precs[q].terms.size(); ++z) l.add(b.precs[q].terms[z]); p.push_back(l); } } }
}
// ---- the definition files -------------------------------------------------------------------------------------------
static string esc(const string& s, char quote) { string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\n') o += "\\n"; else if (s[i] == '\t') o += "\\t"; else if (s[i] == '\r') o += "\\r"; else if (s[i] == '\a') o += "\\a"; else if (s[i] == '\f') o += "\\f"; else if (s[i] == 27) o += "\\e"; else { if (s[i] == quote || s[i] == '\\') o += '\\'; o += s[i]; } } return o; }
static string pat_text(const Pat& p) { return p.kind == 'r' ? "/" + p.t + "/" : p.kind == 's' ? "\"" + esc(p.t, '"') + "\"" : "'" + esc(p.t, '\'') + "'"; }
struct Writer { Rng r; bool plain; string o; int depth; Writer(u64 s) : r(s), plain(s == 0), depth(0) {}
    void sp() { if (plain) { o += ' '; return; } int k = r.below(40); if (k == 0) { static const char* c[] = { " /* a * b\n | = } */ ", " /** a **/ ", "/***/ ", " /*/ x /*/ ", "/**/ ", " /* ** / * /* ****/ " }; o += c[r.below(6)]; } else if (k == 1) o += " // ' \" { [\n\t"; else if (k < 4) o += "\n    "; else if (k < 6) o += "\t "; else o += " "; }
    void opt() { if (plain || r.chance(2, 3)) sp(); }
    void nl() { o += "\n"; for (int i = 0; i < depth; ++i) o += "  "; }
    void term(const Model& m, int t) { map<int, string>::const_iterator f = m.terms.find(t); o += f == m.terms.end() ? "undefined" : f->second; }
    void item(const Model& m, const gram::Item& i) {
        if (i.k == 't') { term(m, i.id); return; } if (i.k == 'n') { o += "<N" + to_string(i.id) + ">"; return; }
        if (i.k == 'g') o += "[=>"; else if (i.sub.size() == 1 && i.k != 'a' && r.chance(1, 2)) { item(m, i.sub[0]); sp(); o += i.k == 'o' ? "?" : i.k == 'r' ? "+" : "*"; return; } else o += "("; opt();
        for (size_t q = 0; q < i.sub.size(); ++q) { if (q) { sp(); if (i.k == 'a') { o += "|"; sp(); } } item(m, i.sub[q]); } sp(); o += i.k == 'g' ? "]" : i.k == 'a' ? ")" : i.k == 'o' ? ")?" : i.k == 'r' ? ")+" : ")*"; }
};
static string dequote(const string& s) { string o; for (size_t i = 1; i + 1 < s.size(); ++i) { if (s[i] == '\\' && i + 2 < s.size()) { ++i; switch (s[i]) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'a': o += '\a'; break; case 'f': o += '\f'; break; case 'e': o += 27; break; default: o += s[i]; } } else o += s[i]; } return o; }
string content(const string& ref) { return ref.size() > 1 && (ref[0] == '"' || ref[0] == '\'') ? dequote(ref) : ref; }
vector<pair<string, string>> files(const Model& m) {
    vector<pair<string, string>> out; for (int f = 0; f < m.files; ++f) {
        Writer w(m.style ? mix(m.style, (u64)f) | 1 : 0); set<int> imp; for (size_t i = 0; i < m.langs.size(); ++i) if (m.langs[i].file != f && (f == 0 || m.langs[i].file > f)) imp.insert(m.langs[i].file);
        bool late = !w.plain && w.r.chance(1, 3); string im; for (set<int>::iterator i = imp.begin(); i != imp.end(); ++i) im += "import \"f" + to_string(*i) + ".tp\"\n"; if (!late) w.o += im; if (!w.plain && w.r.chance(1, 3)) w.o += "// generated definition\n\n";
        for (size_t g = 0; g < m.langs.size(); ++g) { const Lang& l = m.langs[g]; if (l.file != f) continue; w.o += "language"; w.sp(); w.o += l.name; if (!l.base.empty()) { w.sp(); w.o += ":"; w.opt(); w.o += l.base; } w.sp(); w.o += "{"; w.depth = 1;
            for (size_t k = 0; k < l.blocks.size(); ++k) { const Block& b = l.blocks[k]; w.nl(); const char* cs = b.cs == 1 ? "case insensitive" : "case sensitive"; bool first = w.r.chance(1, 2); if (b.weak && first) { w.o += "weak"; w.sp(); } if (b.cs) { w.o += cs; w.sp(); } if (b.weak && !first) { w.o += "weak"; w.sp(); }
                w.o += b.type == 's' ? "lexer-symbols" : b.type == 'k' ? "keywords" : b.type == 'l' ? "lexer" : b.type == 'i' ? "ignore" : b.type == 'g' ? "grammar" : "precedence"; w.sp(); w.o += "{"; w.depth = 2;
                for (size_t q = 0; q < b.syms.size(); ++q) { const Sym& s = b.syms[q]; w.nl(); if (s.op == 'R') { w.o += "replace"; w.sp(); } w.o += s.name; if (s.p.kind == 'n') continue; w.sp(); w.o += s.op == '+' ? "|=" : "="; w.opt(); w.o += pat_text(s.p); }
                for (size_t q = 0; q < b.prods.size(); ++q) { const Prod& d = b.prods[q]; w.nl(); if (d.op == 'R') { w.o += "replace"; w.sp(); } w.o += "<N" + to_string(d.nt) + ">"; w.sp(); w.o += d.op == '+' ? "|=" : "="; w.depth = 3;
                    for (size_t z = 0; z < d.alts.size(); ++z) { if (z) { w.nl(); w.o += "|"; } for (size_t y = 0; y < d.alts[z].items.size(); ++y) { w.sp(); w.item(m, d.alts[z].items[y]); map<int, char>::const_iterator at = d.alts[z].attr.find((int)y); if (at != d.alts[z].attr.end()) { w.o += "[conflict"; w.opt(); w.o += at->second == 's' ? "= shift]" : "=reduce]"; } else if (!w.plain && d.alts[z].items[y].k != 'g' && w.r.chance(1, 12)) w.o += "[item" + to_string(w.r.below(4)) + "]"; } } w.depth = 2; }
                for (size_t q = 0; q < b.precs.size(); ++q) { w.nl(); static const char* A[] = { "left", "right", "non-assoc", "non-associative" }; w.o += A[b.precs[q].assoc == 2 ? 2 + w.r.below(2) : b.precs[q].assoc]; w.sp(); bool br = b.precs[q].terms.size() != 1 || w.r.chance(1, 2); if (br) { w.o += "{"; w.sp(); } for (size_t z = 0; z < b.precs[q].terms.size(); ++z) { w.term(m, b.precs[q].terms[z]); w.sp(); } if (br) w.o += "}"; }
                w.depth = 1; w.nl(); w.o += "}"; }
            w.depth = 0; w.nl(); w.o += "}"; w.nl(); }
        if (late) w.o += im; out.push_back(make_pair("f" + to_string(f) + ".tp", w.o)); }
    return out;
}
// ---- what they mean ---------------------------------------------------------------------------------------------------
static bool add_pat(ref::Nfa& n, const Entry& e, int acc) { ref::Syms t = ref::unutf8(e.p.t); return e.p.kind == 'r' ? n.addRegex(t, acc, e.cs == 1) : n.addLiteral(ref::utf16(t), acc, e.cs == 1); }
static int prio(char type) { return type == 'k' ? 0 : type == 'l' ? 1 : 2; }
static void each_term(const gram::Item& i, function<void(int)> f) { if (i.k == 't') f(i.id); for (size_t k = 0; k < i.sub.size(); ++k) each_term(i.sub[k], f); }
static bool ident(const string& s) { if (s.empty() || !(isalpha((unsigned char)s[0]) || s[0] == '_' || s[0] == '-')) return false; for (size_t i = 0; i < s.size(); ++i) if (!isalnum((unsigned char)s[i]) && s[i] != '_' && s[i] != '-') return false; return true; }
static void build(const Model& m, const string& name, Language& o, int depth) {
    const Lang* l = 0; for (size_t i = 0; i < m.langs.size(); ++i) if (m.langs[i].name == name) { if (l) { o.problem = "two languages of one name"; return; } l = &m.langs[i]; }
    if (!l || depth > 6 || !ident(name)) { o.problem = "no such language"; return; } if (!l->base.empty()) { build(m, l->base, o, depth + 1); if (!o.problem.empty()) return; }
    auto bad = [&](const string& w) { if (o.problem.empty()) o.problem = w; };
    for (size_t k = 0; k < l->blocks.size(); ++k) { const Block& b = l->blocks[k]; if (b.type != 's') continue; for (size_t q = 0; q < b.syms.size(); ++q) { const Sym& s = b.syms[q]; vector<ref::Nfa::Expr>& v = o.exprs[s.name]; if (!ident(s.name)) bad("name"); if (s.p.kind == 'n' || (s.op == '=') != v.empty()) bad("lexer symbol " + s.name); if (s.op == 'R') v.clear(); ref::Nfa::Expr e; e.t = ref::unutf8(s.p.t); e.lit = s.p.kind != 'r'; e.cs = b.cs; v.push_back(e); } }
    for (int weak = 1; weak >= 0; --weak) for (const char* ty = "kli"; *ty; ++ty) for (size_t k = 0; k < l->blocks.size(); ++k) { const Block& b = l->blocks[k]; if (b.type != *ty || b.weak != (weak != 0)) continue;
        for (size_t q = 0; q < b.syms.size(); ++q) { const Sym& s = b.syms[q]; bool had = o.id.count(s.name) != 0; if (!ident(s.name)) bad("name"); if ((s.op == '=') == had) { bad("symbol " + s.name); return; } if (s.p.kind == 'n' && (s.op != '=' || b.type == 'l')) bad("bare name"); if (!had) { o.id[s.name] = (int)o.names.size(); o.names.push_back(s.name); } int id = o.id[s.name];
            if (had && (o.type[id] != b.type || o.isWeak[id] != b.weak)) bad("changes the kind of " + s.name); if (s.op == 'R') o.defs[s.name].clear(); o.type[id] = b.type; o.isWeak[id] = b.weak; Entry e; e.p = s.p; if (e.p.kind == 'n') e.p.t = s.name; e.cs = b.cs; e.id = id; e.type = b.type; e.weak = b.weak; o.defs[s.name].push_back(e); if (b.weak) o.weak.insert(id); if (b.type == 'i') o.ignored.insert(id); } }
    for (size_t k = 0; k < l->blocks.size(); ++k) for (size_t q = 0; q < l->blocks[k].prods.size(); ++q) { const Prod& d = l->blocks[k].prods[q]; for (size_t z = 0; z < d.alts.size(); ++z) for (size_t y = 0; y < d.alts[z].items.size(); ++y) each_term(d.alts[z].items[y], [&](int t) { map<int, string>::const_iterator f = m.terms.find(t); if (f == m.terms.end() || f->second.empty()) { bad("unnamed terminal"); return; } const string& nm = f->second; if (o.id.count(nm)) return;
        int id = (int)o.names.size(); o.id[nm] = id; o.names.push_back(nm); Entry e; e.p.kind = 's'; e.p.t = content(nm); e.cs = 0; e.id = id; e.type = 'k'; e.weak = true; o.type[id] = 'k'; o.isWeak[id] = true; o.defs[nm].push_back(e); o.weak.insert(id); }); }
    for (size_t k = 0; k < l->blocks.size(); ++k) { const Block& b = l->blocks[k]; for (size_t q = 0; q < b.prods.size(); ++q) { const Prod& d = b.prods[q]; vector<Alt>& v = o.rules[d.nt]; if ((d.op == '=') != v.empty()) bad("nonterminal " + to_string(d.nt)); if (d.op == 'R') v.clear(); v.insert(v.end(), d.alts.begin(), d.alts.end()); }
        if (b.type == 'p') { vector<pair<int, vector<int>>> pr; for (size_t q = 0; q < b.precs.size(); ++q) { if (b.precs[q].terms.empty()) bad("empty level"); for (size_t z = 0; z < b.precs[q].terms.size(); ++z) { map<int, string>::const_iterator f = m.terms.find(b.precs[q].terms[z]); if (f == m.terms.end() || !o.id.count(f->second)) bad("precedence of nothing"); } pr.push_back(make_pair(b.precs[q].assoc, b.precs[q].terms)); } o.precs.push_back(pr); } }
    // every language on the way has to be complete
    set<int> used; for (map<int, vector<Alt>>::iterator r = o.rules.begin(); r != o.rules.end(); ++r) for (size_t z = 0; z < r->second.size(); ++z) for (size_t y = 0; y < r->second[z].items.size(); ++y) { const gram::Item& i = r->second[z].items[y]; if (i.k == 'n') used.insert(i.id); for (size_t q = 0; q < i.sub.size(); ++q) if (i.sub[q].k == 'n') used.insert(i.sub[q].id); if (i.k == 'a' && i.sub.size() != 2) bad("alternatives"); }
    for (set<int>::iterator u = used.begin(); u != used.end(); ++u) if (!o.rules.count(*u) || o.rules[*u].empty()) bad("undefined nonterminal");
}
// what a weak symbol stands for elsewhere: the strong symbol that matches the same texts (unsure if that differs between the texts, or if order and kind disagree about it)
static void strongs(Language& o) {
    vector<int> reps(1, 0); for (size_t k = 0; k < o.nfa.st.size(); ++k) for (size_t q = 0; q < o.nfa.st[k].rng.size(); ++q) { reps.push_back(o.nfa.st[k].rng[q].first); reps.push_back(o.nfa.st[k].rng[q].second + 1); } sort(reps.begin(), reps.end()); reps.erase(unique(reps.begin(), reps.end()), reps.end());
    map<set<int>, int> seen; vector<set<int>> w; set<int> s0 = o.nfa.init(); seen[s0] = 1; w.push_back(s0); map<int, set<int>> found; bool weakAny = !o.weak.empty(); if (!weakAny) return; if (reps.size() > 160) { o.strongSure = false; return; }
    for (size_t i = 0; i < w.size(); ++i) { if (w.size() > 500) { o.strongSure = false; return; } set<int> wk, st; for (set<int>::iterator k = w[i].begin(); k != w[i].end(); ++k) if (o.nfa.st[*k].acc >= 0) { const Entry& e = o.ranked[o.nfa.st[*k].acc]; (e.weak ? wk : st).insert(e.weak ? e.id : o.nfa.st[*k].acc); }
        if (!wk.empty()) { int best = -1; if (!st.empty()) { const Entry& e = o.ranked[*st.begin()]; best = e.id; if (e.type == 'i') o.strongSure = false; for (set<int>::iterator k = st.begin(); k != st.end(); ++k) if (o.ranked[*k].id < best) o.strongSure = false; } for (set<int>::iterator k = wk.begin(); k != wk.end(); ++k) found[*k].insert(best); }
        for (size_t c = 0; c < reps.size(); ++c) { set<int> n = o.nfa.stepSet(w[i], reps[c]); if (!n.empty() && seen.insert(make_pair(n, 1)).second) w.push_back(n); } }
    for (map<int, set<int>>::iterator f = found.begin(); f != found.end(); ++f) { if (f->second.size() > 1) o.strongSure = false; else if (*f->second.begin() >= 0) o.strong[f->first] = *f->second.begin(); }
}
void compile(const Model& m, const string& name, int start, Language& o) {
    build(m, name, o, 0); if (!o.problem.empty()) return; if (o.rules.empty()) { o.problem = "no grammar"; return; }
    set<string> once; for (map<int, string>::const_iterator t = m.terms.begin(); t != m.terms.end(); ++t) { if (!once.insert(t->second).second) { o.problem = "two terminals of one name"; return; } const string& s = t->second; if (!(s.size() > 2 && (s[0] == '"' || s[0] == '\'') && s[s.size() - 1] == s[0]) && !ident(s)) { o.problem = "odd terminal"; return; } if (o.id.count(s)) o.termOf[o.id[s]] = t->first; }
    for (map<string, vector<Entry>>::iterator d = o.defs.begin(); d != o.defs.end(); ++d) o.ranked.insert(o.ranked.end(), d->second.begin(), d->second.end());
    stable_sort(o.ranked.begin(), o.ranked.end(), [](const Entry& a, const Entry& b) { if (a.weak != b.weak) return a.weak; if (prio(a.type) != prio(b.type)) return prio(a.type) < prio(b.type); return a.id < b.id; });
    o.nfa.exprs = o.exprs; for (size_t k = 0; k < o.ranked.size(); ++k) { const Entry& e = o.ranked[k]; if ((e.p.kind == 'r' && (e.p.t.empty() || e.p.t[0] == '*' || e.p.t[0] == '/')) || !add_pat(o.nfa, e, (int)k)) { o.problem = "pattern " + e.p.t; return; } }
    for (map<string, vector<ref::Nfa::Expr>>::iterator x = o.exprs.begin(); x != o.exprs.end(); ++x) for (size_t k = 0; k < x->second.size(); ++k) if (!x->second[k].lit) { ref::Nfa n; n.exprs = o.exprs; n.busy.insert(x->first); ref::Syms& t = x->second[k].t; if (t.empty() || t[0] == '*' || t[0] == '/' || !n.addRegex(t, 0, false)) { o.problem = "lexer symbol"; return; } }
    if (o.nfa.accept(o.nfa.init()) >= 0) { o.problem = "a symbol matches nothing"; return; }
    if (o.nfa.st.size() > 1500) { o.problem = "too big"; return; }
    for (map<int, vector<Alt>>::iterator r = o.rules.begin(); r != o.rules.end(); ++r) { if (r->second.empty()) { o.problem = "empty nonterminal"; return; } for (size_t a = 0; a < r->second.size(); ++a) { gram::Rule u; u.nt = r->first; u.items = r->second[a].items; for (size_t y = 0; y < u.items.size(); ++y) { if (u.items[y].k == 'g') o.spec.guards = true; bool bad = false; each_term(u.items[y], [&](int t) { if (o.ignored.count(o.id[m.terms.find(t)->second])) bad = true; }); if (bad) { o.problem = "ignored symbol in a rule"; return; } }
            for (map<int, char>::iterator at = r->second[a].attr.begin(); at != r->second[a].attr.end(); ++at) { if (u.items[at->first].k != 't') { o.problem = "attribute"; return; } o.res.attr[array<int, 3>{ { r->first, (int)a, at->first } }] = at->second; }
            for (size_t z = 0; z < a; ++z) { bool same = r->second[z].items.size() == u.items.size(); for (size_t y = 0; same && y < u.items.size(); ++y) same = gram::text(u.items[y]) == gram::text(r->second[z].items[y]); if (same) { o.problem = "the same rule twice"; return; } }
            o.spec.rules.push_back(u); } }
    if (start != 0) { o.problem = "start"; return; }
    string why = o.spec.check(); if (!why.empty()) { o.problem = why; return; }
    for (size_t k = 0; k < o.precs.size(); ++k) { map<int, pair<int, int>> P; for (size_t q = 0; q < o.precs[k].size(); ++q) for (size_t z = 0; z < o.precs[k][q].second.size(); ++z) P[o.precs[k][q].second[z]] = make_pair((int)q, o.precs[k][q].first); o.res.precs.push_back(P); }
    strongs(o); bool weakUsed = false; if (m.splits && !o.strongSure) { o.strongSure = o.splits = true; o.strong.clear(); } if (o.strongSure) for (map<int, int>::iterator s = o.strong.begin(); s != o.strong.end(); ++s) if (o.termOf.count(s->second)) { weakUsed = true; int wt; if (o.termOf.count(s->first)) wt = o.termOf[s->first]; else wt = 100 + s->first; o.spec.weak[wt] = o.termOf[s->second]; }
    bool resolves = !o.res.precs.empty() || !o.res.attr.empty();
    if (gram::hidden_left_recursion(gram::lower(o.spec))) { o.problem = "hidden left recursion"; return; }
    o.rec.reset(new gram::Recogniser(o.spec, &o.res)); if (o.spec.guards && o.rec->status < 0) { o.problem = "guards of uncertain meaning"; return; } o.parseSure = o.rec->status == 1 && o.strongSure && !(o.spec.guards && weakUsed) && !(resolves && (o.spec.guards || weakUsed)); o.conflictSure = o.rec->status >= 0 && !o.spec.guards && o.strongSure && !weakUsed;
}
vector<Token> lex(const Language& l, const ref::Syms& t) { vector<Token> o; vector<ref::Tok> v = ref::lex(l.nfa, t); for (size_t k = 0; k < v.size(); ++k) { Token x; x.sym = v[k].sym < 0 ? -1 : l.ranked[v[k].sym].id; x.off = v[k].start; x.len = v[k].len; o.push_back(x); } return o; }
Verdict parse(Language& l, const vector<Token>& ts) {
    Verdict v; v.accepts = -1; v.shifted = 0; vector<int> in; bool odd = false; for (size_t k = 0; k < ts.size(); ++k) { if (ts[k].sym >= 0 && l.ignored.count(ts[k].sym)) continue; v.kept.push_back((int)k); if (ts[k].sym < 0) { in.push_back(999); odd = true; continue; } map<int, int>::iterator f = l.termOf.find(ts[k].sym); in.push_back(f != l.termOf.end() ? f->second : 100 + ts[k].sym); }
    if (!l.parseSure || in.size() > 400) return v; v.accepts = l.rec->accepts(in, v.shifted, &v.tree); return v;
}
// ---- generation ---------------------------------------------------------------------------------------------------------
static string member(Rng& r, const Language& l, const Entry& e) {
    ref::Nfa n; n.exprs = l.exprs; if (!add_pat(n, e, 0)) return ""; ref::Syms out; set<int> s = n.init(); int lim = r.range(1, 6);
    for (int i = 0; i < 40; ++i) { if (n.accept(s) >= 0 && (i >= lim || r.chance(1, 6)) && i > 0) break; vector<int> o; for (set<int>::iterator k = s.begin(); k != s.end(); ++k) { const ref::Nfa::St& x = n.st[*k]; if (x.to < 0) continue; if (!x.neg) for (size_t q = 0; q < x.rng.size(); ++q) { o.push_back(x.rng[q].first); o.push_back(x.rng[q].second); o.push_back(r.range(x.rng[q].first, x.rng[q].second)); } else for (int q = 0; q < 3; ++q) { int c = r.range(32, 126); bool in = false; for (size_t z = 0; z < x.rng.size(); ++z) if (c >= x.rng[z].first && c <= x.rng[z].second) in = true; if (!in) o.push_back(c); } }
        if (o.empty()) break; int c = o[r.below((int)o.size())]; set<int> t = n.stepSet(s, c); if (t.empty()) continue; s = t; out.push_back(c); }
    return ref::utf8(ref::unutf16(out));
}
string text_for(Rng& r, const Model& m, Language& l, const vector<int>& terms) {
    string o; vector<const Entry*> ig, all; for (size_t k = 0; k < l.ranked.size(); ++k) { if (l.ranked[k].type == 'i') ig.push_back(&l.ranked[k]); all.push_back(&l.ranked[k]); } int join = r.below(3);
    for (size_t i = 0; i < terms.size(); ++i) { map<int, string>::const_iterator f = m.terms.find(terms[i]); if (f == m.terms.end() || !l.defs.count(f->second) || l.defs[f->second].empty()) continue; const vector<Entry>& v = l.defs[f->second]; const Entry* e = &v[r.below((int)v.size())]; if (r.chance(1, 8)) for (map<int, int>::iterator w = l.strong.begin(); w != l.strong.end(); ++w) if (w->second == l.id[f->second]) { e = &l.defs[l.names[w->first]][0]; if (r.chance(1, 2)) break; } if (r.chance(1, 60)) e = all[r.below((int)all.size())];
        if (!o.empty() && !ig.empty() && (join == 0 || (join == 1 && r.chance(7, 8)) || r.chance(1, 3))) { o += member(r, l, *ig[r.below((int)ig.size())]); if (r.chance(1, 8)) o += member(r, l, *ig[r.below((int)ig.size())]); } o += member(r, l, *e); }
    bool cased = false; for (size_t k = 0; k < l.ranked.size(); ++k) if (l.ranked[k].cs) cased = true; for (map<string, vector<ref::Nfa::Expr>>::const_iterator x = l.exprs.begin(); x != l.exprs.end(); ++x) for (size_t k = 0; k < x->second.size(); ++k) if (x->second[k].cs) cased = true; if (cased && r.chance(1, 2)) { int d = r.range(1, 8); for (size_t k = 0; k < o.size(); ++k) if (isalpha((unsigned char)o[k]) && r.chance(1, d)) o[k] ^= 32; }
    if (r.chance(1, 10)) o += r.chance(1, 2) ? "\n" : "?"; if (r.chance(1, 20) && !o.empty()) { size_t at = (size_t)r.below((int)o.size()); if ((unsigned char)o[at] < 128) o[at] ^= o[at] >= 'A' ? 32 : 1; } if (l.nfa.cats || l.nfa.cases) { ref::Syms u = ref::utf16(ref::unutf8(o)); l.nfa.settle(u); o = ref::utf8(ref::unutf16(u)); } return o;
}
static gram::Rule R(int nt, const char* items) { gram::Rule r; r.nt = nt; string s = items; size_t i = 0; while (i < s.size()) { size_t e = s.find(' ', i); if (e == string::npos) e = s.size(); gram::Item x; if (e > i && gram::parse_item(s.substr(i, e - i), x)) r.items.push_back(x); i = e + 1; } return r; }
struct Form { string ref; char type; bool weak; int cs; vector<Sym> first, more; int level; };      // how a terminal is defined: first where it is, more: |= or replaced further up
static string re_lit(const string& s) { string o; for (size_t i = 0; i < s.size(); ++i) { if (strchr("()[]{}|*+?.\\^-/\"", s[i])) o += '\\'; o += s[i]; } return o; }
static bool attempt(Rng& r, Model& m) {
    m = Model(); gram::Spec s; vector<pair<int, vector<int>>> prec; map<pair<int, int>, pair<int, char>> attr; int kind = r.below(20); vector<string> hint;
    if (kind < 9) { s = gram::gen_spec(r, kind < 3, false); s.ignored.clear();
        if (kind >= 6 && r.chance(1, 2)) {                                                            // conflicts of every sort, and attributes that may or may not resolve them
            if (r.chance(1, 2)) { static const char* pat[] = { "n1 t0", "n2 t0", "t1", "t1", "t1 t0 t2", "t1 t0", "n1 n3", "t0 t2", "t1 t1", "n1", "t1 n3", "t0", "n2 t2", "n2 n3" }; s = gram::Spec(); s.rules = { R(0, "n1 t0"), R(0, r.chance(1, 3) ? "n2 t2" : r.chance(1, 4) ? "n2 n3" : "n2 t0"), R(0, r.chance(1, 2) ? "t1 t0 t2" : "t1 n3"), R(1, "t1"), R(2, r.chance(1, 4) ? "t1 t1" : "t1"), R(3, "t0") }; if (r.chance(1, 2)) s.rules.push_back(R(r.below(4), pat[r.below(14)])); if (r.chance(1, 4)) s.rules.push_back(R(3, "t0 t2")); if (r.chance(1, 4)) s.rules.push_back(R(0, "t3 n0")); if (r.chance(1, 2)) for (size_t k = 0; k < s.rules.size(); ++k) if (s.rules[k].nt == 0) for (size_t y = 0; y < s.rules[k].items.size(); ++y) if (s.rules[k].items[y].k == 'n' && s.rules[k].items[y].id == 3 && s.rules[k].items.size() > 1) { s.rules[k].items[y] = R(0, "t0").items[0]; break; } bool use3 = false; for (size_t k = 0; k < s.rules.size(); ++k) if (s.rules[k].nt != 3) for (size_t y = 0; y < s.rules[k].items.size(); ++y) if (s.rules[k].items[y].k == 'n' && s.rules[k].items[y].id == 3) use3 = true; if (!use3) s.rules.push_back(R(0, "t2 n3")); }
            else if (!s.rules.empty()) { int n = r.range(1, 2); for (int k = 0; k < n; ++k) { gram::Rule u = s.rules[r.below((int)s.rules.size())]; if (r.chance(1, 2)) u.nt = r.below(s.nts()); else if (u.items.size() > 1) u.items.resize((size_t)r.range(1, (int)u.items.size() - 1)); s.rules.push_back(u); } }
            int mode = r.below(4); map<int, int> nth; for (size_t k = 0; k < s.rules.size(); ++k) { int alt = nth[s.rules[k].nt]++; if (mode == 3) continue; vector<int> at; for (size_t y = 0; y < s.rules[k].items.size(); ++y) if (s.rules[k].items[y].k == 't') at.push_back((int)y); if (!at.empty() && r.chance(mode == 0 ? 1 : 2, 3)) attr[make_pair(s.rules[k].nt, alt)] = make_pair(at[r.below((int)at.size())], mode == 1 ? 'r' : mode == 2 ? 's' : "sr"[r.below(2)]); } } }
    else if (kind < 13) {                                                                             // operators with precedence
        s.rules = { R(0, "n0 t0 n0"), R(0, "n0 t1 n0"), R(0, "t2 n0 t3"), R(0, "t4") }; int nops = 2; if (r.chance(2, 3)) { s.rules.push_back(R(0, "n0 t5 n0")); ++nops; } bool neg = r.chance(1, 3); if (neg) s.rules.push_back(R(0, "t6 n0")); vector<int> ops; ops.push_back(0); ops.push_back(1); if (nops > 2) ops.push_back(5);
        if (!neg && r.chance(1, 6)) { s.rules.push_back(R(0, "n0 t6 n0 t7 n0")); ops.push_back(6); if (r.chance(2, 3)) ops.push_back(7); } if (r.chance(1, 10)) { s.rules.push_back(R(0, "n1")); s.rules.push_back(R(1, r.chance(1, 2) ? "n0 t0 n0" : "n0 t0 n1")); if (r.chance(1, 2)) s.rules.push_back(R(1, "t4")); }
        while (!ops.empty()) { pair<int, vector<int>> lv; lv.first = r.chance(1, 8) ? 2 : r.below(2); int n = r.range(1, (int)ops.size()); for (int k = 0; k < n; ++k) { int at = r.below((int)ops.size()); lv.second.push_back(ops[at]); ops.erase(ops.begin() + at); } prec.push_back(lv); } if (neg) { pair<int, vector<int>> lv; lv.first = 2; lv.second.push_back(6); prec.push_back(lv); } if (r.chance(1, 3)) s.rules.push_back(R(0, neg ? "t7 t2 n0 t3" : "t4 t2 n0 t3"));
        if (r.chance(1, 3)) reverse(prec.begin(), prec.end()); hint = { "", "", "(", ")", "#n" };
    } else if (kind < 15) { s.rules = { R(0, "t0 n1 t1 n0"), R(0, "t0 n1 t1 n0 t2 n0"), R(0, "n1 t3"), R(0, "t4 z:n0 t5"), R(1, "t6"), R(1, "t7 n1 t8") }; if (r.chance(1, 8)) attr[make_pair(0, 1)] = make_pair(4, 'r'); else if (r.chance(9, 10)) attr[make_pair(0, 1)] = make_pair(4, 's'); hint = { "if", "then", "else", ";", "{", "}", "#i", "(", ")" }; }
    else { int k = r.below(5);                                                                         // little languages with words
        if (k == 0) { s.rules = { R(0, "z:n1"), R(1, "t0 t1 t2 n2 t3"), R(1, "t4 n2 n1"), R(1, "t5 z:n1 t6"), R(1, "t1 t2 n2 t3"), R(2, "n2 t7 n3"), R(2, "n3"), R(3, "t1"), R(3, "t8"), R(3, "t9 n2 t10") }; hint = { "let", "#i", "=", ";", "if", "{", "}", "+", "#n", "(", ")" }; }
        else if (k == 1) { s.rules = { R(0, "n1"), R(1, "t0 o:n2 t1"), R(1, "t2 o:n3 t3"), R(1, "t4"), R(1, "t5"), R(2, "n4 z:t6.n4"), R(3, "n1 z:t6.n1"), R(4, "t5 t7 n1") }; hint = { "{", "}", "[", "]", "#n", "#s", ",", ":" }; }
        else if (k == 2) { s.rules = { R(0, "r:n1"), R(1, "t0 t1 n2"), R(1, "t2 t1"), R(2, "t3 z:t4.t3"), R(2, "t5"), R(1, "t6 t1 t3") }; hint = { "from", "#i", "on", "#n", ",", "all", "case" }; }
        else if (k == 3) { s.rules = { R(0, "z:n1"), R(1, "t0 t1 n1"), R(1, "t0 n2 t2"), R(2, "z:t0"), R(1, "t3 n3 t4"), R(3, "n3 t5 t0"), R(3, "t0") }; hint = { "#i", ":", ";", "(", ")", "|" }; }
        else { s.rules = { R(0, "n1 z:n1"), R(1, "t0 n2 o:n3"), R(2, "t1"), R(2, "t2"), R(2, "t3 t1"), R(3, "t4 n2"), R(3, "t5 t0") }; hint = { "select", "#i", "#n", "as", "where", "by" }; } }
    for (size_t k = 0; k < s.rules.size(); ++k) for (size_t y = 0; y < s.rules[k].items.size(); ++y) { gram::Item& i = s.rules[k].items[y]; if (i.k == 'a') while (i.sub.size() > 2) i.sub.pop_back(); if (i.k == 'a' && i.sub.size() < 2) { gram::Item z = i.sub[0]; i = z; } }
    if (!s.check().empty()) return false; int T = s.terms(), N = s.nts();
    // which symbols and rules the base language has
    int levels = r.chance(1, 2) ? 1 : r.chance(2, 3) ? 2 : 3; set<int> baseNt; if (levels > 1) for (int n = 0; n < N; ++n) if (r.chance(2, 3)) baseNt.insert(n);
    set<int> baseTerm; vector<vector<Alt>> alts(N); for (size_t k = 0; k < s.rules.size(); ++k) { Alt a; a.items = s.rules[k].items; alts[s.rules[k].nt].push_back(a); } for (map<pair<int, int>, pair<int, char>>::iterator a = attr.begin(); a != attr.end(); ++a) alts[a->first.first][a->first.second].attr[a->second.first] = a->second.second;
    Block gBase, gTop, gTop2; gBase.type = gTop.type = gTop2.type = 'g'; gBase.weak = gTop.weak = gTop2.weak = false; gBase.cs = gTop.cs = gTop2.cs = 0;
    vector<int> order; for (int n = 0; n < N; ++n) order.insert(order.begin() + r.below((int)order.size() + 1), n);
    for (size_t z = 0; z < order.size(); ++z) { int n = order[z]; vector<Alt> in, out; for (size_t k = 0; k < alts[n].size(); ++k) { bool ok = baseNt.count(n) != 0 && !r.chance(1, 5); for (size_t y = 0; y < alts[n][k].items.size(); ++y) { const gram::Item& i = alts[n][k].items[y]; if (i.k == 'n' && !baseNt.count(i.id)) ok = false; for (size_t q = 0; q < i.sub.size(); ++q) if (i.sub[q].k == 'n' && !baseNt.count(i.sub[q].id)) ok = false; } (ok ? in : out).push_back(alts[n][k]); }
        auto prod = [&](Block& b, char op, const vector<Alt>& v) { Prod p; p.nt = n; p.op = op; p.alts = v; b.prods.push_back(p); };
        if (baseNt.count(n)) { bool decoy = in.empty() || (!out.empty() && r.chance(1, 6)) || r.chance(1, 15); if (decoy) { vector<Alt> d(1); gram::Item x; x.k = 't'; x.id = r.below(T); d[0].items.push_back(x); if (r.chance(1, 3)) { x.id = r.below(T); d[0].items.push_back(x); } prod(gBase, '=', d); prod(gTop, 'R', alts[n]); } else { if (in.size() > 1 && r.chance(1, 3)) { prod(gBase, '=', vector<Alt>(in.begin(), in.begin() + 1)); prod(gBase, '+', vector<Alt>(in.begin() + 1, in.end())); } else prod(gBase, '=', in); if (!out.empty()) prod(gTop, '+', out); } }
        else if (out.size() > 1 && r.chance(1, 4)) { prod(gTop, '=', vector<Alt>(out.begin(), out.begin() + 1)); prod(gTop2, '+', vector<Alt>(out.begin() + 1, out.end())); } else if (r.chance(1, 20)) { vector<Alt> d(1); gram::Item x; x.k = 't'; x.id = r.below(T); d[0].items.push_back(x); prod(gTop, '=', d); prod(gTop2, 'R', out); } else prod(gTop, '=', out); }
    for (size_t k = 0; k < gBase.prods.size(); ++k) for (size_t a = 0; a < gBase.prods[k].alts.size(); ++a) for (size_t y = 0; y < gBase.prods[k].alts[a].items.size(); ++y) each_term(gBase.prods[k].alts[a].items[y], [&](int t) { baseTerm.insert(t); });
    bool precBase = !prec.empty() && levels > 1 && r.chance(1, 2); if (precBase) for (size_t k = 0; k < prec.size(); ++k) baseTerm.insert(prec[k].second.begin(), prec[k].second.end());
    // the terminals
    static const char* words[] = { "if", "else", "while", "let", "do", "end", "begin", "from", "shift", "case", "on", "foo", "bar", "x", "test", "left", "then", "all", "as", "by", "ifx", "kw-a", "kw_b", "Mixed", "UPPER" }; static const char* ops[] = { "\\", "/\\", "+", "-", "*", "/", "(", ")", "{", "}", "[", "]", "<", ">", "<=", ">=", "==", "=", "!=", ",", ";", ":", "->", "<<", "++", "&&", "&", "|", "||", "?", "%", "^", "~", "@", "#", "$", ".", "..", "!", "'", "\"", "\t!", "\f", "\f+", "\a", "\a\a", "\x1b", "\x1b[" };
    static const char* rex[] = { "[a-z]+", "[a-z_][a-z0-9_]*", "[a-zA-Z]+", "[0-9]+", "[0-9]+\\.[0-9]+", "0x[0-9a-f]+", "\\\"[^\\\"]*\\\"", "'[^']*'", "[A-Z][a-z]*", "[a-f0-9]+", "(ab|a)(b|c)*", "[+\\-][0-9]+", "<[a-z]+>", "%[01]+", "[a-z]+[0-9]?", "[w-~]+", "[0-Z]", "[?-c]x", "if|else", "[xX][a-z]*", "\\$[a-z0-9]+", "[\\u03b1-\\u03c9]+", "\\.\\.\\.|\\.[a-z]+", "\\x41[\\x61-\\x7a]*", "\\101\\o102+", "\\e\\[[0-9]*", "\\f|\\a\\a?", "[\\e-\\x20]", "\\o101\\-[\\60-\\o71]", "[\\a-\\f]x" };
    static const char* rexSym[] = { "{letter}+", "{letter}({letter}|{digit})*", "{digit}+", "{digit}+\\.{digit}*", "#{digit}{digit}", "{word}", "{word}-{word}", "\\${word}" };
    set<string> usedW, usedC; bool symbols = r.chance(1, 2); int ciMode = r.chance(1, 4) ? 1 : r.chance(1, 10) ? 2 : 0; vector<Form> fs(T); bool ascii = (ciMode != 0 || symbols) && r.chance(1, 2), uni = !ascii && r.chance(1, 3);
    static const char* uops[] = { "→", "é", "«", "»", "λ", "≤", "日本", "😀", "𝒳", "a😀", "\xef\xbf\xbd", "𐐀𐐁", "\xf4\x8f\xbf\xbf", "ÿ" }; static const char* urex[] = { "[😀-🙏]+", "é+", "[α-ω]+", "[à-ÿ]", "[Ā-ſ]+", "[Ѐ-я]+", "[ｂ-ｚ]", "[ß-ā]", "😀*x", "(→|⇒)>?", "[^a-zA-Z0-9 \\n\\t\\r_😀-🙏]", "[𝐀-𝐙𝐚-𝐳]+", "𝒳?𝒴", "x[ -~𐀀-𐏿]", "[日-月a]+b", "\\u00e9+", "<.>" };
    auto word = [&]() { for (int q = 0; q < 60; ++q) { string w = words[r.below((int)(sizeof words / sizeof *words))]; if (usedW.insert(w).second) return w; } string w = "w" + to_string(usedW.size()); usedW.insert(w); return w; };
    auto op = [&]() { if (uni && r.chance(1, 2)) { string w = uops[r.below((int)(sizeof uops / sizeof *uops))]; if (usedC.insert(w).second) return w; } for (int q = 0; q < 60; ++q) { string w = ops[r.below((int)(sizeof ops / sizeof *ops))]; if (usedC.insert(w).second) return w; } string w = "@" + to_string(usedC.size()); usedC.insert(w); return w; };
    static const char* cats[] = { "{unicode-letter}+", "{u-letter}({u-letter}|{u-number})*", "{uni-letter-uppercase}{u-letter-lowercase}*", "{unicode-number-decimal}+", "{unicode-number}", "{u-punctuation-dash}+", "{u-punctuation-open}", "{u-punctuation-close}", "{uni-symbol-currency}{u-number-decimal}+", "{u-symbol-math}", "{u-letter-other}+", "{u-letter-titlecase}", "{u-mark}", "x{u-mark-nonspacing}*", "{unicode-punctuation-initial}{u-letter}*{u-punctuation-final}", "{u-punctuation-connector}{u-letter-modifier}*", "{u-number-letter}|{u-number-other}", "{u-symbol}+", "{u-punctuation}", "{u-symbol-modifier}", "{u-symbol-other}", "{u-punctuation-other}" };
    auto regex = [&]() -> string { if (uni && r.chance(1, 3)) return cats[r.below((int)(sizeof cats / sizeof *cats))]; if (symbols && r.chance(1, 2)) return rexSym[r.below(8)]; if (uni && r.chance(1, 2)) return urex[r.below((int)(sizeof urex / sizeof *urex))]; for (;;) { string x = rex[r.below((int)(sizeof rex / sizeof *rex))]; if (!ascii || x.find("\\u") == string::npos) return x; } };
    auto sym = [&](const string& n, char o, char k, const string& t) { Sym x; x.name = n; x.op = o; x.p.kind = k; x.p.t = t; return x; };
    auto quoted = [&](const string& c) { bool one = ref::unutf8(c).size() == 1 && r.chance(2, 3); string e = esc(c, one ? '\'' : '"'); if (e.find('\\') == string::npos && ispunct((unsigned char)e[0]) && r.chance(1, 8)) e = "\\" + e; return one ? "'" + e + "'" : "\"" + e + "\""; };
    for (int t = 0; t < T; ++t) { Form& f = fs[t]; f.weak = false; f.cs = 0; f.level = baseTerm.count(t) || levels == 1 ? 0 : r.below(levels); if (f.level == levels - 1 && baseTerm.count(t)) f.level = 0; f.type = 'k'; string h = t < (int)hint.size() ? hint[t] : ""; int k = r.below(12);
        if (h == "#i" || h == "#n" || h == "#s") { f.type = 'l'; string n = h == "#i" ? "identifier" : h == "#n" ? "number" : "string"; f.ref = n; f.first.push_back(sym(n, '=', 'r', h == "#i" ? (symbols && r.chance(1, 2) ? "{letter}({letter}|{digit})*" : r.chance(1, 2) ? "[a-z]+" : "[a-zA-Z_][a-zA-Z0-9_]*") : h == "#n" ? (symbols && r.chance(1, 2) ? "{digit}+" : "[0-9]+") : "\\\"[^\\\"]*\\\"")); if (r.chance(1, 5)) f.more.push_back(sym(n, r.chance(2, 3) ? '+' : 'R', 'r', regex())); continue; }
        if (!h.empty() && !isalpha((unsigned char)h[0])) { if (usedC.insert(h).second && r.chance(3, 4)) { f.ref = quoted(h); f.type = 0; continue; } }
        string w = !h.empty() && isalpha((unsigned char)h[0]) && usedW.insert(h).second ? h : k < 6 ? word() : ""; bool wd = !w.empty();
        if (wd && k < 2) { f.ref = w; f.first.push_back(sym(w, '=', 'n', "")); f.cs = ciMode; }
        else if (wd && k == 2) { f.ref = w; f.weak = true; f.first.push_back(sym(w, '=', 'n', "")); f.cs = r.chance(1, 3) ? ciMode : 0; }
        else if (wd && k == 3) { f.ref = w; f.type = 0; }
        else if (wd && k == 4) { f.ref = quoted(w); f.type = 0; }
        else if (wd) { f.ref = "kw" + to_string(t); f.cs = ciMode; f.weak = r.chance(1, 4); char kd = r.chance(1, 3) ? 'r' : 's'; f.first.push_back(sym(f.ref, '=', kd, kd == 'r' ? re_lit(w) : w)); if (r.chance(1, 5)) f.more.push_back(sym(f.ref, r.chance(2, 3) ? '+' : 'R', 's', word())); }
        else if (k < 9) { string c = op(); if (r.chance(2, 3)) { f.ref = quoted(c); f.type = 0; } else { f.ref = "op" + to_string(t); f.type = r.chance(1, 2) ? 'k' : 'l'; f.weak = r.chance(1, 6); bool one = ref::unutf8(c).size() == 1; char kd = r.chance(1, 3) ? 'r' : one && r.chance(1, 2) ? 'c' : 's'; if (kd == 'r' && (c[0] == '/' || c[0] == '*')) kd = 's'; f.first.push_back(sym(f.ref, '=', kd, kd == 'r' ? re_lit(c) : c)); if (r.chance(1, 6)) f.more.push_back(sym(f.ref, r.chance(2, 3) ? '+' : 'R', 's', op())); } }
        else { f.type = 'l'; f.weak = r.chance(1, 10); f.ref = "sym" + to_string(t); f.cs = r.chance(1, 4) ? ciMode : 0; f.first.push_back(sym(f.ref, '=', 'r', regex())); if (r.chance(1, 4)) f.first.push_back(sym(f.ref, '+', r.chance(1, 2) ? 'r' : 's', f.first.back().p.t)); if (f.first.size() > 1) f.first.back().p.t = f.first.back().p.kind == 'r' ? regex() : word(); if (r.chance(1, 5)) f.more.push_back(sym(f.ref, r.chance(2, 3) ? '+' : 'R', 'r', regex())); } }
    for (int t = 0; t < T; ++t) m.terms[t] = fs[t].ref;
    // blocks
    vector<Lang> ls(levels); for (int q = 0; q < levels; ++q) { ls[q].name = q == levels - 1 ? "L" : q == 0 ? "Base" : "Mid"; ls[q].base = q ? ls[q - 1].name : ""; ls[q].file = 0; } if (levels > 1 && r.chance(1, 2)) for (int q = 0; q + 1 < levels; ++q) ls[q].file = levels - 1 - q; if (levels == 3 && r.chance(1, 3)) ls[0].file = ls[1].file;
    auto block = [&](int lv, char type, bool weak, int cs) -> Block& { vector<Block>& v = ls[lv].blocks; for (size_t q = 0; q < v.size(); ++q) if (v[q].type == type && v[q].weak == weak && v[q].cs == cs && !r.chance(1, 8)) return v[q]; Block b; b.type = type; b.weak = weak; b.cs = cs; v.push_back(b); return v.back(); };
    if (symbols) { int cs = r.chance(1, 4) ? r.range(1, 2) : 0; block(0, 's', false, cs).syms.push_back(sym("letter", '=', 'r', r.chance(1, 2) ? "[a-z]" : "[a-zA-Z]")); block(0, 's', false, cs).syms.push_back(sym("digit", '=', 'r', "[0-9]")); int lw = r.below(levels); block(0, 's', false, r.chance(1, 4) ? r.below(3) : 0).syms.push_back(sym("word", '=', r.chance(1, 2) ? 'r' : 's', "abc")); block(lw, 's', false, 0).syms.push_back(sym("word", '+', 'r', "{letter}{digit}"));
        if (r.chance(1, 3)) block(r.below(levels), 's', false, r.below(3)).syms.push_back(sym("letter", '+', r.chance(1, 2) ? 'r' : 's', r.chance(1, 2) ? "_" : r.chance(1, 2) ? "Q" : "zz")); if (r.chance(1, 5)) block(levels - 1, 's', false, 0).syms.push_back(sym("digit", 'R', 'r', "[0-7]")); if (r.chance(1, 2)) for (int q = r.range(1, 3); q > 0; --q) { static const char* more[] = { "x[a-f]", "END", "end", "[A-F]", "{digit}x", "q{letter}", "Go" }; string t = more[r.below(7)]; bool lit = t.find_first_of("[{") == string::npos && r.chance(1, 2); block(r.range(lw, levels - 1), 's', false, r.below(3)).syms.push_back(sym("word", '+', lit ? 's' : 'r', t)); } }
    for (int t = 0; t < T; ++t) { Form& f = fs[t]; if (f.type) { for (size_t q = 0; q < f.first.size(); ++q) block(f.level, f.type, f.weak, f.cs).syms.push_back(f.first[q]); if (levels > 1 && f.level < levels - 1) for (size_t q = 0; q < f.more.size(); ++q) block(r.range(f.level + 1, levels - 1), f.type, f.weak, r.chance(1, 3) ? ciMode : f.cs).syms.push_back(f.more[q]); } }
    int wl = r.below(levels); block(wl, 'i', false, 0).syms.push_back(sym("ws", '=', 'r', r.chance(1, 2) ? "[ \\n\\t]+" : "[ \\n\\t\\r]")); if (r.chance(1, 2)) block(r.below(levels), 'i', false, 0).syms.push_back(sym("comment", '=', 'r', r.chance(1, 2) ? "\\/\\/[^\\n]*" : "~[a-z]*~")); if (r.chance(1, 6)) block(r.below(levels), 'i', false, 0).syms.push_back(sym("pad", '=', 's', r.chance(1, 2) ? "_" : "...")); if (levels > 1 && wl < levels - 1 && r.chance(1, 4)) block(levels - 1, 'i', false, 0).syms.push_back(sym("ws", r.chance(1, 2) ? '+' : 'R', 'r', r.chance(1, 2) ? "[ \\n\\t]|_" : "[ \\n]+"));
    if (r.chance(1, 3)) block(r.below(levels), 'l', false, 0).syms.push_back(sym("spare", '=', 'r', regex())); if (r.chance(1, 6)) block(r.below(levels), 'k', r.chance(1, 2), ciMode).syms.push_back(sym("spareword", '=', 's', word()));
    if (!prec.empty()) { Block b; b.type = 'p'; b.weak = false; b.cs = 0; for (size_t k = 0; k < prec.size(); ++k) { Prec p; p.assoc = prec[k].first; p.terms = prec[k].second; b.precs.push_back(p); } vector<Block>& v = ls[precBase ? 0 : levels - 1].blocks; v.insert(v.begin() + r.below((int)v.size() + 1), b); }
    if (!gBase.prods.empty()) { vector<Block>& v = ls[0].blocks; v.insert(v.begin() + r.below((int)v.size() + 1), gBase); } { vector<Block>& v = ls[levels - 1].blocks; size_t at = (size_t)r.below((int)v.size() + 1); v.insert(v.begin() + at, gTop); if (!gTop2.prods.empty()) v.push_back(gTop2); }
    m.main = "L"; m.style = r.chance(1, 4) ? 0 : r.next(); vector<int> ord; for (int q = 0; q < levels; ++q) ord.insert(ord.begin() + r.below((int)ord.size() + 1), q); for (size_t q = 0; q < ord.size(); ++q) m.langs.push_back(ls[ord[q]]); m.files = 1; for (size_t q = 0; q < m.langs.size(); ++q) m.files = max(m.files, m.langs[q].file + 1);
    return true;
}
void generate(Rng& r, Plan& p) {
    for (int k = 0; k < 60; ++k) { Model m; if (!attempt(r, m)) continue; Language l; compile(m, m.main, 0, l); if (!l.problem.empty() || (!l.parseSure && !r.chance(1, l.res.attr.empty() ? 4 : 1))) continue; to_plan(m, p);
        int n = r.range(2, 5); for (int q = 0; q < n; ++q) { vector<int> ch; for (int z = r.below(3); z > 0; --z) ch.push_back(r.range(1, 30)); vector<int> ft; if (r.chance(1, 4)) for (int z = r.range(1, 3); z > 0; --z) ft.push_back(r.below(60)); p.push_back(L("text").add(text_for(r, m, l, gram::gen_sentence(r, l.spec, r.range(3, 40)))).add(r.chance(1, 2)).add(tocsv(ch)).add(tocsv(ft))); } return; }
}
}

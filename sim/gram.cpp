#include "gram.h"
#include <algorithm>
namespace gram {
static bool simple(const string& s, Item& o) { if (s.size() < 2 || (s[0] != 't' && s[0] != 'n')) return false; for (size_t i = 1; i < s.size(); ++i) if (!isdigit((unsigned char)s[i])) return false; o.k = s[0]; o.id = atoi(s.c_str() + 1); return o.id < 40; }
bool parse_item(const string& s, Item& o) {
    o.sub.clear(); o.id = 0; if (simple(s, o)) return true;
    if (s.size() < 4 || s[1] != ':' || !strchr("orzga", s[0])) return false;
    o.k = s[0]; size_t i = 2; while (i <= s.size()) { size_t e = s.find('.', i); if (e == string::npos) e = s.size(); Item x; if (!simple(s.substr(i, e - i), x)) return false; o.sub.push_back(x); i = e + 1; if (e == s.size()) break; }
    return !o.sub.empty();
}
string text(const Item& i) { if (i.k == 't' || i.k == 'n') return string(1, i.k) + to_string(i.id); string o(1, i.k); o += ":"; for (size_t k = 0; k < i.sub.size(); ++k) o += (k ? "." : "") + text(i.sub[k]); return o; }
static void each(const Items& is, function<void(const Item&)> f) { for (size_t i = 0; i < is.size(); ++i) { f(is[i]); for (size_t k = 0; k < is[i].sub.size(); ++k) f(is[i].sub[k]); } }
int Spec::terms() const { int m = 0; for (size_t i = 0; i < rules.size(); ++i) each(rules[i].items, [&](const Item& x) { if (x.k == 't' && x.id + 1 > m) m = x.id + 1; }); for (set<int>::const_iterator i = ignored.begin(); i != ignored.end(); ++i) m = max(m, *i + 1); for (map<int, int>::const_iterator i = weak.begin(); i != weak.end(); ++i) m = max(m, max(i->first, i->second) + 1); return m; }
int Spec::nts() const { int m = 0; for (size_t i = 0; i < rules.size(); ++i) { m = max(m, rules[i].nt + 1); each(rules[i].items, [&](const Item& x) { if (x.k == 'n' && x.id + 1 > m) m = x.id + 1; }); } return m; }
Spec from_plan(const Plan& p) {
    Spec s; for (size_t i = 0; i < p.size(); ++i) { const Line& l = p[i];
        if (l.op == "rule") { Rule r; r.nt = (int)l.n(0); if (r.nt < 0 || r.nt >= 40) continue; bool ok = true; for (size_t k = 1; k < l.a.size(); ++k) { Item x; if (!parse_item(l.a[k], x)) { ok = false; break; } r.items.push_back(x); if (x.k == 'g') s.guards = true; } if (ok) s.rules.push_back(r); }
        if (l.op == "ignore" && l.n(0) >= 0 && l.n(0) < 40) s.ignored.insert((int)l.n(0));
        if (l.op == "weak" && l.n(0) >= 0 && l.n(0) < 40 && l.n(1) >= 0 && l.n(1) < 40 && l.n(0) != l.n(1)) s.weak[(int)l.n(0)] = (int)l.n(1); }
    return s;
}
void to_plan(const Spec& s, Plan& p) {
    for (size_t i = 0; i < s.rules.size(); ++i) { Line l("rule"); l.add(s.rules[i].nt); for (size_t k = 0; k < s.rules[i].items.size(); ++k) l.add(text(s.rules[i].items[k])); p.push_back(l); }
    for (set<int>::const_iterator i = s.ignored.begin(); i != s.ignored.end(); ++i) p.push_back(L("ignore").add(*i));
    for (map<int, int>::const_iterator i = s.weak.begin(); i != s.weak.end(); ++i) p.push_back(L("weak").add(i->first).add(i->second));
}
int bnf_symbol(Bnf& b, const Spec& s, const Item& i) {
    if (i.k == 't') return i.id; if (i.k == 'n') return -1 - i.id;
    string key = text(i); map<string, int>::iterator f = b.ebnf.find(key); if (f != b.ebnf.end()) return -1 - f->second;
    int id = (int)b.alts.size(); b.ebnf[key] = id; b.alts.push_back(vector<vector<int>>()); vector<int> body; for (size_t k = 0; k < i.sub.size(); ++k) body.push_back(bnf_symbol(b, s, i.sub[k]));
    vector<vector<int>> a; vector<int> rec; rec.push_back(-1 - id); rec.insert(rec.end(), body.begin(), body.end());
    if (i.k == 'g') a.push_back(vector<int>());
    else if (i.k == 'o') { a.push_back(body); a.push_back(vector<int>()); }
    else if (i.k == 'r') { a.push_back(body); a.push_back(rec); }
    else if (i.k == 'z') { a.push_back(vector<int>()); a.push_back(rec); }
    else if (i.k == 'a') for (size_t k = 0; k < body.size(); ++k) a.push_back(vector<int>(1, body[k]));
    b.alts[id] = a; return -1 - id;
}
Bnf lower(const Spec& s, int start) {
    Bnf b; b.start = start; b.alts.resize(s.nts());
    for (size_t i = 0; i < s.rules.size(); ++i) { vector<int> body; for (size_t k = 0; k < s.rules[i].items.size(); ++k) body.push_back(bnf_symbol(b, s, s.rules[i].items[k])); b.alts[s.rules[i].nt].push_back(body); }
    return b;
}
static set<int> nullable(const Bnf& b) { set<int> n; bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < b.alts.size(); ++i) if (!n.count((int)i)) for (size_t a = 0; a < b.alts[i].size(); ++a) { bool all = true; for (size_t k = 0; k < b.alts[i][a].size(); ++k) if (b.alts[i][a][k] >= 0 || !n.count(-1 - b.alts[i][a][k])) all = false; if (all) { n.insert((int)i); ch = true; break; } } } return n; }
bool has_nullable(const Bnf& b) { set<int> g; for (map<string, int>::const_iterator i = b.ebnf.begin(); i != b.ebnf.end(); ++i) if (i->first[0] == 'g') g.insert(i->second); set<int> n = nullable(b); for (set<int>::iterator i = n.begin(); i != n.end(); ++i) if (!g.count(*i)) return true; return false; }
// some nonterminal begins with itself behind symbols (guards among them) that can be empty: a parser of a grammar with such a conflict may reduce for ever
bool hidden_left_recursion(const Bnf& b) {
    set<int> nul = nullable(b); int N = (int)b.alts.size(); vector<vector<char>> reach(N, vector<char>(N, 0)), hid(N, vector<char>(N, 0));
    for (int i = 0; i < N; ++i) for (size_t a = 0; a < b.alts[i].size(); ++a) { const vector<int>& v = b.alts[i][a]; for (size_t k = 0; k < v.size() && v[k] < 0; ++k) { reach[i][-1 - v[k]] = 1; if (k) hid[i][-1 - v[k]] = 1; if (!nul.count(-1 - v[k])) break; } }
    vector<vector<char>> c = reach; for (int k = 0; k < N; ++k) for (int i = 0; i < N; ++i) if (c[i][k]) for (int j = 0; j < N; ++j) if (c[k][j]) c[i][j] = 1;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (hid[i][j] && (i == j || c[j][i])) return true;
    return false;
}
string Spec::check() const {
    if (rules.empty()) return "no rules"; set<int> def; for (size_t i = 0; i < rules.size(); ++i) { def.insert(rules[i].nt); bool bad = false; each(rules[i].items, [&](const Item& x) { if (x.k == 't' && (ignored.count(x.id))) bad = true; }); if (bad) return "ignored terminal in a rule"; }
    if ((int)def.size() != nts()) return "undefined nonterminal"; if (!def.count(0)) return "no start";
    for (map<int, int>::const_iterator i = weak.begin(); i != weak.end(); ++i) if (weak.count(i->second) || ignored.count(i->first) || ignored.count(i->second)) return "odd weak symbols";
    Bnf b = lower(*this); set<int> prod; bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < b.alts.size(); ++i) if (!prod.count((int)i)) for (size_t a = 0; a < b.alts[i].size(); ++a) { bool all = true; for (size_t k = 0; k < b.alts[i][a].size(); ++k) if (b.alts[i][a][k] < 0 && !prod.count(-1 - b.alts[i][a][k])) all = false; if (all) { prod.insert((int)i); ch = true; break; } } }
    if (prod.size() != b.alts.size()) return "unproductive nonterminal";
    set<int> n = nullable(b); int N = (int)b.alts.size(); vector<vector<char>> unit(N, vector<char>(N, 0));
    for (int i = 0; i < N; ++i) for (size_t a = 0; a < b.alts[i].size(); ++a) { const vector<int>& v = b.alts[i][a]; for (size_t k = 0; k < v.size(); ++k) { if (v[k] >= 0) continue; bool rest = true; for (size_t q = 0; q < v.size(); ++q) if (q != k && (v[q] >= 0 || !n.count(-1 - v[q]))) rest = false; if (rest) unit[i][-1 - v[k]] = 1; } }
    for (int k = 0; k < N; ++k) for (int i = 0; i < N; ++i) if (unit[i][k]) for (int j = 0; j < N; ++j) if (unit[k][j]) unit[i][j] = 1;
    for (int i = 0; i < N; ++i) if (unit[i][i]) return "cyclic";
    return "";
}
// LALR(1) by merging canonical LR(1) states that have the same core
struct Lalr {
    typedef array<int, 3> Core; typedef map<Core, set<int>> St;                       // (nonterminal, alternative, dot) -> look-ahead
    enum { END = 1 << 20 };
    Bnf b; int N, S; set<int> nul; vector<set<int>> first; int status;                // 1: no conflicts, 0: conflicts, -1: too big
    struct Row { map<int, int> shift; map<int, pair<int, int>> reduce; map<int, int> go; }; vector<Row> rows;
    void closure(St& st) {
        vector<Core> w; for (St::iterator i = st.begin(); i != st.end(); ++i) w.push_back(i->first);
        while (!w.empty()) { Core c = w.back(); w.pop_back(); const vector<int>& v = b.alts[c[0]][c[1]]; if (c[2] >= (int)v.size() || v[c[2]] >= 0) continue; int m = -1 - v[c[2]]; set<int> la; size_t k = c[2] + 1; for (; k < v.size(); ++k) { if (v[k] >= 0) { la.insert(v[k]); break; } la.insert(first[-1 - v[k]].begin(), first[-1 - v[k]].end()); if (!nul.count(-1 - v[k])) break; } if (k >= v.size()) la.insert(st[c].begin(), st[c].end());
            for (size_t a = 0; a < b.alts[m].size(); ++a) { Core d{ { m, (int)a, 0 } }; bool had = st.count(d) != 0; set<int>& t = st[d]; size_t z = t.size(); t.insert(la.begin(), la.end()); if (!had || t.size() != z) w.push_back(d); } }
    }
    bool resolved;
    Lalr(const Bnf& in, const Resolve* res = 0) : b(in), resolved(false) {
        for (size_t n = 0; n < b.alts.size(); ++n) { vector<vector<int>> u; for (size_t a = 0; a < b.alts[n].size(); ++a) if (find(u.begin(), u.end(), b.alts[n][a]) == u.end()) u.push_back(b.alts[n][a]); b.alts[n] = u; }
        N = (int)b.alts.size(); S = N; b.alts.push_back(vector<vector<int>>(1, vector<int>(1, -1 - b.start))); ++N; nul = nullable(b);
        first.resize(N); bool ch = true; while (ch) { ch = false; for (int n = 0; n < N; ++n) for (size_t a = 0; a < b.alts[n].size(); ++a) { const vector<int>& v = b.alts[n][a]; for (size_t k = 0; k < v.size(); ++k) { size_t z = first[n].size(); if (v[k] >= 0) first[n].insert(v[k]); else first[n].insert(first[-1 - v[k]].begin(), first[-1 - v[k]].end()); if (first[n].size() != z) ch = true; if (v[k] >= 0 || !nul.count(-1 - v[k])) break; } } }
        map<St, int> id; vector<St> all; St s0; s0[Core{ { S, 0, 0 } }].insert(END); id[s0] = 0; all.push_back(s0);
        map<set<Core>, St> merged; map<set<Core>, int> num; vector<map<int, int>> go; vector<int> numOf;
        for (size_t i = 0; i < all.size(); ++i) { if (all.size() > 2500) { status = -1; return; } set<Core> core; for (St::iterator k = all[i].begin(); k != all[i].end(); ++k) core.insert(k->first); numOf.push_back(num.insert(make_pair(core, (int)num.size())).first->second); St c = all[i]; closure(c); St& m = merged[core]; map<int, St> g;
            for (St::iterator k = c.begin(); k != c.end(); ++k) { m[k->first].insert(k->second.begin(), k->second.end()); const vector<int>& v = b.alts[k->first[0]][k->first[1]]; if (k->first[2] < (int)v.size()) { Core n = k->first; ++n[2]; g[v[n[2] - 1]][n] = k->second; } }
            go.push_back(map<int, int>()); for (map<int, St>::iterator x = g.begin(); x != g.end(); ++x) { pair<map<St, int>::iterator, bool> in_ = id.insert(make_pair(x->second, (int)all.size())); if (in_.second) all.push_back(x->second); go[i][x->first] = in_.first->second; } }
        status = 1; rows.resize(num.size());
        for (size_t i = 0; i < go.size(); ++i) for (map<int, int>::iterator x = go[i].begin(); x != go[i].end(); ++x) (x->first >= 0 ? rows[numOf[i]].shift : rows[numOf[i]].go)[x->first] = numOf[x->second];
        for (map<set<Core>, St>::iterator m = merged.begin(); m != merged.end(); ++m) { Row& r = rows[num[m->first]]; map<int, set<pair<int, int>>> red; map<int, set<char>> at;
            for (St::iterator k = m->second.begin(); k != m->second.end(); ++k) { const vector<int>& v = b.alts[k->first[0]][k->first[1]]; if (k->first[2] == (int)v.size()) { for (set<int>::iterator t = k->second.begin(); t != k->second.end(); ++t) red[*t].insert(make_pair(k->first[0], k->first[1])); } else if (res && v[k->first[2]] >= 0) { map<array<int, 3>, char>::const_iterator f = res->attr.find(k->first); if (f != res->attr.end()) at[v[k->first[2]]].insert(f->second); } }
            for (map<int, set<pair<int, int>>>::iterator q = red.begin(); q != red.end(); ++q) { int t = q->first; pair<int, int> rd = *q->second.begin(); bool sh = r.shift.count(t) != 0, keep = true; if (q->second.size() > 1) { status = 0; continue; }
                if (sh && res) { resolved = true; for (size_t x = 0; x < res->precs.size() && sh && keep; ++x) { const map<int, pair<int, int>>& P = res->precs[x]; map<int, pair<int, int>>::const_iterator sp = P.find(t), rp = P.end(); int ops = 0; const vector<int>& v = b.alts[rd.first][rd.second]; for (size_t z = 0; z < v.size(); ++z) if (v[z] >= 0 && P.count(v[z])) { ++ops; rp = P.find(v[z]); } if (sp == P.end() || ops != 1) continue;
                        if (sp->second.first < rp->second.first) sh = false; else if (sp->second.first > rp->second.first) keep = false; else if (rp->second.second == 1) keep = false; else if (rp->second.second == 0) sh = false; }
                    if (sh && keep && at.count(t)) { if (at[t].size() > 1) { status = -1; return; } if (*at[t].begin() == 's') keep = false; else sh = false; } }
                if (sh && keep) { status = 0; continue; } if (!sh) r.shift.erase(t); if (keep) r.reduce[t] = rd; } }
    }
};
int lalr(const Bnf& in) { return Lalr(in).status; }
typedef array<int, 4> It;                 // nt, alt, dot, origin
struct Chart {
    const Bnf& b; set<int> nul; vector<set<It>> c;
    Chart(const Bnf& x) : b(x), nul(nullable(x)) {}
    void add(size_t p, const It& i, vector<It>& w) { if (c[p].insert(i).second) w.push_back(i); }
    void closure(size_t p, vector<It>& w) {
        while (!w.empty()) { It i = w.back(); w.pop_back(); const vector<int>& v = b.alts[i[0]][i[1]];
            if (i[2] < (int)v.size()) { int s = v[i[2]]; if (s < 0) { int n = -1 - s; for (size_t a = 0; a < b.alts[n].size(); ++a) add(p, It{ { n, (int)a, 0, (int)p } }, w); if (nul.count(n)) add(p, It{ { i[0], i[1], i[2] + 1, i[3] } }, w); } }
            else { vector<It> from(c[i[3]].begin(), c[i[3]].end()); for (size_t k = 0; k < from.size(); ++k) { const vector<int>& u = b.alts[from[k][0]][from[k][1]]; if (from[k][2] < (int)u.size() && u[from[k][2]] == -1 - i[0]) add(p, It{ { from[k][0], from[k][1], from[k][2] + 1, from[k][3] } }, w); } } }
    }
    void begin(int nt) { c.assign(1, set<It>()); vector<It> w; for (size_t a = 0; a < b.alts[nt].size(); ++a) add(0, It{ { nt, (int)a, 0, 0 } }, w); closure(0, w); }
    bool feed(int t) { size_t p = c.size(); c.push_back(set<It>()); vector<It> w; for (set<It>::iterator i = c[p - 1].begin(); i != c[p - 1].end(); ++i) { const vector<int>& v = b.alts[(*i)[0]][(*i)[1]]; if ((*i)[2] < (int)v.size() && v[(*i)[2]] == t) add(p, It{ { (*i)[0], (*i)[1], (*i)[2] + 1, (*i)[3] } }, w); } closure(p, w); return !c[p].empty(); }
    bool complete(int nt) { for (set<It>::iterator i = c.back().begin(); i != c.back().end(); ++i) if ((*i)[0] == nt && (*i)[3] == 0 && (*i)[2] == (int)b.alts[nt][(*i)[1]].size()) return true; return false; }
};
Earley earley(const Bnf& b, const vector<int>& in) { Earley e; e.accepts = false; e.viable = 0; Chart c(b); c.begin(b.start); for (size_t i = 0; i < in.size(); ++i) { if (!c.feed(in[i])) return e; e.viable = (int)i + 1; } e.accepts = c.complete(b.start); return e; }
bool prefix_match(const Bnf& b, int nt, const vector<int>& in, size_t from, size_t& len) { Chart c(b); c.begin(nt); len = 0; if (c.complete(nt)) return true; for (size_t i = from; i < in.size(); ++i) { if (!c.feed(in[i])) return false; ++len; if (c.complete(nt)) return true; } return false; }

// Guards are symbols of their own: one is there, ahead of the tokens, where what follows (or that and the end of the input) begins with what it asks for.  A weak symbol stands for itself where that can be shifted, for its strong symbol elsewhere.
struct Recogniser::Impl {
    Spec spec; Bnf b, t; set<int> gs; set<int> nul; map<int, vector<int>> body; unique_ptr<Lalr> m; map<pair<int, int>, bool> memo; int depth; bool deep; const vector<int>* in; bool weakInGuards;
    enum { G = 1 << 19 };
    bool is(int sym, int tok) { if (sym == tok) return true; map<int, int>::const_iterator w = spec.weak.find(tok); return w != spec.weak.end() && w->second == sym; }
    bool pred(int g, int at) { pair<int, int> key(g, at); map<pair<int, int>, bool>::iterator f = memo.find(key); if (f != memo.end()) return f->second; if (depth > 6) { deep = true; return false; } ++depth; bool r = match(body[g], at); --depth; return memo[key] = r; }
    bool match(const vector<int>& start, int from) {
        const vector<int>& in = *this->in; vector<set<It>> c(1); vector<It> w; const int TOP = -7; auto rule = [&](const It& i) -> const vector<int>& { return i[0] == TOP ? start : b.alts[i[0]][i[1]]; };
        auto add = [&](size_t p, const It& i) { if (c[p].insert(i).second) w.push_back(i); };
        auto close = [&](size_t p) { while (!w.empty()) { It i = w.back(); w.pop_back(); const vector<int>& v = rule(i); if (i[2] < (int)v.size()) { int s = v[i[2]]; if (s >= 0) continue; int n = -1 - s; if (gs.count(n)) { if (pred(n, from + (int)p)) add(p, It{ { i[0], i[1], i[2] + 1, i[3] } }); continue; } for (size_t a = 0; a < b.alts[n].size(); ++a) add(p, It{ { n, (int)a, 0, (int)p } }); if (nul.count(n)) add(p, It{ { i[0], i[1], i[2] + 1, i[3] } }); }
            else if (i[0] != TOP) { vector<It> f(c[i[3]].begin(), c[i[3]].end()); for (size_t k = 0; k < f.size(); ++k) { const vector<int>& u = rule(f[k]); if (f[k][2] < (int)u.size() && u[f[k][2]] == -1 - i[0]) add(p, It{ { f[k][0], f[k][1], f[k][2] + 1, f[k][3] } }); } } } };
        auto done = [&]() { return c.back().count(It{ { TOP, 0, (int)start.size(), 0 } }) != 0; };
        add(0, It{ { TOP, 0, 0, 0 } }); close(0); if (done()) return true;
        for (size_t k = from; k < in.size(); ++k) { size_t p = c.size(); c.push_back(set<It>()); for (set<It>::iterator i = c[p - 1].begin(); i != c[p - 1].end(); ++i) { const vector<int>& v = rule(*i); if ((*i)[2] < (int)v.size() && v[(*i)[2]] >= 0 && is(v[(*i)[2]], in[k])) add(p, It{ { (*i)[0], (*i)[1], (*i)[2] + 1, (*i)[3] } }); } close(p); if (c[p].empty()) return false; if (done()) return true; }
        return false;
    }
    // reductions up to the shift of sym: true if it comes to that
    struct Node { int nt, tok; vector<int> kids; }; vector<Node> nodes; typedef vector<pair<int, int>> Stack;
    bool advance(Stack& st, int sym, int tok) { for (int n = 0; n < 5000; ++n) { const Lalr::Row& r = m->rows[st.back().first]; map<int, int>::const_iterator s = r.shift.find(sym); if (s != r.shift.end()) { Node x; x.nt = -1; x.tok = tok; nodes.push_back(x); st.push_back(make_pair(s->second, (int)nodes.size() - 1)); return true; } map<int, pair<int, int>>::const_iterator d = r.reduce.find(sym); if (d == r.reduce.end()) return false; if (d->second.first == m->S) return sym == Lalr::END;
        size_t len = m->b.alts[d->second.first][d->second.second].size(); Node x; x.nt = d->second.first; x.tok = -1; for (size_t k = st.size() - len; k < st.size(); ++k) x.kids.push_back(st[k].second); nodes.push_back(x); st.resize(st.size() - len); st.push_back(make_pair(m->rows[st.back().first].go.find(-1 - d->second.first)->second, (int)nodes.size() - 1)); } return false; }
    void write(int n, string& o) { const Node& x = nodes[n]; if (x.nt < 0) { if (x.tok >= 0) o += "#" + to_string(x.tok) + " "; return; } bool named = x.nt < spec.nts(); if (named) o += "N" + to_string(x.nt) + "( "; for (size_t k = 0; k < x.kids.size(); ++k) write(x.kids[k], o); if (named) o += ") "; }
};
Recogniser::Recogniser(const Spec& s, const Resolve* res) : i(new Impl()) {
    i->spec = s; i->b = lower(s); i->depth = 0; i->deep = false; status = -1; Bnf& b = i->b; for (map<string, int>::const_iterator k = b.ebnf.begin(); k != b.ebnf.end(); ++k) if (k->first[0] == 'g') i->gs.insert(k->second);
    i->t = b; for (size_t n = 0; n < i->t.alts.size(); ++n) for (size_t a = 0; a < i->t.alts[n].size(); ++a) for (size_t k = 0; k < i->t.alts[n][a].size(); ++k) { int& v = i->t.alts[n][a][k]; if (v < 0 && i->gs.count(-1 - v)) v = Impl::G - 1 - v; }
    Bnf ng = b; for (set<int>::iterator g = i->gs.begin(); g != i->gs.end(); ++g) { ng.alts[*g].assign(1, vector<int>(1, 1 << 18)); i->t.alts[*g] = ng.alts[*g]; } i->nul = nullable(ng);
    set<int> all = nullable(b); for (set<int>::iterator k = all.begin(); k != all.end(); ++k) if (!i->gs.count(*k) && !i->nul.count(*k)) return;
    for (map<string, int>::const_iterator k = b.ebnf.begin(); k != b.ebnf.end(); ++k) if (k->first[0] == 'g') { Item it; if (!parse_item(k->first, it)) return; vector<int>& v = i->body[k->second]; for (size_t q = 0; q < it.sub.size(); ++q) { const Item& x = it.sub[q]; if (x.k == 't') v.push_back(x.id); else if (x.k == 'n') v.push_back(-1 - x.id); else { map<string, int>::const_iterator f = b.ebnf.find(text(x)); if (f == b.ebnf.end()) return; v.push_back(-1 - f->second); } } }
    for (map<int, vector<int>>::iterator q = i->body.begin(); q != i->body.end(); ++q) { bool empty = true; for (size_t k = 0; k < q->second.size(); ++k) if (q->second[k] >= 0 || !i->nul.count(-1 - q->second[k])) empty = false; if (empty) return; }     // (a guard that can match nothing is an error)
    i->m.reset(new Lalr(i->t, res)); status = i->m->status;
}
Recogniser::~Recogniser() {}
int Recogniser::accepts(const vector<int>& in, int& shifted, string* tree) {
    shifted = 0; if (status != 1) return -1; i->in = &in; i->memo.clear(); i->nodes.clear(); i->deep = false; i->depth = 0; Impl::Stack st(1, make_pair(0, -1));
    for (size_t k = 0; k <= in.size(); ++k) {
        for (int rounds = 0;; ++rounds) { if (rounds > 50) return -1; Impl::Stack best; int n = 0; for (set<int>::iterator g = i->gs.begin(); g != i->gs.end(); ++g) { Impl::Stack s = st; if (i->advance(s, Impl::G + *g, -1) && i->pred(*g, (int)k)) { ++n; best = s; } } if (i->deep || n > 1) return -1; if (n == 0) break; st = best; }
        if (k == in.size()) { bool ok = i->advance(st, Lalr::END, -1); if (ok && tree && st.size() == 2) { tree->clear(); i->write(st[1].second, *tree); } return ok ? 1 : 0; }
        Impl::Stack s = st; if (i->advance(s, in[k], (int)k)) { st = s; ++shifted; continue; }
        map<int, int>::const_iterator w = i->spec.weak.find(in[k]); if (w == i->spec.weak.end() || !i->advance(st, w->second, (int)k)) return 0; ++shifted;
    }
    return 0;
}

// ---- generation ------------------------------------------------------------------------------------------------
static Rule R(int nt, const char* items) { Rule r; r.nt = nt; string s = items; size_t i = 0; while (i < s.size()) { size_t e = s.find(' ', i); if (e == string::npos) e = s.size(); Item x; if (e > i && parse_item(s.substr(i, e - i), x)) r.items.push_back(x); i = e + 1; } return r; }
static Spec templ(Rng& r, bool guards) {
    Spec s; int k = guards ? r.below(8) : r.below(8);
    if (!guards) switch (k) {
        case 0: s.rules = { R(0, "n0 t0 n1"), R(0, "n1"), R(1, "n1 t1 n2"), R(1, "n2"), R(2, "t2"), R(2, "t3 n0 t4") }; break;           // expressions
        case 1: s.rules = { R(0, "z:n1"), R(1, "t0 t1 n2 t2"), R(1, "t3 n2 n1"), R(1, "t4 z:n1 t5"), R(2, "t0"), R(2, "t6 n2") }; break; // statements
        case 2: s.rules = { R(0, "t0 o:n1 t1"), R(1, "n2 z:t2.n2"), R(2, "t3"), R(2, "n0") }; break;                                    // nested lists
        case 3: s.rules = { R(0, "t0 n0 t1"), R(0, "") }; break;                                                                        // a^n b^n
        case 4: s.rules = { R(0, "n0 t0"), R(0, "") }; break;                                                                           // left recursive
        case 5: s.rules = { R(0, "t0 n0"), R(0, "t1") }; break;                                                                         // right recursive: deep stacks
        case 6: s.rules = { R(0, "n1 t0 n2"), R(0, "n2"), R(1, "t1 n2"), R(1, "t2"), R(2, "n1") }; break;                               // LALR, not SLR
        default: s.rules = { R(0, "r:n1"), R(1, "a:t0.t1 o:n2 t2"), R(2, "t3 n2"), R(2, "t4") }; break;
    } else switch (k) {
        case 0: s.rules = { R(0, "g:n1.t2 r:t0 n2"), R(1, "t0 n1 t1"), R(1, "t0 t1"), R(2, "t1 n2 t2"), R(2, "t1 t2") }; s.guards = true; break;         // a^n b^n c^n
        case 1: s.rules = { R(0, "z:n1"), R(1, "g:t0.t1 t0 t1 n2 t2"), R(1, "n2 t2"), R(2, "t0"), R(2, "t3 n2 t4") }; s.guards = true; break;         // assignment or expression, by guard
        case 2: s.rules = { R(0, "z:n1"), R(1, "g:n3 n3 t2"), R(1, "t0 r:t1 t3"), R(3, "t0 r:t1"), R(3, "t4") }; s.guards = true; break;             // long look-ahead
        case 3: s.rules = { R(0, "z:n1"), R(1, "g:t0.n2.t3 t0 n2 t3"), R(1, "t0 r:t1"), R(2, "g:t1.t1.t2 t1 t1 t2"), R(2, "t1 n2"), R(2, "t2") }; s.guards = true; break;   // guard evaluated inside a guard
        case 4: s.rules = { R(0, "z:n1"), R(1, "g:n2.t4 n2 t4"), R(1, "t0 z:t1 t5"), R(2, "t0 z:t1") }; s.guards = true; break;
        case 5: s.rules = { R(0, "n1 o:n2"), R(1, "r:t0"), R(2, "g:t1.t1.t1 t1 t1 t1"), R(2, "t1 o:t1"), R(2, "t2") }; s.guards = true; break;
        case 6: s.rules = { R(0, "r:n1"), R(1, "g:n2.n2.t3 n2 n2 t3"), R(1, "n2 t4"), R(2, "t0 o:t1"), R(2, "t2 n2 t2") }; s.guards = true; break;
        default: s.rules = { R(0, "z:n1"), R(1, "g:n3.t5 n3 t5"), R(1, "n4 t6"), R(3, "g:t0.n4.t1 t0 n4 t1"), R(3, "t0 t1"), R(4, "t2"), R(4, "t0 n4 t1 t1") }; s.guards = true; break;
    }
    return s;
}
// no guard can come to be evaluated while another is (or the same one again: that may never end)
static bool flat_guards(const Spec& s) {
    for (size_t i = 0; i < s.rules.size(); ++i) for (size_t k = 0; k < s.rules[i].items.size(); ++k) { const Item& g = s.rules[i].items[k]; if (g.k != 'g') continue;
        set<int> seen; vector<int> w; Items body(1, g); each(body, [&](const Item& x) { if (x.k == 'n' && seen.insert(x.id).second) w.push_back(x.id); });
        while (!w.empty()) { int n = w.back(); w.pop_back(); for (size_t q = 0; q < s.rules.size(); ++q) if (s.rules[q].nt == n) { bool bad = false; each(s.rules[q].items, [&](const Item& x) { if (x.k == 'g') bad = true; if (x.k == 'n' && seen.insert(x.id).second) w.push_back(x.id); }); if (bad) return false; } } }
    return true;
}
Spec gen_template(Rng& r, bool guards) { return templ(r, guards); }
// few symbols used again and again in short rules that call each other, from different contexts: states are shared, and what may follow flows along cycles between them
static Spec shared(Rng& r) {
    Spec last; for (int tries = 0; tries < 40; ++tries) {
        Spec s; int N = r.range(2, 5), T = r.range(2, 4), E = r.range(1, 3); auto t = [&](int k) { Item x; x.k = 't'; x.id = k; return x; }; auto n = [&](int k) { Item x; x.k = 'n'; x.id = k; return x; };
        int A = r.range(2, 3); for (int a = 0; a < A; ++a) { Rule u; u.nt = 0; if (r.chance(1, 3)) u.items.push_back(t(r.below(T))); u.items.push_back(n(r.range(1, N - 1 ? N - 1 : 1))); if (r.chance(5, 6)) u.items.push_back(t(T + r.below(E))); s.rules.push_back(u); }
        for (int k = 1; k < N; ++k) { int R_ = r.range(1, 3); for (int a = 0; a < R_; ++a) { Rule u; u.nt = k; int c = r.below(14), m = r.range(1, N - 1), q = r.range(1, N - 1), x = r.below(T);
            if (c < 5) { u.items.push_back(t(x)); u.items.push_back(n(m)); } else if (c < 7) { u.items.push_back(t(x)); u.items.push_back(n(m)); u.items.push_back(r.chance(1, 2) ? t(r.below(T)) : n(q)); } else if (c < 8) { u.items.push_back(n(m)); u.items.push_back(t(x)); } else if (c < 9) u.items.push_back(n(m)); else if (c < 10) { u.items.push_back(n(m)); u.items.push_back(n(q)); } else if (c < 11) { u.items.push_back(t(x)); Item o; o.k = r.chance(2, 3) ? 'o' : 'z'; o.id = 0; o.sub.push_back(r.chance(1, 2) ? t(r.below(T)) : n(q)); u.items.push_back(o); } else if (c < 12 && r.chance(1, 2)) {} else { u.items.push_back(t(x)); if (r.chance(1, 3)) u.items.push_back(t(r.below(T))); } s.rules.push_back(u); } }
        // no two rules alike, nothing unreachable or endless
        set<string> once; bool dup = false; for (size_t k = 0; k < s.rules.size(); ++k) { string k2 = to_string(s.rules[k].nt) + ":"; for (size_t y = 0; y < s.rules[k].items.size(); ++y) k2 += text(s.rules[k].items[y]) + " "; if (!once.insert(k2).second) dup = true; } if (dup || N < 2) continue;
        set<int> reach; reach.insert(0); for (int z = 0; z < N; ++z) for (size_t k = 0; k < s.rules.size(); ++k) if (reach.count(s.rules[k].nt)) each(s.rules[k].items, [&](const Item& x) { if (x.k == 'n') reach.insert(x.id); });
        vector<Rule> kept; for (size_t k = 0; k < s.rules.size(); ++k) if (reach.count(s.rules[k].nt)) kept.push_back(s.rules[k]); map<int, int> ren; for (set<int>::iterator z = reach.begin(); z != reach.end(); ++z) { int v = (int)ren.size(); ren[*z] = v; } function<void(Item&)> fix = [&](Item& x) { if (x.k == 'n') x.id = ren[x.id]; for (size_t q = 0; q < x.sub.size(); ++q) fix(x.sub[q]); }; for (size_t k = 0; k < kept.size(); ++k) { kept[k].nt = ren[kept[k].nt]; for (size_t y = 0; y < kept[k].items.size(); ++y) fix(kept[k].items[y]); } s.rules = kept;
        set<int> live; for (int z = 0; z < 8; ++z) for (size_t k = 0; k < s.rules.size(); ++k) { bool ok = true; for (size_t y = 0; y < s.rules[k].items.size(); ++y) if (s.rules[k].items[y].k == 'n' && !live.count(s.rules[k].items[y].id)) ok = false; if (ok) live.insert(s.rules[k].nt); } if ((int)live.size() != s.nts()) continue;
        if (!s.check().empty() || hidden_left_recursion(lower(s))) continue; last = s; if (Recogniser(s).status == 1 || r.chance(1, 12)) break; }
    return last;
}
Spec gen_spec(Rng& r, bool guards, bool weak) {
    Spec s;
    if (!guards && r.chance(1, 3) && !(s = shared(r)).rules.empty()) {}
    else if (r.chance(guards ? 3 : 1, guards ? 4 : 3)) s = templ(r, guards);
    else for (int tries = 0; tries < 30; ++tries) {
        s = Spec(); int N = r.range(1, 4), T = r.range(2, 6); bool ll = r.chance(2, 3);
        for (int n = 0; n < N; ++n) { int R_ = r.range(1, 3); vector<int> firsts; for (int i = 0; i < T; ++i) firsts.push_back(i); for (int a = 0; a < R_; ++a) { Rule ru; ru.nt = n; int len = r.range(0, 4); if (ll && len && !firsts.empty()) { int k = r.below((int)firsts.size()); Item x; x.k = 't'; x.id = firsts[k]; firsts.erase(firsts.begin() + k); ru.items.push_back(x); }
            for (int q = (int)ru.items.size(); q < len; ++q) { Item x; int c = r.below(20); if (c < 11) { x.k = 't'; x.id = r.below(T); } else if (c < 16) { x.k = 'n'; x.id = r.below(N); } else { x.k = "orza"[r.below(4)]; int m = r.range(1, 3); x.id = 0; for (int z = 0; z < m; ++z) { Item y; y.k = r.chance(3, 4) ? 't' : 'n'; y.id = y.k == 't' ? r.below(T) : r.below(N); x.sub.push_back(y); } } ru.items.push_back(x); }
            s.rules.push_back(ru); } }
        if (s.check().empty()) break;
    }
    if (guards && r.chance(1, 2)) for (int q = r.range(1, 2); q > 0; --q) {                                     // guards anywhere: in front of what follows them, or of anything
        Spec g = s; Rule& ru = g.rules[r.below((int)g.rules.size())]; size_t at = r.below((int)ru.items.size() + 1); Item x; x.k = 'g'; x.id = 0; bool token = false; for (size_t k = 0; k < ru.items.size(); ++k) if (ru.items[k].k == 't') token = true; if (!token) continue;   // (a rule of nothing but guards can be applied for ever)
        if (r.chance(3, 4)) for (size_t k = at; k < ru.items.size() && x.sub.size() < 2 && (ru.items[k].k == 't' || ru.items[k].k == 'n'); ++k) x.sub.push_back(ru.items[k]);
        if (x.sub.empty() || r.chance(1, 4)) { Item y; y.k = r.chance(4, 5) ? 't' : 'n'; y.id = y.k == 't' ? r.below(max(1, g.terms())) : r.below(g.nts()); x.sub.push_back(y); }
        ru.items.insert(ru.items.begin() + at, x); g.guards = true; if (g.check().empty() && flat_guards(g)) s = g;
    }
    if (r.chance(1, 3)) { int t = s.terms(); s.ignored.insert(t); if (r.chance(1, 3)) s.ignored.insert(t + 1); }
    if (weak && r.chance(2, 3)) { int t = s.terms(); set<int> used; for (size_t i = 0; i < s.rules.size(); ++i) each(s.rules[i].items, [&](const Item& x) { if (x.k == 't') used.insert(x.id); }); vector<int> u(used.begin(), used.end()); if (!u.empty()) { int st = u[r.below((int)u.size())]; int w = r.chance(1, 2) ? t : u[r.below((int)u.size())]; if (w != st) s.weak[w] = st; } }
    return s;
}
static int g_deriveBudget;
static void derive(Rng& r, const Spec& s, const Items& is, int depth, vector<int>& o, int budget) {
    for (size_t i = 0; i < is.size(); ++i) { const Item& x = is[i]; if ((int)o.size() > budget * 3 + 200 || --g_deriveBudget < 0) return;
        if (x.k == 't') o.push_back(x.id);
        else if (x.k == 'n') { vector<int> c; for (size_t k = 0; k < s.rules.size(); ++k) if (s.rules[k].nt == x.id) c.push_back((int)k); if (c.empty()) return; int pick = c[r.below((int)c.size())]; if (budget > 100 && depth > 0 && (int)o.size() < budget && r.chance(5, 6)) { int best = -1; for (size_t k = 0; k < c.size(); ++k) { int w = 0; each(s.rules[c[k]].items, [&](const Item& y) { if (y.k == 'n') w += 2; else if (y.k == 'r' || y.k == 'z') w += 1; }); w = w * 8 + r.below(8); if (w > best) { best = w; pick = c[k]; } } } if (depth <= 0 || (int)o.size() > budget) { int best = 1000; for (size_t k = 0; k < c.size(); ++k) { int w = 0; each(s.rules[c[k]].items, [&](const Item& y) { if (y.k == 'n') w += 10; else ++w; }); if (w < best) { best = w; pick = c[k]; } } } if (depth > -12) derive(r, s, s.rules[pick].items, depth - 1, o, budget); }
        else if (x.k == 'a') { Items one(1, x.sub[r.below((int)x.sub.size())]); derive(r, s, one, depth, o, budget); }
        else if (x.k == 'o') { if (r.chance(1, 2)) derive(r, s, x.sub, depth - 1, o, budget); }
        else if (x.k == 'r' || x.k == 'z') { int n = x.k == 'r' ? 1 : 0; n += r.below(depth > 0 ? r.chance(1, 4) || budget > 100 ? max(2, budget / 3) : 4 : 1); for (int k = 0; k < n; ++k) { derive(r, s, x.sub, depth - 1, o, budget); if ((int)o.size() > budget) break; } }
    }
}
vector<int> gen_sentence(Rng& r, const Spec& s, int budget, int start) {
    vector<int> o; g_deriveBudget = 20000; Items st(1); st[0].k = 'n'; st[0].id = start; derive(r, s, st, budget > 100 ? budget : r.range(2, 10), o, budget);
    if (!s.ignored.empty()) { vector<int> ig(s.ignored.begin(), s.ignored.end()), v; for (size_t i = 0; i <= o.size(); ++i) { while (r.chance(1, 4)) v.push_back(ig[r.below((int)ig.size())]); if (i < o.size()) v.push_back(o[i]); } o = v; }
    if (!s.weak.empty()) for (size_t i = 0; i < o.size(); ++i) for (map<int, int>::const_iterator w = s.weak.begin(); w != s.weak.end(); ++w) if (o[i] == w->second && r.chance(1, 2)) o[i] = w->first;
    int T = max(1, s.terms()); int m = r.chance(1, 3) ? r.range(1, 2) : 0; for (int k = 0; k < m; ++k) { int c = r.below(4); size_t at = (size_t)r.below((int)o.size() + 1); if (c == 0 && at < o.size()) o.erase(o.begin() + at); else if (c == 1) o.insert(o.begin() + at, r.below(T)); else if (c == 2 && at < o.size()) o[at] = r.below(T); else o.resize(at); }
    return o;
}
}

// Reference regular expressions and longest-match lexing, independent of the code under test (Thompson NFA simulation over ints).
#ifndef REF_REGEX_H
#define REF_REGEX_H
#include "core.h"
namespace ref {
#include "ucd.h"
using namespace std;
typedef vector<int> Syms;
inline string utf8(const Syms& s) { string o; for (size_t i = 0; i < s.size(); ++i) { unsigned c = (unsigned)s[i]; if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } } return o; }
inline Syms unutf8(const string& s) {                    // lenient: a stray byte stands for itself
    Syms o; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : c >= 0xc0 ? 1 : 0; bool ok = i + n < s.size(); for (int k = 1; ok && k <= n; ++k) if (((unsigned char)s[i + k] & 0xc0) != 0x80) ok = false;
        if (!n || !ok) { o.push_back(c); ++i; continue; } int v = n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7; for (int k = 1; k <= n; ++k) v = v << 6 | ((unsigned char)s[i + k] & 63); o.push_back(v); i += n + 1; }
    return o;
}
// the ranges of characters {unicode-...} stands for; false: no such name
inline bool category(const string& nm, vector<pair<int, int>>& o) {
    static const char* names[] = { "letter", "L", "letter-uppercase", "Lu", "letter-lowercase", "Ll", "letter-titlecase", "Lt", "letter-modifier", "Lm", "letter-other", "Lo", "mark", "M", "mark-nonspacing", "Mn", "mark-spacing", "Mc", "mark-enclosing", "Me", "number", "N", "number-decimal", "Nd", "number-letter", "Nl", "number-other", "No",
        "punctuation", "P", "punctuation-connector", "Pc", "punctuation-dash", "Pd", "punctuation-open", "Ps", "punctuation-close", "Pe", "punctuation-initial", "Pi", "punctuation-final", "Pf", "punctuation-other", "Po", "symbol", "S", "symbol-math", "Sm", "symbol-currency", "Sc", "symbol-modifier", "Sk", "symbol-other", "So",
        "separator", "Z", "separator-space", "Zs", "separator-line", "Zl", "separator-paragraph", "Zp", "control-control", "Cc", "control-format", "Cf", "control-private", "Co" };
    size_t d = nm.find('-'); if (d == string::npos || (nm.substr(0, d) != "u" && nm.substr(0, d) != "uni" && nm.substr(0, d) != "unicode")) return false; string r = nm.substr(d + 1);
    for (size_t k = 0; k < sizeof names / sizeof *names; k += 2) if (r == names[k]) { const char* c = names[k + 1]; for (size_t q = 0; q < sizeof ucdCat / sizeof *ucdCat; ++q) if (ucdCat[q].a == c[0] && (!c[1] || ucdCat[q].b == c[1])) o.push_back(make_pair(ucdCat[q].lo, ucdCat[q].hi)); return true; }
    return false;
}
inline Syms utf16(const Syms& s) { Syms o; for (size_t i = 0; i < s.size(); ++i) if (s[i] > 0xffff) { o.push_back(0xd800 + ((s[i] - 0x10000) >> 10)); o.push_back(0xdc00 + ((s[i] - 0x10000) & 0x3ff)); } else o.push_back(s[i]); return o; }
inline Syms unutf16(const Syms& s) { Syms o; for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 0xd800 && s[i] < 0xdc00 && i + 1 < s.size() && s[i + 1] >= 0xdc00 && s[i + 1] < 0xe000) { o.push_back(0x10000 + ((s[i] - 0xd800) << 10) + (s[i + 1] - 0xdc00)); ++i; } else o.push_back(s[i]); return o; }
struct Nfa {
    struct St { vector<int> eps; vector<pair<int,int>> rng; bool neg; int to; int acc; St() : neg(false), to(-1), acc(-1) {} };
    struct Expr { Syms t; bool lit; int cs; };           // cs: 0 as where it is used, 1 case insensitive, 2 case sensitive
    vector<St> st; int start; map<string, vector<Expr>> exprs; set<string> busy; bool cats, cases;         // cats: categories of characters matter; cases: the cases of characters beyond ASCII do
    // false: the text has characters whose category or case differs between versions of Unicode
    bool sure(const Syms& t) const { Syms u = unutf16(t); for (size_t k = 0; k < u.size(); ++k) { if (cats) for (size_t q = 0; q < sizeof ucdUnsure / sizeof *ucdUnsure; ++q) if (u[k] >= ucdUnsure[q][0] && u[k] <= ucdUnsure[q][1]) return false; if (cases) for (size_t q = 0; q < sizeof ucdOdd / sizeof *ucdOdd; ++q) if (u[k] >= ucdOdd[q][0] && u[k] <= ucdOdd[q][1]) return false; } return true; }
    void settle(Syms& t) const { if ((!cats && !cases) || sure(t)) return; for (size_t k = 0; k < t.size(); ++k) { size_t n = t[k] >= 0xd800 && t[k] < 0xdc00 && k + 1 < t.size() && t[k + 1] >= 0xdc00 && t[k + 1] < 0xe000 ? 2 : 1; if (!sure(Syms(t.begin() + k, t.begin() + k + n))) t[k] = t[k + n - 1] = 'x'; k += n - 1; } }
    Nfa() : cats(false), cases(false) { start = add(); }
    int add() { st.push_back(St()); return (int)st.size() - 1; }
    struct Frag { int in, out; };
    // recursive descent over the regex text
    struct P { Nfa& n; const Syms& s; size_t i; bool bad, ci; P(Nfa& a, const Syms& b, bool c = false) : n(a), s(b), i(0), bad(false), ci(c) {}
        static bool letter(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
        template<size_t N> void mapped(vector<pair<int, int>>& v, size_t z, const int (&m)[N][3]) { for (size_t q = 0; q < N; ++q) for (size_t k = 0; k < z; ++k) { int lo = max(v[k].first, m[q][0]), hi = min(v[k].second, m[q][1]); if (lo <= hi) v.push_back(make_pair(m[q][2] + lo - m[q][0], m[q][2] + hi - m[q][0])); } }
        void fold(vector<pair<int, int>>& v) { if (!ci) return; size_t z = v.size(); for (size_t k = 0; k < z; ++k) if (v[k].second > 127) n.cases = true; mapped(v, z, ucdUpper); mapped(v, z, ucdLower); }
        int esc() { int c = s[i++]; if (c != '\\') return c; if (i >= s.size()) { bad = true; return 0; } c = s[i++]; switch (c) { case 'n': return 10; case 'r': return 13; case 't': return 9; case 'f': return 12; case 'a': return 7; case 'e': return 27;
            case 'x': case 'u': { int v = 0; for (int k = 0; k < (c == 'x' ? 2 : 4) && i < s.size() && s[i] < 128 && isxdigit(s[i]); ++k, ++i) v = v * 16 + (isdigit(s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10); return v; } case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': { int v = c - '0'; for (int k = 1; k < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7'; ++k, ++i) v = v * 8 + s[i] - '0'; return v; } case 'o': { int v = 0; for (int k = 0; k < 6 && i < s.size() && s[i] >= '0' && s[i] <= '7'; ++k, ++i) v = v * 8 + s[i] - '0'; return v; } case '8': case '9': bad = true; return c; default: return c; } }
        Frag alt() { Frag f; f.in = n.add(); f.out = n.add(); for (;;) { Frag c = cat(); n.st[f.in].eps.push_back(c.in); n.st[c.out].eps.push_back(f.out); if (i < s.size() && s[i] == '|') { ++i; continue; } break; } return f; }
        Frag cat() { Frag f; f.in = f.out = n.add(); if (i >= s.size() || s[i] == '|' || s[i] == ')') bad = true; while (i < s.size() && s[i] != '|' && s[i] != ')') { Frag c = post(); n.st[f.out].eps.push_back(c.in); f.out = c.out; } return f; }
        Frag post() { Frag f = atom(); while (i < s.size() && (s[i] == '*' || s[i] == '+' || s[i] == '?')) { int c = s[i++]; Frag g; g.in = n.add(); g.out = n.add(); n.st[g.in].eps.push_back(f.in); n.st[f.out].eps.push_back(g.out); if (c != '+') n.st[g.in].eps.push_back(g.out); if (c != '?') n.st[f.out].eps.push_back(f.in); f = g; } return f; }
        Frag atom() { Frag f; if (s[i] == '(') { ++i; f = alt(); if (i < s.size() && s[i] == ')') ++i; else bad = true; return f; }
            if (s[i] == '{') { string nm; for (++i; i < s.size() && s[i] != '}'; ++i) nm += utf8(Syms(1, s[i])); ++i; f.in = n.add(); f.out = n.add(); map<string, vector<Expr>>::const_iterator e = n.exprs.find(nm); if (e == n.exprs.end()) { St x; x.to = f.out; if (!category(nm, x.rng)) { bad = true; return f; } n.cats = true; fold(x.rng); n.st[f.in].rng = x.rng; n.st[f.in].to = x.to; n.pairs(f, x); return f; } if (!n.busy.insert(nm).second) { bad = true; return f; }
                for (size_t k = 0; k < e->second.size(); ++k) { const Expr& x = e->second[k]; bool c = x.cs == 1 ? true : x.cs == 2 ? false : ci; Frag g; if (x.lit) g = n.literal(x.t, c); else { P p(n, x.t, c); if (x.t.empty()) p.bad = true; else g = p.alt(); if (p.bad || p.i != x.t.size()) { bad = true; n.busy.erase(nm); return f; } } n.st[f.in].eps.push_back(g.in); n.st[g.out].eps.push_back(f.out); } n.busy.erase(nm); return f; }
            f.in = n.add(); f.out = n.add(); St x; x.to = f.out;
            if (s[i] == '.') { ++i; x.neg = true; }
            else if (s[i] == '[') { ++i; if (i < s.size() && s[i] == '^') { x.neg = true; ++i; } while (i < s.size() && s[i] != ']') { int a = esc(), b = a; if (i + 1 < s.size() && s[i] == '-') { ++i; b = esc(); } if (b < a) bad = true; x.rng.push_back(make_pair(a, b)); } if (i < s.size()) ++i; else bad = true; if (x.rng.empty()) bad = true; }
            else { if (s[i] == '*' || s[i] == '+' || s[i] == '?' || s[i] == ']' || s[i] == '{' || s[i] == '}') { bad = true; ++i; return f; } int a = esc(); x.rng.push_back(make_pair(a, a)); }
            size_t plain = x.rng.size(); fold(x.rng); if (ci && x.neg && x.rng.size() != plain) bad = true; n.st[f.in].rng = x.rng; n.st[f.in].neg = x.neg; n.st[f.in].to = x.to; n.pairs(f, x); return f; }
    };
    // characters above 0xffff arrive as two UTF-16 units: a first unit from one range, then a second from another
    void pairs(Frag f, const St& x) {
        struct B { int h0, h1, l0, l1; }; vector<B> bs; if (!x.neg) { bool any = false; for (size_t k = 0; k < x.rng.size(); ++k) any |= x.rng[k].second > 0xffff; if (!any) return; }
        vector<pair<int, int>> r; if (!x.neg) r = x.rng; else { set<int> cut; int at = 0x10000; vector<pair<int, int>> v = x.rng; sort(v.begin(), v.end()); for (size_t k = 0; k < v.size(); ++k) { if (v[k].first > at) r.push_back(make_pair(at, v[k].first - 1)); at = max(at, v[k].second + 1); } if (at <= 0x10ffff) r.push_back(make_pair(at, 0x10ffff)); }
        for (size_t k = 0; k < r.size(); ++k) for (int h = 0; h < 0x400; ++h) { int lo = max(r[k].first, 0x10000 + h * 0x400), hi = min(r[k].second, 0x10000 + h * 0x400 + 0x3ff); if (lo > hi) continue; B b = { h, h, lo & 0x3ff, hi & 0x3ff }; if (!bs.empty() && bs.back().h1 == h - 1 && bs.back().l0 == b.l0 && bs.back().l1 == b.l1) bs.back().h1 = h; else bs.push_back(b); }
        for (size_t k = 0; k < bs.size(); ++k) { int a = add(), m = add(); st[f.in].eps.push_back(a); st[a].rng.push_back(make_pair(0xd800 + bs[k].h0, 0xd800 + bs[k].h1)); st[a].to = m; st[m].rng.push_back(make_pair(0xdc00 + bs[k].l0, 0xdc00 + bs[k].l1)); st[m].to = f.out; }
    }
    Frag literal(const Syms& t, bool ci) { Frag f; f.in = f.out = add(); for (size_t k = 0; k < t.size(); ++k) { int to = add(); st[f.out].rng.push_back(make_pair(t[k], t[k])); if (ci) { P p(*this, t, true); p.fold(st[f.out].rng); } st[f.out].to = to; f.out = to; } int e = add(); st[f.out].eps.push_back(e); f.out = e; return f; }
    bool addLiteral(const Syms& t, int sym, bool ci) { if (t.empty()) return false; Frag f = literal(t, ci); st[start].eps.push_back(f.in); st[f.out].acc = sym; return true; }
    bool addRegex(const Syms& re, int sym, bool ci) { P p(*this, re, ci); if (re.empty()) return false; Frag f = p.alt(); if (p.bad || p.i != re.size()) return false; int e = add(); st[f.out].eps.push_back(e); st[start].eps.push_back(f.in); st[e].acc = sym; return true; }
    bool addRegex(const Syms& re, int sym) { P p(*this, re); if (re.empty()) return false; Frag f = p.alt(); if (p.bad || p.i != re.size()) return false; st[start].eps.push_back(f.in); st[f.out].acc = sym; return true; }
    void close(set<int>& s) const { vector<int> w(s.begin(), s.end()); while (!w.empty()) { int x = w.back(); w.pop_back(); for (size_t k = 0; k < st[x].eps.size(); ++k) if (s.insert(st[x].eps[k]).second) w.push_back(st[x].eps[k]); } }
    set<int> init() const { set<int> s; s.insert(start); close(s); return s; }
    set<int> stepSet(const set<int>& s, int c) const { set<int> o; for (set<int>::const_iterator i = s.begin(); i != s.end(); ++i) { const St& x = st[*i]; if (x.to < 0) continue; bool in = false; for (size_t k = 0; k < x.rng.size(); ++k) if (c >= x.rng[k].first && c <= x.rng[k].second) in = true; if (in != x.neg) o.insert(x.to); } close(o); return o; }
    int accept(const set<int>& s) const { int a = -1; for (set<int>::const_iterator i = s.begin(); i != s.end(); ++i) if (st[*i].acc >= 0 && (a < 0 || st[*i].acc < a)) a = st[*i].acc; return a; }
};
struct Pos { int off, line, col; bool operator==(const Pos& o) const { return off == o.off && line == o.line && col == o.col; } };
struct PosTrack { Pos p; bool cr; PosTrack() : cr(false) { p.off = p.line = p.col = 0; } void eat(int c) { ++p.off; if (c == 10 && cr) { cr = false; return; } cr = false; if (c == 10 || c == 11 || c == 12 || c == 13 || c == 0x85 || c == 0x2028 || c == 0x2029) { ++p.line; p.col = 0; cr = c == 13; } else ++p.col; } };
struct Tok { int sym, start, len; Pos pos, fin; int need; };     // need: symbols that have to be read (end of input counts one) before this token is decided
inline vector<Tok> lex(const Nfa& n, const Syms& t) {
    vector<Tok> out; size_t i = 0; PosTrack pt; map<set<int>, map<int, set<int>>> cache;
    const set<int> init = n.init(); int need = 0;
    while (i < t.size()) {
        const set<int>* s = &init; size_t k = i; int sym = -1; size_t len = 0; bool eof = false;
        for (;;) { if (k >= t.size()) { eof = true; break; } map<int, set<int>>& row = cache[*s]; map<int, set<int>>::iterator it = row.find(t[k]); if (it == row.end()) it = row.insert(make_pair(t[k], n.stepSet(*s, t[k]))).first; s = &it->second; ++k; if (s->empty()) break; int a = n.accept(*s); if (a >= 0) { sym = a; len = k - i; } }
        Tok o; o.sym = sym; o.start = (int)i; o.len = len ? (int)len : 1; o.pos = pt.p; if ((int)(k + (eof ? 1 : 0)) > need) need = (int)(k + (eof ? 1 : 0)); o.need = need;
        for (int q = 0; q < o.len; ++q) pt.eat(t[i + q]); o.fin = pt.p; out.push_back(o); i += o.len;
    }
    return out;
}
}
#endif

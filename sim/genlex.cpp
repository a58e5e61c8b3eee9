#include "genlex.h"
using namespace std;
namespace sim {
static string sym(int c) { char b[16]; if (c == 10) return "\\n"; if (c == 13) return "\\r"; if (c == 9) return "\\t"; if (c > 0xffff) return ref::utf8(ref::Syms(1, c)); if (c < 256 && !isprint(c) && c % 3) { char d[16]; snprintf(d, sizeof d, c % 3 == 1 ? "\\x%02x" : "\\%03o", c); return d; } if (c == 7) return "\\a"; if (c == 12) return "\\f"; if (c == 27) return "\\e"; if (c < 32 || c == 127 || (c >= 128)) { snprintf(b, sizeof b, "\\u%04x", c); return b; } if (strchr("()[]{}|*+?.\\^-/\"", c)) return string("\\") + (char)c; return string(1, (char)c); }
static string cls(Rng& r, const vector<int>& a) { string o = "["; if (r.chance(1, 8)) o += "^"; int n = r.range(1, 3); for (int i = 0; i < n; ++i) { int x = a[r.below((int)a.size())]; if (r.chance(1, 2)) { int y = x + r.range(0, r.chance(1, 4) ? 300 : 5); if (x > 0xffff) y = x + (r.chance(1, 2) ? r.range(0, 5) : r.chance(1, 2) ? r.range(0, 5000) : r.range(0, 0x60000)); else if (y > 0xffff) y = r.chance(1, 2) ? 0xffff : 0x10000 + r.below(3000); if (y > 0x10ffff) y = 0x10ffff; if (x < 0xd800 && y >= 0xd800) y = x; o += sym(x) + "-" + sym(y); } else o += sym(x); } return o + "]"; }
static bool g_cats; static const char* g_cat[] = { "letter", "letter-uppercase", "letter-lowercase", "letter-titlecase", "letter-modifier", "letter-other", "mark", "mark-nonspacing", "mark-spacing", "mark-enclosing", "number", "number-decimal", "number-letter", "number-other", "punctuation", "punctuation-connector", "punctuation-dash", "punctuation-open", "punctuation-close", "punctuation-initial", "punctuation-final", "punctuation-other", "symbol", "symbol-math", "symbol-currency", "symbol-modifier", "symbol-other", "separator", "separator-space", "separator-line", "separator-paragraph", "control-control", "control-format", "control-private" };
static string gre(Rng& r, const vector<int>& a, int d) {
    int k = r.below(d <= 0 ? 4 : 12);
    if (k < 3) { int n = r.range(1, 4); string o; for (int i = 0; i < n; ++i) o += sym(a[r.below((int)a.size())]); return o; }
    if (k < 5 && g_cats && r.chance(1, 4)) { string n; return "{u-" + string(g_cat[r.below((int)(sizeof g_cat / sizeof *g_cat))]) + "}"; }
    if (k < 5) return cls(r, a);
    if (k < 7) return gre(r, a, d - 1) + gre(r, a, d - 1);
    if (k < 9) return "(" + gre(r, a, d - 1) + "|" + gre(r, a, d - 1) + ")";
    string in = r.chance(1, 2) ? cls(r, a) : r.chance(1, 2) ? sym(a[r.below((int)a.size())]) : "(" + gre(r, a, d - 1) + ")";
    return in + (k == 9 ? "*" : k == 10 ? "+" : "?");
}
LexSpec gen_lexspec(Rng& r, bool ascii) {
    LexSpec s; g_cats = !ascii && r.chance(1, 8); static const int pool[] = { 'a','b','c','d','e','z','0','1','9','_','+','-','(','[','.','*','"','/','\\',' ','\t','\n','\r' }; int n = r.range(2, 6);
    for (int i = 0; i < n; ++i) s.alpha.push_back(pool[r.below((int)(sizeof pool / sizeof *pool))]);
    if (!ascii) { static const int uni[] = { 0x0b, 0x0c, 0x7f, 0x80, 0x85, 0xe9, 0xff, 0x100, 0x17f, 0x3b1, 0x7ff, 0x800, 0x2028, 0x2029, 0x4e00, 0xabcd, 0xd7ff, 0xe000, 0xfffd, 0xffff, 1 }; int m = r.chance(1, 2) ? r.range(1, 3) : 0; for (int i = 0; i < m; ++i) s.alpha.push_back(uni[r.below((int)(sizeof uni / sizeof *uni))]); if (r.chance(1, 4)) { static const int ast[] = { 0x10000, 0x103ff, 0x10400, 0x1f600, 0x1f3ff, 0x1f400, 0x2f800, 0xfffff, 0x100000, 0x10fc00, 0x10ffff }; for (int i = r.range(1, 3); i > 0; --i) s.alpha.push_back(ast[r.below((int)(sizeof ast / sizeof *ast))]); } }
    int k = r.range(1, 6); for (int i = 0; i < k; ++i) { int t = r.below(8); 
        if (t == 0) s.re.push_back("[ \\t\\n\\r]+"); else if (t == 1) s.re.push_back("[a-z_][a-z0-9_]*"); else if (t == 2 && r.chance(1, 2)) s.re.push_back(r.chance(1, 2) ? "\\/\\*([^*]|(\\*+[^*\\/]))*\\*+\\/" : "\"([^\"]|\\\\.)*\""); else s.re.push_back(gre(r, s.alpha, r.range(0, 3))); }
    return s;
}
string gen_member(Rng& r, const string& re) {
    ref::Nfa n; if (!n.addRegex(ref::unutf8(re), 0)) return "";
    ref::Syms out; set<int> s = n.init(); int lim = r.range(1, 14);
    for (int i = 0; i < 60; ++i) { if (n.accept(s) >= 0 && (i >= lim || r.chance(1, 6)) && i > 0) break; vector<int> opts; for (set<int>::iterator k = s.begin(); k != s.end(); ++k) { const ref::Nfa::St& x = n.st[*k]; if (x.to < 0) continue; if (!x.neg) { for (size_t q = 0; q < x.rng.size(); ++q) { opts.push_back(x.rng[q].first); opts.push_back(x.rng[q].second); if (x.rng[q].second > x.rng[q].first) opts.push_back(x.rng[q].first + r.below(x.rng[q].second - x.rng[q].first + 1)); } } else { opts.push_back(' '); opts.push_back('q'); opts.push_back(r.range(33, 126)); } }
        if (opts.empty()) break; int c = opts[r.below((int)opts.size())]; set<int> t = n.stepSet(s, c); if (t.empty()) continue; s = t; out.push_back(c); }
    return ref::utf8(ref::unutf16(out));
}
string gen_text(Rng& r, const LexSpec& sp, int approx, bool latin, bool huge) {
    ref::Syms o;
    while ((int)o.size() < approx) {
        int k = r.below(10);
        if (k < 6) { ref::Syms m = ref::unutf8(gen_member(r, sp.re[r.below((int)sp.re.size())])); o.insert(o.end(), m.begin(), m.end()); if (m.empty()) o.push_back(sp.alpha[r.below((int)sp.alpha.size())]); if (r.chance(1, 8)) o.pop_back(); }
        else if (k < 9) o.push_back(sp.alpha[r.below((int)sp.alpha.size())]);
        else { static const int odd[] = { 10, 13, 11, 12, 0x85, 0x2028, 0x2029, ' ', 'x', 0x7f, 0xe9, 0x100, 0x4e2d, 0xffff, 0 }; o.push_back(odd[r.below(15)]); if (r.chance(1, 3)) o.push_back(10); }
    }
    if (huge) { int c = sp.alpha[r.below((int)sp.alpha.size())]; int at = r.below((int)o.size() + 1); o.insert(o.begin() + at, r.range(300, 5000), c); }
    if (latin) for (size_t i = 0; i < o.size(); ++i) o[i] &= 0xff;
    return ref::utf8(o);
}
}

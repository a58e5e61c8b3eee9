#include "genproj.h"
namespace proj {
static string ident(Rng& r) { static const char* w[] = { "alpha", "beta", "x", "y1", "name", "q", "zed", "longer-name" }; return w[r.below(7)]; }
static string termText(int t) { return "k" + to_string(t); }
static string itemText(const gram::Item& i) {
    if (i.k == 't') return termText(i.id); if (i.k == 'n') return "<N" + to_string(i.id) + ">"; string o; for (size_t k = 0; k < i.sub.size(); ++k) o += (k ? (i.k == 'a' ? " | " : " ") : "") + itemText(i.sub[k]);
    if (i.k == 'g') return "[=> " + o + "]"; if (i.k == 'a') return "(" + o + ")"; return "(" + o + ")" + (i.k == 'o' ? "?" : i.k == 'r' ? "+" : "*");
}
gram::Spec safe_spec(Rng& r, bool guards) {
    if (r.chance(1, 2)) return gram::gen_template(r, guards);
    for (int i = 0; i < 20; ++i) { gram::Spec s = gram::gen_spec(r, false, false); s.ignored.clear(); s.weak.clear(); if (s.check().empty() && !gram::has_nullable(gram::lower(s)) && s.rules.size() <= 12) return s; }
    return gram::gen_template(r, guards);
}
void language_lines(Rng& r, const string& name, const string& base, const gram::Spec& s, vector<string>& out, bool rich) {
    out.push_back("language " + name + (base.empty() ? "" : " : " + base) + " {");
    if (base.empty()) {
        if (rich && r.chance(1, 2)) { out.push_back("  lexer-symbols {"); out.push_back("    digit = /[0-9]/"); out.push_back("  }"); out.push_back("  lexer {"); out.push_back("    number = /{digit}+(\\.{digit}+)?/"); out.push_back("  }"); }
        if (rich && r.chance(1, 3)) { out.push_back("  case insensitive lexer {"); out.push_back("    caseless = /q[a-f]*/"); out.push_back("  }"); }
        out.push_back("  lexer {"); out.push_back("    identifier = /[A-Za-z_][A-Za-z0-9_]*/"); if (rich && r.chance(1, 2)) { out.push_back("    greek = /[\xce\xb1-\xcf\x89]+/"); } out.push_back("  }");
        out.push_back("  ignore {"); out.push_back("    ws = /[ \\t\\r\\n]+/"); if (rich && r.chance(1, 2)) out.push_back("    comment = /#[^\\n]*/"); out.push_back("  }");
        out.push_back(string("  ") + (rich && r.chance(1, 4) ? "weak " : "") + "keywords {"); int T = s.terms(); for (int t = 0; t < T; ++t) out.push_back("    " + termText(t) + (rich && r.chance(1, 6) ? " = /k" + to_string(t) + "!?/" : "")); out.push_back("  }");
        out.push_back("  grammar {");
        for (int n = 0; n < s.nts(); ++n) { bool first = true; for (size_t k = 0; k < s.rules.size(); ++k) if (s.rules[k].nt == n) { string b; for (size_t q = 0; q < s.rules[k].items.size(); ++q) { b += " " + itemText(s.rules[k].items[q]); if (rich && s.rules[k].items[q].k != 'g' && r.chance(1, 8)) b += "[nm" + to_string(q) + "]"; } out.push_back(string("    ") + (first ? "<N" + to_string(n) + "> =" : "  |") + b); first = false; } }
        out.push_back("  }");
    } else {
        if (r.chance(1, 2)) { out.push_back("  lexer {"); out.push_back(r.chance(1, 2) ? "    identifier |= /@[a-z]+/" : "    extra = /%[a-z]+/"); out.push_back("  }"); }
        if (r.chance(2, 3)) { out.push_back("  grammar {"); out.push_back("    <N0> |= identifier identifier identifier"); if (r.chance(1, 2)) out.push_back("    <M> = identifier <M> | identifier"); out.push_back("  }"); }
    }
    out.push_back("}");
}
string sentence_text(Rng& r, const gram::Spec&, const vector<int>& toks) { string o; for (size_t i = 0; i < toks.size() && i < 60; ++i) o += (i ? r.chance(1, 9) ? "  " : " " : "") + termText(toks[i]); return o; }
Files from_plan(const Plan& p, int g) {
    Files f; map<int, int> at;
    for (size_t i = 0; i < p.size(); ++i) { const Line& l = p[i]; int id = (int)l.n(0); if (l.op != "name" && l.op != "ln" && l.op != "arg") continue; if (l.op == "arg") { if (id == g) f.argv.push_back(l.s(1)); continue; } if (id / 20 != g) continue;
        if (!at.count(id)) { if (at.size() >= 18) continue; at[id] = (int)f.name.size(); f.name.push_back("f" + to_string(id) + ".tp"); f.text.push_back(""); }
        if (l.op == "name") f.name[at[id]] = l.s(1); else f.text[at[id]] += l.s(1) + "\n"; }
    return f;
}
void gen(Rng& r, Plan& p, const Opts& o, int group) {
    int nf = o.imports ? r.range(2, 7) : r.chance(1, 3) && o.multi ? r.range(2, 3) : 1; int base = group * 20; string dir = o.dir;
    vector<string> names; bool odd = o.imports && r.chance(1, 3);     // names that differ only in case, in their directory or in their ending
    for (int i = 0; i < nf; ++i) { string n = i == 0 ? "main.tp" : string(1, (char)('a' + i)) + ".tp"; if (odd && i > 0) { string prev = names[r.below(i)]; size_t sl = prev.rfind('/'); string bn = sl == string::npos ? prev : prev.substr(sl + 1); int v = r.below(7); string c;
        if (v == 0) { c = prev; for (size_t k = sl == string::npos ? 0 : sl + 1; k < c.size(); ++k) if (c[k] >= 'a' && c[k] <= 'z') { c[k] -= 32; if (r.chance(1, 2)) break; } } else if (v == 1) c = "sub/" + bn; else if (v == 2) c = "sub/deep/" + bn; else if (v == 3) c = prev + "x"; else if (v == 4) c = prev.substr(0, prev.size() - 1); else if (v == 5) c = "with space " + bn;
        if (!c.empty() && find(names.begin(), names.end(), c) == names.end()) n = c; } names.push_back(n); }
    vector<vector<string>> body(nf); vector<string> langs; vector<gram::Spec> specs; vector<int> where;
    int nl = max(1, nf == 1 ? (r.chance(1, 3) ? 2 : 1) : r.range(1, nf + 1)); int tgt = 0;
    // imports: a connected graph plus arbitrary extra edges (cycles, diamonds, self imports)
    vector<vector<string>> imp(nf); for (int i = 1; i < nf; ++i) imp[r.below(i)].push_back(names[i]); if (o.imports) { int extra = r.below(6); for (int k = 0; k < extra; ++k) { int a = r.below(nf), b = r.below(nf); string n = names[b]; if (b == 0 && !dir.empty()) n = dir + n; int sp = r.below(8); if (sp == 0) n = "./" + n; else if (sp == 1) n = "/sim/" + (b == 0 ? n : dir + n); imp[a].push_back(n); } }
    for (int k = 0; k < nl; ++k) { gram::Spec s; bool inh = k > 0 && r.chance(1, 3); string nm = "Lang" + to_string(k); int f = k == 0 && r.chance(1, 2) ? 0 : r.below(nf); if (inh) { int b = r.below(k); s = specs[b]; language_lines(r, nm, langs[b], s, body[f], true); } else { s = safe_spec(r, r.chance(1, 3)); language_lines(r, nm, "", s, body[f], true); } specs.push_back(s); langs.push_back(nm); where.push_back(f); }
    tgt = r.below(nl); body[0].push_back("parser P : " + langs[tgt] + " {"); body[0].push_back("  <N0>"); body[0].push_back("}");
    vector<string> tfiles, ttext;
    if (o.tests) { int nt = r.range(1, 2); for (int k = 0; k < nt; ++k) { int lg = r.below(nl); body[0].push_back("test " + langs[lg] + " {"); int n = r.range(1, 4); for (int q = 0; q < n; ++q) { string t = sentence_text(r, specs[lg], gram::gen_sentence(r, specs[lg], r.range(3, 20))); int c = r.below(4);
        if (c < 2) body[0].push_back("  <N0> = \"" + t + "\""); else if (c == 2) body[0].push_back("  <N0> != \"" + t + " k999 (\""); else { string fn = "t" + to_string(tfiles.size()) + ".txt"; body[0].push_back("  <N0> from \"" + fn + "\""); if (r.chance(1, 2)) for (int x = r.below(4); x > 0; --x) t += " "; if (r.chance(1, 3)) t += "\n"; tfiles.push_back(fn); ttext.push_back(t); } } body[0].push_back("}"); } }
    for (int i = 0; i < nf; ++i) { int id = base + i; p.push_back(L("name").add(id).add(dir + names[i])); vector<string> ls; for (size_t k = 0; k < imp[i].size(); ++k) ls.push_back("import \"" + imp[i][k] + "\""); if (o.imports && r.chance(1, 3)) { ls.insert(ls.end(), body[i].begin(), body[i].end()); if (!imp[i].empty()) { string x = ls[0]; ls.erase(ls.begin()); ls.push_back(x); } } else ls.insert(ls.end(), body[i].begin(), body[i].end()); for (size_t k = 0; k < ls.size(); ++k) p.push_back(L("ln").add(id).add(ls[k])); }
    for (size_t i = 0; i < tfiles.size() && i < 8; ++i) { int id = base + 10 + (int)i; p.push_back(L("name").add(id).add(dir + tfiles[i])); p.push_back(L("ln").add(id).add(ttext[i])); }
    p.push_back(L("arg").add(group).add(dir + names[0])); p.push_back(L("arg").add(group).add("-o")); p.push_back(L("arg").add(group).add(dir + "out")); if (o.tests) p.push_back(L("arg").add(group).add("--run-tests")); if (r.chance(1, 4)) p.push_back(L("arg").add(group).add("--verbose")); if (r.chance(1, 6)) { p.push_back(L("arg").add(group).add("-N")); p.push_back(L("arg").add(group).add("ns")); }
    if (r.chance(1, 8)) p.push_back(L("arg").add(group).add("--enable-lr1-resolver")); (void)ident;
}
}

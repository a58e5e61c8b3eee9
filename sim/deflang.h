// Definitions as models: from one plan come the definition files and, independently of the code under test, the language they describe
// (inheritance, |= and replace, lexer symbols, case modes, weak symbols, literals of the grammar, precedence, conflict attributes).
#ifndef SIM_DEFLANG_H
#define SIM_DEFLANG_H
#include "gram.h"
#include "ref_regex.h"
namespace def {
using namespace std; using namespace sim;
struct Pat { char kind; string t; };                          // r regular expression (source), s string, c character (both: content), n the name itself
struct Sym { string name; char op; Pat p; };                  // op: = defines, + adds (|=), R replaces
struct Alt { gram::Items items; map<int, char> attr; };       // attr: position -> s/r (conflict=shift, conflict=reduce)
struct Prod { int nt; char op; vector<Alt> alts; };
struct Prec { int assoc; vector<int> terms; };                // 0 left, 1 right, 2 non-assoc
struct Block { char type; bool weak; int cs; vector<Sym> syms; vector<Prod> prods; vector<Prec> precs; };   // s lexer-symbols, k keywords, l lexer, i ignore, g grammar, p precedence; cs 1 insensitive, 2 sensitive
struct Lang { string name, base; int file; vector<Block> blocks; };
struct Model { map<int, string> terms; vector<Lang> langs; string main; u64 style; int files; bool splits; Model() : style(0), files(1), splits(false) {} };   // splits: judge weak symbols that stand for several strong ones, where they are used as themselves (a recorded finding)
Model from_plan(const Plan&);
void to_plan(const Model&, Plan&);
vector<pair<string, string>> files(const Model&);             // the definition files; the first is the one to compile
struct Entry { Pat p; int cs, id; char type; bool weak; };
struct Language {
    string problem;                                           // not empty: not a definition whose meaning this model is sure of
    vector<string> names; map<string, int> id; map<string, vector<Entry>> defs; map<string, vector<ref::Nfa::Expr>> exprs; set<int> weak, ignored; map<int, char> type; map<int, bool> isWeak;
    map<int, vector<Alt>> rules; vector<int> ntOrder; vector<vector<pair<int, vector<int>>>> precs; map<int, int> termOf;      // termOf: symbol -> terminal of the model
    ref::Nfa nfa; vector<Entry> ranked; map<int, int> strong; bool strongSure;                                               // strong: weak symbol -> what it stands for when it cannot be used as itself
    gram::Spec spec; gram::Resolve res; unique_ptr<gram::Recogniser> rec; bool parseSure, conflictSure, splits;
    Language() : strongSure(true), parseSure(false), conflictSure(false), splits(false) {}
};
void compile(const Model&, const string& name, int start, Language& out);      // start: nonterminal
struct Token { int sym, off, len; };                          // sym -1: no symbol matches
vector<Token> lex(const Language&, const ref::Syms&);
struct Verdict { int accepts, shifted; vector<int> kept; string tree; };   // accepts 1/0, -1 unsure; kept: the tokens that are not ignored; shifted: how many of them begin a sentence
Verdict parse(Language&, const vector<Token>&);
string content(const string& termRef);
void generate(Rng& r, Plan& p);                               // definition lines
string text_for(Rng& r, const Model& m, Language& l, const vector<int>& terms);
}
#endif

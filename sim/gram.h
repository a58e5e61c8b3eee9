// Reference context-free grammars: plan encoding, generation, Earley recognition, derivation checking.  Independent of the code under test.
#ifndef SIM_GRAM_H
#define SIM_GRAM_H
#include "core.h"
#include <array>
#include <memory>
namespace gram {
using namespace std; using namespace sim;
// An item is text: tN terminal, nN nonterminal, o:/r:/z: optional / one or more / zero or more of dot-separated simple items, g: guard, a: alternatives (items separated by dots, each alternative one item)
struct Item { char k; int id; vector<Item> sub; };
typedef vector<Item> Items;
bool parse_item(const string& s, Item& out);
string text(const Item& i);
struct Rule { int nt; Items items; };
struct Spec {
    vector<Rule> rules; set<int> ignored; map<int, int> weak; bool guards;   // weak: weak terminal -> strong terminal
    Spec() : guards(false) {}
    int terms() const; int nts() const;
    string check() const;                                    // empty: usable (every nonterminal defined, productive, no cycles); otherwise why not
};
Spec from_plan(const Plan&);
void to_plan(const Spec&, Plan&);
// plain BNF form: symbols >= 0 terminals, < 0 nonterminals (-1-k)
struct Bnf { vector<vector<vector<int>>> alts; map<string, int> ebnf; int start; };     // alts[nt][alternative][symbol]; EBNF items get their own nonterminal, keyed by item text
Bnf lower(const Spec&, int start = 0);
int bnf_symbol(Bnf& b, const Spec&, const Item& i);          // nonterminal or terminal for an item (guards lower to an empty nonterminal)
bool has_nullable(const Bnf&);                                // some nonterminal other than a guard derives the empty string
bool hidden_left_recursion(const Bnf&);
int lalr(const Bnf&);                                        // 1: LALR(1), 0: conflicts, -1: too big to tell
// how conflicts are resolved: precedence tables (terminal -> level, 0 left / 1 right / 2 none), then attributes of shifted items ((nonterminal, alternative, position) -> s or r)
struct Resolve { vector<map<int, pair<int, int>>> precs; map<array<int, 3>, char> attr; };
struct Earley { bool accepts; int viable; };                 // viable: length of the longest prefix that some sentence starts with
Earley earley(const Bnf& b, const vector<int>& in);
bool prefix_match(const Bnf& b, int nt, const vector<int>& in, size_t from, size_t& len);   // some prefix of in[from..] (or that plus end of input) derives from nt
struct Recogniser { struct Impl; unique_ptr<Impl> i; int status; Recogniser(const Spec&, const Resolve* = 0); ~Recogniser(); int accepts(const vector<int>& in, int& shifted, string* tree = 0); };   // status 1: usable; accepts: 1, 0, or -1 where the order of several matching guards decides; tree: named nonterminals and tokens by number
Spec gen_template(Rng& r, bool guards);                      // a known good grammar
Spec gen_spec(Rng& r, bool guards, bool weak);
vector<int> gen_sentence(Rng& r, const Spec&, int budget, int start = 0);
}
#endif

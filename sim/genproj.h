// Generates definition file projects (several .tp files with imports, inheritance, tests) as plan lines: `name F path`, `ln F text`, `arg text`.
#ifndef SIM_GENPROJ_H
#define SIM_GENPROJ_H
#include "gram.h"
namespace proj {
using namespace std; using namespace sim;
struct Opts { bool tests, imports, multi; int maxTerms; string dir; Opts() : tests(false), imports(false), multi(false), maxTerms(7) {} };
void language_lines(Rng& r, const string& name, const string& base, const gram::Spec& s, vector<string>& out, bool richLexer);
gram::Spec safe_spec(Rng& r, bool guards);                   // a grammar whose parses always end
string sentence_text(Rng& r, const gram::Spec& s, const vector<int>& toks);
struct Files { vector<string> name; vector<string> text; vector<string> argv; };
Files from_plan(const Plan&, int group = 0);
void gen(Rng& r, Plan& p, const Opts& o, int group = 0);
}
#endif

// C17: running out of memory.  The lexing half is in p_lex.cpp, the parsing half in p_parser.cpp; this file chooses between them.
#include "core.h"
using namespace std; using namespace sim;
namespace sim { void exec_parse_mem(const Plan&); void gen_parse_mem(Rng&, Plan&); void exec_lex_mem(const Plan&); void gen_lex_mem(Rng&, Plan&); }
namespace {
void gen(Rng& r, Plan& p) { if (r.chance(2, 5)) { gen_lex_mem(r, p); p.insert(p.begin(), L("lexing")); } else gen_parse_mem(r, p); }
void exec(const Plan& p) { bool lex = false; for (auto& l : p) if (l.op == "lexing") lex = true; if (lex) exec_lex_mem(p); else exec_parse_mem(p); }
Reg reg({"C17", "lexing sessions (compiling the lexer, reading lexemes) and parsing sessions (process, parse, look, fork, query over up to 20 states) in which a chosen allocation of the library fails; what is still alive must go on exactly as alone; non-trivial: at least 4 lexemes, or a fork, three switches between states and two tokens; distinct by event-log hash", gen, exec, 12000, 600000, "dfa::lexer and its streams, parser, session, states, guard evaluation, parser stack, lexeme containers", "memory (chosen allocations fail), token source and parser actions"});
}

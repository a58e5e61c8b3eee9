// Interface between the simulator and parsers generated by the tool at build time (each compiled from its generated source plus a generated walker).
#ifndef SIM_GENLANG_H
#define SIM_GENLANG_H
#include <istream>
#include <string>
#include <vector>
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Lr/parser.h"
#include "TameParse/Lr/parser_tables.h"
#include "TameParse/Util/syntax_ptr.h"
namespace sim {
struct Tree { std::string cls; bool leaf; int tok, len, sym, pos, fin; std::vector<std::pair<std::string, Tree>> kids; Tree() : leaf(false), tok(-1), len(0), sym(-1), pos(-9), fin(-9) {} };
struct AstSession { virtual ~AstSession() {} virtual int process() = 0; virtual AstSession* fork() = 0; virtual void keep() = 0; virtual bool tree(Tree&) = 0; };   // keep(): take hold of the result, the parser state may then go
struct LangApi { const char* tp; const char* spec; const char* problem; const dfa::lexer* lexer; const lr::parser_tables* tables; std::vector<AstSession* (*)(std::wistream&)> open; std::vector<AstSession* (*)(std::istream&)> open8; /* one of each per start symbol */ std::vector<std::pair<std::string, int>> terms, nts; LangApi() : tp(""), spec(""), problem(0), lexer(0), tables(0) {} };
template<class Lang, class Root> struct AstImpl : AstSession {
    typename Lang::state* st; util::syntax_ptr<typename Lang::syntax_node> kept; bool have; AstImpl(typename Lang::state* s) : st(s), have(false) {}
    ~AstImpl() { delete st; }
    int process() { return st->process(); }
    AstSession* fork() { return new AstImpl(new typename Lang::state(*st)); }
    void keep() { kept = st->get_item(); have = true; delete st; st = 0; }
    bool tree(Tree& t) { const Root* r = dynamic_cast<const Root*>(have ? kept.item() : st->get_item().item()); if (!r) return false; walk(r, t); return true; }
};
template<class T> void leaf(const T* n, Tree& t) { const dfa::lexeme_container& l = n->get_lexeme(); t.leaf = true; t.tok = l->pos().offset(); t.len = (int)l->content().size(); t.sym = l->matched(); t.pos = n->pos().offset(); t.fin = n->final_pos().offset(); }
template<class T> void branch(const T* n, const char* cls, Tree& t) { t.cls = cls; t.pos = n->pos().offset(); t.fin = n->final_pos().offset(); }
template<class T> void kid(Tree& t, const char* name, const T* n) { if (!n) return; t.kids.push_back(std::make_pair(std::string(name), Tree())); walk(n, t.kids.back().second); }
}
#endif

// C16: shared handles (util::container, util::syntax_ptr) and the grammar items, rules and lexemes kept in them.
// Real: container, syntax_ptr, contextfree items/rules/guards, dfa::lexeme.  Model: one counted cell per object, one term tree per item.
#include "core.h"
#include <memory>
#include <new>
#include "TameParse/Util/container.h"
#include "TameParse/Util/syntax_ptr.h"
#include "TameParse/ContextFree/item.h"
#include "TameParse/ContextFree/rule.h"
#include "TameParse/ContextFree/guard.h"
#include "TameParse/ContextFree/ebnf_items.h"
#include "TameParse/ContextFree/standard_items.h"
#include "TameParse/Dfa/lexeme.h"
#include "TameParse/Util/astnode.h"
using namespace std; using namespace sim;
namespace {
struct Boom {};
long long g_throwIn = -1; int g_nextId = 1;
set<int>* g_live = 0;                                      // ids of the objects that exist
struct Obj; int g_assignedId = 0;
struct Base { virtual ~Base() {} virtual int ident() const = 0; };
// ---- objects kept in handles -------------------------------------------------------------------------------
struct Core {                                              // an object with an identity, a value and a separately owned allocation
    enum { MAGIC = 0x600dbeef }; unsigned magic; int id, val; int* box;
    static int* mk(int v) { NotLib nl; return new int(v); }
    explicit Core(int v) : magic(MAGIC), id(g_nextId++), val(v), box(mk(v)) { NotLib nl; g_live->insert(id); }
    ~Core() { check(); magic = 0; NotLib nl; delete box; if (!g_live->erase(id)) fail("destroyed-twice", "object " + to_string(id) + " was destroyed twice"); }
    void check() const { if (magic != MAGIC) fail("used-after-destruction", "an object was used after it was destroyed or before it was constructed"); if (*box != val) fail("object-changed", "an object lost its contents"); }
    static void tick() { if (g_throwIn >= 0 && g_throwIn-- == 0) { fault("clone-throws"); throw Boom(); } }
};
struct Obj : Core {                                        // for container: clone() and compare()
    util::container<Obj> kid;
    Obj() : Core(0), kid((Obj*)0) {}
    explicit Obj(int v) : Core(v), kid((Obj*)0) {}
    Obj(const Obj& o) : Core(o.val), kid(o.kid) {}
    Obj* clone() const { check(); tick(); return new Obj(*this); }
    static bool compare(const Obj* a, const Obj* b) { if (a == b) return false; if (!a) return true; if (!b) return false; a->check(); b->check(); return a->val < b->val; }
    bool operator==(const Obj& o) const { check(); o.check(); return val == o.val; }
    bool operator<(const Obj& o) const { check(); o.check(); return val < o.val; }
};
struct PBase { virtual ~PBase() {} virtual const Core& core() const = 0; };
struct PObj : PBase { Core c; mutable util::syntax_ptr<PBase> kid; mutable util::syntax_ptr<PObj> same; explicit PObj(int v) : c(v) {} const Core& core() const { c.check(); return c; } };

// ---- the model: cells shared by handles ---------------------------------------------------------------------
struct Cell; typedef shared_ptr<Cell> CP;
struct MObj { int id, val; CP kid, same; };
struct Cell { MObj* o; bool owned; int depth; };

template<class W> struct Common {
    W& w; Common(W& w_) : w(w_) {}
};
int depthOf(const CP& c) { return c && c->o ? 1 + max(depthOf(c->o->kid), depthOf(c->o->same)) : 0; }
bool reaches(const CP& c, MObj* o) { if (!c || !c->o) return false; if (c->o == o) return true; return reaches(c->o->kid, o) || reaches(c->o->same, o); }
struct Cells {                                              // finds which objects must exist: everything reachable through owning cells, and everything the harness owns
    set<MObj*> all; ~Cells() { for (auto o : all) { o->kid.reset(); o->same.reset(); } for (auto o : all) delete o; }
    MObj* make(int id, int val) { MObj* m = new MObj(); m->id = id; m->val = val; all.insert(m); return m; }
    CP cell(MObj* o, bool owned) { CP c(new Cell(), [this](Cell* x) { MObj* m = x->o; bool own = x->owned; delete x; if (m && own) destroy(m); }); c->o = o; c->owned = owned; c->depth = 0; return c; }
    void destroy(MObj* m) { all.erase(m); CP a = m->kid, b = m->same; m->kid.reset(); m->same.reset(); delete m; }
    void compareLive(const char* when) {
        set<int> want; for (auto o : all) want.insert(o->id);
        if (want == *g_live) return;
        for (int i : want) if (!g_live->count(i)) fail("destroyed-early", "object " + to_string(i) + " was destroyed while a handle still referred to it (" + when + ")");
        for (int i : *g_live) if (!want.count(i)) fail("not-destroyed", "object " + to_string(i) + " still exists although nothing refers to it (" + when + ")");
    }
};

// ---- container ------------------------------------------------------------------------------------------------
struct CWorld {
    typedef util::container<Obj> H; struct R { H* h; CP m; };
    Cells cells; vector<R> hs; vector<Obj*> borrowed; map<Obj*, MObj*> bm; int reent = 0;
    void check(const R& r, const char* when) {
        const H& c = *r.h; const Obj* it = c.item(); MObj* m = r.m->o;
        if (!m) { if (it) fail("wrong-object", string("an empty handle refers to an object (") + when + ")"); return; }
        if (!it) fail("wrong-object", string("a handle lost its object (") + when + ")");
        if (it != c.operator->() || it != &*c || it != (const Obj*)c || it != r.h->item() || it != (Obj*)*r.h) fail("wrong-object", "the accessors of a handle disagree");
        it->check(); if (it->id != m->id || it->val != m->val) fail("wrong-object", "a handle refers to object " + to_string(it->id) + " instead of " + to_string(m->id) + " (" + when + ")");
        const Obj* k = it->kid.item(); MObj* mk = m->kid ? m->kid->o : 0; if ((k != 0) != (mk != 0) || (k && k->id != mk->id)) fail("wrong-object", string("the handle inside an object refers to something else (") + when + ")");
    }
    void checkAll(const char* when) { for (auto& r : hs) check(r, when); cells.compareLive(when); }
    void order(const R& a, const R& b) {
        auto key = [](const R& r) { return r.m->o ? r.m->o->val : -1000; }; int x = key(a), y = key(b); const H& p = *a.h; const H& q = *b.h; bool sameObj = a.m->o == b.m->o; bool eq = sameObj || (a.m->o && b.m->o && x == y);
        struct { const char* n; bool got, want; } t[] = { {"<", p < q, x < y}, {">", p > q, x > y}, {"<=", p <= q, x <= y}, {">=", p >= q, x >= y}, {"==", p == q, eq}, {"!=", p != q, !eq}, {"ordering adapter", H::compare_adapter<less<Obj> >()(p, q), x < y} };
        for (auto& k : t) if (k.got != k.want) fail("comparison", string("comparing handles with ") + k.n + " gave " + (k.got ? "true" : "false") + " for values " + to_string(x) + " and " + to_string(y));
        probe("handles-compared");
    }
    void run(const Plan& plan) {
        u64 lib0 = heap_live_lib(); int ops = 0, shared = 0; 
        for (size_t li = 0; li < plan.size(); ++li) {
            const Line& l = plan[li]; if (l.op == "heap" || l.op == "world") continue;
            ++ops; int n = (int)hs.size(); int i = n ? (int)(l.n(0) % n) : -1, j = n ? (int)(l.n(1) % n) : -1; string st = to_string(li) + ": " + l.op; const char* when = st.c_str();
            if (l.op == "faultalloc") { heap_fail_at(l.n(0)); continue; }
            if (l.op == "faultclone") { g_throwIn = l.n(0); continue; }
            if (l.op == "adopt" || l.op == "borrow" || l.op == "null" || l.op == "def") {
                if (n >= 20) continue; R r; r.h = 0; Obj* o = 0; 
                if (l.op == "adopt" || l.op == "borrow") { o = new Obj((int)l.n(0)); MObj* m = cells.make(o->id, o->val); r.m = cells.cell(m, false); if (l.op == "borrow") { borrowed.push_back(o); bm[o] = m; } }
                int before = g_nextId; bool ok = true;
                try { Lib lb; if (l.op == "adopt") r.h = new H(o, true); else if (l.op == "borrow") r.h = l.n(1) & 1 ? new H(o) : new H(o, false); else if (l.op == "null") r.h = l.n(1) & 1 ? new H((const Obj*)0) : new H((Obj*)0); else r.h = new H(); } catch (const bad_alloc&) { ok = false; }
                if (!ok) { probe("handle-creation-failed"); if (l.op == "adopt") { MObj* m = r.m->o; cells.destroy(m); r.m.reset(); if (g_live->count(o->id)) delete o; } checkAll(when); continue; }
                if (l.op == "adopt") r.m->owned = true; else if (l.op == "null") r.m = cells.cell(0, false); else if (l.op == "def") { MObj* m = cells.make(before, 0); r.m = cells.cell(m, true); }
                hs.push_back(r);
            } else if (i < 0) continue;
            else if (l.op == "again") { if (borrowed.empty() || n >= 20) continue; Obj* o = borrowed[l.n(0) % borrowed.size()]; R r; try { Lib lb; r.h = new H(o, false); } catch (const bad_alloc&) { continue; } r.m = cells.cell(bm[o], false); hs.push_back(r); }
            else if (l.op == "clone") {
                if (n >= 20 || !hs[i].m->o) continue; R r; int before = g_nextId; bool ok = true; 
                try { Lib lb; r.h = l.n(1) & 1 ? new H((const Obj&)**hs[i].h) : new H((const Obj*)hs[i].h->item()); } catch (const bad_alloc&) { ok = false; } catch (const Boom&) { ok = false; }
                if (!ok) { probe("clone-failed"); checkAll(when); continue; }
                MObj* m = cells.make(before, hs[i].m->o->val); m->kid = hs[i].m->o->kid; r.m = cells.cell(m, true); hs.push_back(r);
            } else if (l.op == "copy") { if (n >= 20) continue; R r; r.m = hs[i].m; try { Lib lb; r.h = new H(*hs[i].h); } catch (const bad_alloc&) { checkAll(when); continue; } hs.push_back(r); ++shared; }
            else if (l.op == "assign") { { Lib lb; *hs[i].h = *hs[j].h; } hs[i].m = hs[j].m; ++shared; }
            else if (l.op == "setkid") { MObj* o = hs[i].m->o; if (!o || reaches(hs[j].m, o) || depthOf(hs[j].m) > 60) continue; { Lib lb; (*hs[i].h)->kid = *hs[j].h; } o->kid = hs[j].m; }
            else if (l.op == "tokid") {       // step down: the handle is assigned from a handle inside the object that it may be the last owner of
                MObj* o = hs[i].m->o; if (!o) continue; CP k = o->kid; if (hs[i].m->owned && hs[i].m.use_count() == 1) { ++reent; probe("assigned-from-inside-the-object-let-go"); }
                { Lib lb; *hs[i].h = (*hs[i].h)->kid; } if (!k) k = cells.cell(0, false); hs[i].m = k;
            } else if (l.op == "drop") { { Lib lb; delete hs[i].h; } hs.erase(hs.begin() + i); }
            else if (l.op == "cmp") order(hs[i], hs[j]);
            sched(mix(hash_str(l.op), (u64)(i * 32 + j))); steps(1); log_ev("%s %d %d live %zu", l.op.c_str(), i, j, g_live->size());
            checkAll(when); u64 h = 0; for (auto& r : hs) h = mix(h, (u64)(r.m->o ? r.m->o->val * 8 + min<long>(7, r.m.use_count()) : 1)); state(h);
        }
        g_throwIn = -1; heap_fail_at(-1); if (shared >= 2 && ops >= 6) nontrivial();
        while (!hs.empty()) { size_t k = hs.size() & 1 ? 0 : hs.size() - 1; { Lib lb; delete hs[k].h; } hs.erase(hs.begin() + k); checkAll("at the end"); }
        for (auto o : borrowed) { MObj* m = bm[o]; delete o; cells.destroy(m); } cells.compareLive("at the end");
        if (heap_live_lib() != lib0) fail("leak", "after every handle was destroyed " + to_string(heap_live_lib() - lib0) + " blocks remain");
    }
};
// ---- syntax_ptr -------------------------------------------------------------------------------------------------
struct PWorld {
    typedef util::syntax_ptr<PObj> H; typedef util::syntax_ptr<PBase> B; struct R { H* h; B* b; CP m; };
    Cells cells; vector<R> hs;
    void check(const R& r, const char* when) {
        MObj* m = r.m->o; const Core* c = 0; bool t;
        if (r.h) { const H& h = *r.h; t = h; const PObj* p = h.item(); if (p != h.operator->() || p != (const PObj*)h) fail("wrong-object", "the accessors of a pointer disagree"); if (p) { c = &p->core(); if (&**r.h != p) fail("wrong-object", "dereferencing gives another object"); MObj* k = m ? m->kid->o : 0; bool kt = p->kid; if (m && (kt != (k != 0) || (k && p->kid->core().id != k->id))) fail("wrong-object", string("a pointer inside an object refers to something else (") + when + ")"); } }
        else { const B& h = *r.b; t = h; const PBase* p = h.item(); if (p) c = &p->core(); }
        if (t != (m != 0) || (c != 0) != (m != 0)) fail("wrong-object", string(m ? "a pointer lost its object (" : "a null pointer refers to an object (") + when + ")");
        if (c && (c->id != m->id || c->val != m->val)) fail("wrong-object", "a pointer refers to object " + to_string(c->id) + " instead of " + to_string(m->id) + " (" + when + ")");
    }
    void checkAll(const char* when) { for (auto& r : hs) check(r, when); cells.compareLive(when); }
    void run(const Plan& plan) {
        u64 lib0 = heap_live_lib(); int ops = 0, shared = 0;
        for (size_t li = 0; li < plan.size(); ++li) {
            const Line& l = plan[li]; if (l.op == "heap" || l.op == "world") continue;
            ++ops; int n = (int)hs.size(); int i = n ? (int)(l.n(0) % n) : -1, j = n ? (int)(l.n(1) % n) : -1; string st = to_string(li) + ": " + l.op; const char* when = st.c_str();
            if (l.op == "faultalloc") { heap_fail_at(l.n(0)); continue; }
            if (l.op == "adopt" || l.op == "def" || l.op == "null") {
                if (n >= 20) continue; R r; r.h = 0; r.b = 0; 
                if (l.op == "adopt") {
                    PObj* o = 0; try { o = new PObj((int)l.n(0)); } catch (const bad_alloc&) { continue; } int id = o->c.id, v = o->c.val; bool ok = true;
                    try { Lib lb; if (l.n(1) & 1) r.h = new H(o); else r.b = new B(o); } catch (const bad_alloc&) { ok = false; }
                    if (!ok) { probe("handle-creation-failed"); if (g_live->count(id)) delete o; checkAll(when); continue; }
                    MObj* m = cells.make(id, v); m->kid = cells.cell(0, false); m->same = cells.cell(0, false); r.m = cells.cell(m, true);
                } else { try { Lib lb; if (l.n(1) & 1) r.h = new H(); else r.b = new B(); } catch (const bad_alloc&) { checkAll(when); continue; } r.m = cells.cell(0, false); }
                hs.push_back(r);
            } else if (i < 0) continue;
            else if (l.op == "copy" || l.op == "clone") {     // clone: through a cast to the base class
                if (n >= 20) continue; R r; r.h = 0; r.b = 0; r.m = hs[i].m; ++shared;
                try { Lib lb; if (hs[i].h) { if (l.op == "clone") r.b = new B(hs[i].h->cast_to<PBase>()); else r.h = new H(*hs[i].h); } else if (l.op == "clone" && (!r.m->o || dynamic_cast<const PObj*>(hs[i].b->item()))) { if (r.m->o) { r.b = new B(*hs[i].b); } else r.b = new B(hs[i].b->cast_to<PBase>()); } else r.b = new B(*hs[i].b); } catch (const bad_alloc&) { checkAll(when); continue; }
                hs.push_back(r);
            } else if (l.op == "assign") {
                if (hs[i].h && !hs[j].h) continue; ++shared;
                { Lib lb; if (hs[i].h) *hs[i].h = *hs[j].h; else if (hs[j].b) *hs[i].b = *hs[j].b; else *hs[i].b = hs[j].h->cast_to<PBase>(); } hs[i].m = hs[j].m;
            } else if (l.op == "setkid") {
                MObj* o = hs[i].m->o; if (!o || !hs[i].h || reaches(hs[j].m, o) || depthOf(hs[j].m) > 60) continue;
                { Lib lb; if (hs[j].h) { if (l.n(2) & 1) (*hs[i].h)->same = *hs[j].h; (*hs[i].h)->kid = hs[j].h->cast_to<PBase>(); } else (*hs[i].h)->kid = *hs[j].b; }
                if (hs[j].h && (l.n(2) & 1)) o->same = hs[j].m; o->kid = hs[j].m;
            } else if (l.op == "tokid") {
                MObj* o = hs[i].m->o; if (!o) continue; 
                if (hs[i].m.use_count() == 1) probe("assigned-from-inside-the-object-let-go");
                CP k; if (hs[i].h) { k = o->same; Lib lb; *hs[i].h = (*hs[i].h)->same; } else { const PObj* p = dynamic_cast<const PObj*>(hs[i].b->item()); k = o->kid; Lib lb; *hs[i].b = p->kid; }
                hs[i].m = k;
            } else if (l.op == "drop") { { Lib lb; delete hs[i].h; delete hs[i].b; } hs.erase(hs.begin() + i); }
            else if (l.op == "cmp") { if (hs[i].h && hs[j].h && (hs[i].h->item() == hs[j].h->item()) != (hs[i].m->o == hs[j].m->o)) fail("wrong-object", "two pointers disagree on whether they refer to the same object"); }
            sched(mix(hash_str(l.op), (u64)(i * 32 + j))); steps(1); log_ev("%s %d %d live %zu", l.op.c_str(), i, j, g_live->size());
            checkAll(when); u64 h = 1; for (auto& r : hs) h = mix(h, (u64)(r.m->o ? r.m->o->val * 8 + min<long>(7, r.m.use_count()) : 1)); state(h);
        }
        heap_fail_at(-1); if (shared >= 2 && ops >= 6) nontrivial();
        while (!hs.empty()) { size_t k = hs.size() & 1 ? 0 : hs.size() - 1; { Lib lb; delete hs[k].h; delete hs[k].b; } hs.erase(hs.begin() + k); checkAll("at the end"); }
        if (heap_live_lib() != lib0) fail("leak", "after every pointer was destroyed " + to_string(heap_live_lib() - lib0) + " blocks remain");
    }
};
// ---- grammar items, rules, lexemes --------------------------------------------------------------------------------
struct T; typedef shared_ptr<const T> TP; typedef vector<TP> TR;
struct T { int kind, sym, prio; vector<TR> rules; string key; };
enum { EMPTY, EOI, EOG, TERM, NT, GUARD, OPT, REP, ALT, REPOPT };
string keyOf(const T& t) { string s = to_string(t.kind) + ":" + to_string(t.sym) + ":" + to_string(t.prio); for (auto& r : t.rules) { s += "("; for (auto& x : r) s += x->key + ","; s += ")"; } return s; }
TP mkT(int kind, int sym, int prio, const vector<TR>& rules) { auto t = make_shared<T>(); t->kind = kind; t->sym = sym; t->prio = prio; t->rules = rules; t->key = keyOf(*t); return t; }
using namespace contextfree;
struct XLexeme : dfa::lexeme { int extra; XLexeme(const symbols& s, const dfa::position& p, int m, int e) : dfa::lexeme(s, p, m), extra(e) {} XLexeme(const XLexeme& o) : dfa::lexeme(o), extra(o.extra) {} virtual dfa::lexeme* clone() const { return new XLexeme(*this); } };
struct IWorld {
    struct R { item_container* h; TP m; }; struct Q { rule_container* h; TP nt; TR m; }; struct X { dfa::lexeme_container* h; int matched, off, line, col, extra; vector<int> c; };
    struct AT; typedef shared_ptr<AT> AP; struct AT { int id, rule; string lex; vector<AP> kids; string key(int d = 0) const { string k = to_string(id) + "/" + lex; for (auto& c : kids) k += "(" + c->key(d + 1) + ")"; return k; } bool has(const AT* o) const { if (o == this) return true; for (auto& c : kids) if (c->has(o)) return true; return false; } int size() const { int n = 1; for (auto& c : kids) n += c->size(); return n; } };
    struct N { util::astnode_container* h; AP m; };
    vector<R> hs; vector<Q> rs; vector<X> ls; vector<N> as;
    static string lexKey(const X& x) { string k = "L" + to_string(x.matched) + ":" + to_string(x.line) + ":" + to_string(x.col) + ":" + to_string(x.off); for (int c : x.c) k += "," + to_string(c); return k; }
    void checkAst(const util::astnode* a, const AT& m, const char* when) {
        steps(1); if (!a || a->item_identifier() != m.id || a->rule() != m.rule || (a->lexeme().item() != 0) != !m.lex.empty() || a->children().size() != m.kids.size()) fail("wrong-node", string("a syntax tree node lost what it held (") + when + ")");
        if (!m.lex.empty()) { const dfa::lexeme* l = a->lexeme().item(); X x; x.matched = l->matched(); x.line = l->pos().line(); x.col = l->pos().column(); x.off = l->pos().offset(); x.c.assign(l->content().begin(), l->content().end()); if (lexKey(x) != m.lex) fail("wrong-node", string("a syntax tree node holds another token (") + when + ")"); }
        for (size_t k = 0; k < m.kids.size(); ++k) checkAst((*a)[(int)k].item(), *m.kids[k], when);
    }
    void astOrder(const N& a, const N& b, const N& c) {
        string x = a.m->key(), y = b.m->key(); bool lt = *a.h < *b.h, gt = *b.h < *a.h; if (lt && gt) fail("node-comparison", "two syntax tree nodes are each less than the other: " + x + " and " + y); if ((!lt && !gt) != (x == y)) fail("node-comparison", string(x == y ? "equal" : "different") + " syntax tree nodes are ordered as if they were " + (x == y ? "different: " : "equal: ") + x + " and " + y);
        if (lt && *b.h < *c.h && !(*a.h < *c.h)) fail("node-comparison", "the order of syntax tree nodes is not transitive"); probe("nodes-compared");
    }
    void checkItem(const item* it, const T& t, const char* when, int depth = 0) {
        steps(1); if (!it) fail("wrong-item", string("an item handle is empty (") + when + ")"); 
        static const int kinds[] = { item::empty, item::eoi, item::eog, item::terminal, item::nonterminal, item::guard, item::optional, item::repeat, item::alternative, item::repeat_zero_or_one };
        if ((int)it->type() != kinds[t.kind]) fail("wrong-item", string("an item changed its kind (") + when + ")");
        if ((t.kind == TERM || t.kind == NT) && it->symbol() != t.sym) fail("wrong-item", string("an item changed its symbol (") + when + ")");
        const ebnf* e = it->cast_ebnf(); const contextfree::guard* g = it->cast_guard();
        if ((e != 0) != (t.kind >= OPT) || (g != 0) != (t.kind == GUARD)) fail("wrong-item", "an item is cast to the wrong class");
        if (g) { if (g->priority() != t.prio) fail("wrong-item", "a guard has priority " + to_string(g->priority()) + " instead of " + to_string(t.prio) + " (" + when + ")"); checkRule(*g->get_rule(), it, t.rules[0], when, depth); }
        if (e) { if (e->count_rules() != t.rules.size()) fail("wrong-item", string("an item changed the number of its rules (") + when + ")"); size_t k = 0; for (ebnf::rule_iterator r = e->first_rule(); r != e->last_rule(); ++r, ++k) checkRule(**r, it, t.rules[k], when, depth); }
    }
    void checkRule(const rule& r, const item* owner, const TR& m, const char* when, int depth) {
        if (owner && r.nonterminal().item() != owner) fail("wrong-item", string("the rule inside an item is for another item (") + when + ")");
        if (r.items().size() != m.size()) fail("wrong-item", string("a rule has ") + to_string(r.items().size()) + " items instead of " + to_string(m.size()) + " (" + when + ")");
        for (size_t k = 0; k < m.size(); ++k) checkItem(r.items()[k].item(), *m[k], when, depth + 1);
    }
    void checkLex(const X& x, const char* when) {
        const dfa::lexeme* l = x.h->item(); bool ok = l && l->matched() == x.matched && l->pos().offset() == x.off && l->pos().line() == x.line && l->pos().column() == x.col && vector<int>(l->content().begin(), l->content().end()) == x.c;
        const XLexeme* xl = dynamic_cast<const XLexeme*>(l); if (ok && x.extra >= 0) ok = xl && xl->extra == x.extra; if (!ok) fail("wrong-lexeme", string("a lexeme handle lost what it held (") + when + ")");
    }
    void checkAll(const char* when) { for (auto& r : hs) checkItem(r.h->item(), *r.m, when); for (auto& q : rs) { checkRule(**q.h, 0, q.m, when, 0); checkItem((*q.h)->nonterminal().item(), *q.nt, when); } for (auto& x : ls) checkLex(x, when); for (auto& a : as) checkAst(a.h->item(), *a.m, when); }
    int size(const TP& t) { int n = 1; for (auto& r : t->rules) for (auto& x : r) n += size(x); return n; }
    void order(const item_container& a, const TP& x, const item_container& b, const TP& y) {
        bool eq = x->key == y->key; if ((a == b) != eq || (*a == *b) != eq || (a != b) == eq || (*a != *b) == eq) fail("item-comparison", "items " + x->key + " and " + y->key + " compare as " + (eq ? "different" : "equal"));
        bool lt = a < b, gt = b < a; if (lt && gt) fail("item-comparison", "items " + x->key + " and " + y->key + " are each less than the other"); if (eq != (!lt && !gt)) fail("item-comparison", "items " + x->key + " and " + y->key + ": the order says " + (eq ? "they differ" : "they are equal"));
        if ((a > b) != gt || (a <= b) != !gt || (a >= b) != !lt || (*a < *b) != lt || (*a > *b) != gt || (*a <= *b) != !gt || (*a >= *b) != !lt) fail("item-comparison", "the comparison operators disagree for " + x->key + " and " + y->key);
        probe(eq ? "equal-items-compared" : "different-items-compared"); if (x->kind == y->kind && !eq && x->kind >= GUARD) probe("compound-items-compared");
    }
    item* build(const T& t) {                                // a fresh item for a term, sharing nothing
        vector<rule> r; for (auto& m : t.rules) { rule x(item_container(new contextfree::nonterminal(2), true)); for (auto& c : m) x << item_container(build(*c), true); r.push_back(x); }
        switch (t.kind) { case EMPTY: return new empty_item(); case EOI: return new end_of_input(); case EOG: return new end_of_guard(); case TERM: return new contextfree::terminal(t.sym); case NT: return new contextfree::nonterminal(t.sym); case GUARD: return new contextfree::guard(r[0], t.prio); case OPT: return new ebnf_optional(r[0]); case REP: return new ebnf_repeating(r[0]); case REPOPT: return new ebnf_repeating_optional(r[0]); }
        ebnf_alternate* a = new ebnf_alternate(r[0]); for (size_t k = 1; k < r.size(); ++k) (*a->add_rule()) << r[k]; return a;
    }
    void run(const Plan& plan) {
        u64 lib0 = heap_live_lib(); int ops = 0, shared = 0; 
        for (size_t li = 0; li < plan.size(); ++li) {
            const Line& l = plan[li]; if (l.op == "heap" || l.op == "world") continue;
            ++ops; int n = (int)hs.size(), q = (int)rs.size(); string st = to_string(li) + ": " + l.op; const char* when = st.c_str();
            auto H = [&](size_t a) -> int { return n ? (int)(l.n(a) % n) : -1; }; auto Qn = [&](size_t a) -> int { return q ? (int)(l.n(a) % q) : -1; };
            if (l.op == "mk") {                                // mk kind sym prio nrules (count idx...)...
                if (n >= 24) continue; int kind = (int)(l.n(0) % 10); vector<TR> m; size_t p = 4; int nr = kind == ALT ? (int)(l.n(3) % 4) + 1 : kind >= GUARD ? 1 : 0; vector<vector<int> > idx; int total = 1;
                for (int k = 0; k < nr; ++k) { TR tr; vector<int> ix; int c = (int)(l.n(p++) % 4); for (int z = 0; z < c && n; ++z) { int ii = (int)(l.n(p++) % n); if (total + size(hs[ii].m) > 400) continue; total += size(hs[ii].m); tr.push_back(hs[ii].m); ix.push_back(ii); } m.push_back(tr); idx.push_back(ix); }
                int sym = kind == TERM || kind == NT ? (int)(l.n(1) % 7) : 0, prio = kind == GUARD ? (int)(l.n(2) % 4) - 1 : 0; R r; r.m = mkT(kind, sym, prio, m);
                { Lib lb; item* it = 0; rule first(item_container(new contextfree::nonterminal(1), true)); if (nr) for (int ii : idx[0]) first << *hs[ii].h;
                  switch (kind) { case EMPTY: it = new empty_item(); break; case EOI: it = new end_of_input(); break; case EOG: it = new end_of_guard(); break; case TERM: it = new contextfree::terminal(sym); break; case NT: it = new contextfree::nonterminal(sym); break;
                    case GUARD: if (l.n(1) & 1) it = new contextfree::guard(first, prio); else { contextfree::guard* g = new contextfree::guard(prio); (*g->get_rule()) << first; it = g; } break;
                    case OPT: if (l.n(1) & 1) it = new ebnf_optional(first); else { ebnf* e = new ebnf_optional(); (*e->get_rule()) << first; it = e; } break;
                    case REP: it = new ebnf_repeating(first); break; case REPOPT: it = new ebnf_repeating_optional(first); break;
                    default: { ebnf_alternate* a = new ebnf_alternate(first); for (int k = 1; k < nr; ++k) { rule_container r2 = a->add_rule(); for (int ii : idx[k]) (*r2) << *hs[ii].h; } it = a; } }
                  r.h = new item_container(it, true); }
                hs.push_back(r);
            } else if (l.op == "clone") { int i = H(0); if (i < 0 || n >= 24) continue; R r; r.m = hs[i].m; bool ok = true; { Lib lb; try { r.h = l.n(1) & 1 ? new item_container((const item&)**hs[i].h) : new item_container((const item*)hs[i].h->item()); } catch (const bad_alloc&) { ok = false; } } if (!ok) continue; if (r.h->item() == hs[i].h->item()) fail("wrong-item", "a clone is the object itself"); hs.push_back(r); order(*r.h, r.m, *hs[i].h, hs[i].m); }
            else if (l.op == "variant") {                        // the same term again, with at most one change
                int i = H(0); if (i < 0 || n >= 24) continue; T t = *hs[i].m; int how = (int)(l.n(1) % 8); TP other = hs[H(2)].m; if (t.rules.empty() || size(hs[i].m) + size(other) > 400) continue; TR& tr = t.rules[l.n(3) % t.rules.size()]; size_t c = tr.empty() ? 0 : l.n(4) % tr.size();
                if (how == 1) tr.push_back(other); else if (how == 2 && !tr.empty()) tr[c] = other; else if (how == 3 && !tr.empty()) tr.erase(tr.begin() + c); else if (how == 4 && t.kind == GUARD) t.prio += t.prio < 0 ? 1 : -1; else if (how == 5 && t.kind >= OPT && t.kind != ALT) t.kind = t.kind == REP ? REPOPT : REP; else if (how == 6 && tr.size() > 1) swap(tr[0], tr[c]); else if (how == 7 && t.kind == ALT && t.rules.size() > 1) swap(t.rules[0], t.rules[1]);
                R r; r.m = mkT(t.kind, t.sym, t.prio, t.rules); { Lib lb; r.h = new item_container(build(*r.m), true); } hs.push_back(r); order(*r.h, r.m, *hs[i].h, hs[i].m); order(*hs[i].h, hs[i].m, *r.h, r.m); checkItem(r.h->item(), *r.m, when);
            }
            else if (l.op == "copy") { int i = H(0); if (i < 0 || n >= 24) continue; R r; r.m = hs[i].m; { Lib lb; r.h = new item_container(*hs[i].h); } hs.push_back(r); ++shared; }
            else if (l.op == "assign") { int i = H(0), j = H(1); if (i < 0) continue; { Lib lb; *hs[i].h = *hs[j].h; } hs[i].m = hs[j].m; ++shared; }
            else if (l.op == "tokid") {                         // step down into the item that the handle may be the last owner of
                int i = H(0); if (i < 0) continue; const item* it = hs[i].h->item(); const rule* r = 0; size_t k = 0; TP t = hs[i].m;
                if (it->cast_guard()) r = &*it->cast_guard()->get_rule(); else if (it->cast_ebnf()) { k = l.n(1) % t->rules.size(); r = &**(it->cast_ebnf()->first_rule() + k); }
                if (!r || t->rules[k].empty()) continue; size_t c = l.n(2) % t->rules[k].size(); TP nt = t->rules[k][c]; { Lib lb; *hs[i].h = r->items()[c]; } hs[i].m = nt; probe("assigned-from-inside-the-object-let-go");
            } else if (l.op == "drop") { int i = H(0); if (i < 0) continue; { Lib lb; delete hs[i].h; } hs.erase(hs.begin() + i); }
            else if (l.op == "cmp") { int i = H(0), j = H(1), k = H(2); if (i < 0) continue; order(*hs[i].h, hs[i].m, *hs[j].h, hs[j].m); const item_container &a = *hs[i].h, &b = *hs[j].h, &c = *hs[k].h; if (a < b && b < c && !(a < c)) fail("item-comparison", "the order of items is not transitive"); }
            else if (l.op == "sort") { set<item_container> s; set<string> keys; for (auto& r : hs) { { Lib lb; s.insert(*r.h); } keys.insert(r.m->key); } if (s.size() != keys.size()) fail("item-comparison", "a set of items holds " + to_string(s.size()) + " of " + to_string(keys.size()) + " different items"); for (auto& r : hs) if (!s.count(*r.h)) fail("item-comparison", "an item is not found in the set it was put into"); { Lib lb; s.clear(); } }
            else if (l.op == "rule") { if (q >= 12 || n < 1) continue; Q r; r.nt = hs[H(0)].m; int c = (int)(l.n(1) % 5); { Lib lb; rule* x = new rule(*hs[H(0)].h); for (int k = 0; k < c; ++k) { int ii = (int)(l.n(2 + k) % n); (*x) << *hs[ii].h; r.m.push_back(hs[ii].m); } r.h = new rule_container(x, true); } rs.push_back(r); }
            else if (l.op == "rclone") { int i = Qn(0); if (i < 0 || q >= 12) continue; Q r = rs[i]; { Lib lb; r.h = l.n(1) & 1 ? new rule_container((const rule&)**rs[i].h) : new rule_container(*rs[i].h); } rs.push_back(r); }
            else if (l.op == "rappend") { int i = Qn(0), j = H(1); if (i < 0 || j < 0) continue; const rule* x = rs[i].h->item(); if (rs[i].m.size() > 12) continue; { Lib lb; **rs[i].h << *hs[j].h; } for (auto& z : rs) if (z.h->item() == x) z.m.push_back(hs[j].m); }
            else if (l.op == "rassign") { int i = Qn(0), j = Qn(1); if (i < 0) continue; if (l.n(2) & 1) { { Lib lb; *rs[i].h = *rs[j].h; } rs[i].nt = rs[j].nt; rs[i].m = rs[j].m; } else { const rule* x = rs[i].h->item(); { Lib lb; **rs[i].h = (const rule&)**rs[j].h; } TP nt = rs[j].nt; TR m = rs[j].m; for (auto& z : rs) if (z.h->item() == x) { z.nt = nt; z.m = m; } } }
            else if (l.op == "rdrop") { int i = Qn(0); if (i < 0) continue; { Lib lb; delete rs[i].h; } rs.erase(rs.begin() + i); }
            else if (l.op == "rcmp") { int i = Qn(0), j = Qn(1); if (i < 0) continue; const rule &a = **rs[i].h, &b = **rs[j].h; bool eq = rs[i].nt->key == rs[j].nt->key && rs[i].m.size() == rs[j].m.size(); for (size_t k = 0; eq && k < rs[i].m.size(); ++k) eq = rs[i].m[k]->key == rs[j].m[k]->key; bool lt = a < b, gt = b < a; if ((a == b) != eq || (lt && gt) || (!lt && !gt) != eq) fail("rule-comparison", string("two ") + (eq ? "equal" : "different") + " rules compare as " + (lt ? "less" : gt ? "greater" : "equal") + (a == b ? " and ==" : " and !=")); int c = a.compare_items(b), d = b.compare_items(a); if ((c < 0) != (d > 0) || (c == 0) != (d == 0)) fail("rule-comparison", "comparing the items of two rules depends on the order of the rules"); probe("rules-compared"); }
            else if (l.op == "lex") { if (ls.size() >= 12) continue; X x; x.matched = (int)(l.n(0) % 9) - 1; x.off = (int)l.n(1); x.line = (int)l.n(2); x.col = (int)l.n(3); x.extra = (l.n(4) & 1) ? (int)l.n(4) : -1; for (int k = 0; k < (int)(l.n(5) % 12); ++k) x.c.push_back((int)((l.n(5) * 7919 + k * 104729) % 0x110000)); { Lib lb; dfa::lexeme::symbols s(x.c.begin(), x.c.end()); dfa::position p(x.off, x.line, x.col); dfa::lexeme* z = x.extra >= 0 ? new XLexeme(s, p, x.matched, x.extra) : new dfa::lexeme(s, p, x.matched); x.h = new dfa::lexeme_container(z, true); } ls.push_back(x); }
            else if (l.op == "lclone" || l.op == "lcopy") { if (ls.empty() || ls.size() >= 12) continue; X x = ls[l.n(0) % ls.size()]; { Lib lb; x.h = l.op == "lclone" ? new dfa::lexeme_container((const dfa::lexeme&)**x.h) : new dfa::lexeme_container(*x.h); } ls.push_back(x); }
            else if (l.op == "lassign") { if (ls.empty()) continue; X &a = ls[l.n(0) % ls.size()], &b = ls[l.n(1) % ls.size()]; { Lib lb; *a.h = *b.h; } dfa::lexeme_container* h = a.h; a = b; a.h = h; }
            else if (l.op == "lcmp") { if (ls.empty()) continue; X &a = ls[l.n(0) % ls.size()], &b = ls[l.n(1) % ls.size()]; auto key = [](const X& x) { return make_tuple(x.matched, x.c, x.line, x.col, x.off); }; if ((*a.h < *b.h) != (key(a) < key(b))) fail("lexeme-comparison", "lexemes are ordered wrongly"); probe("lexemes-compared"); }
            else if (l.op == "ast") { if (as.size() >= 14) continue; N a; a.m = make_shared<AT>(); a.m->rule = -1; a.m->id = -1; if (!ls.empty() && (l.n(0) & 1)) { X& x = ls[l.n(1) % ls.size()]; a.m->lex = lexKey(x); Lib lb; a.h = new util::astnode_container(new util::astnode(*x.h), true); } else { a.m->id = (int)(l.n(1) % 5); if (l.n(0) & 2) a.m->rule = (int)(l.n(2) % 5); Lib lb; a.h = new util::astnode_container(l.n(0) & 2 ? new util::astnode(a.m->id, a.m->rule) : new util::astnode(a.m->id), true); } as.push_back(a); }
            else if (l.op == "astadd") { if (as.empty()) continue; N &a = as[l.n(0) % as.size()], &b = as[l.n(1) % as.size()]; if (b.m->has(a.m.get())) continue; int big = 0; for (auto& z : as) big = max(big, z.m->size()); if (b.m->size() + big > 120) continue; { Lib lb; if (l.n(2) & 1) (*a.h)->add_child(*b.h); else { vector<util::astnode_container> v(1 + (l.n(2) >> 1) % 2, *b.h); (*a.h)->add_children(v.rbegin(), v.rend()); if (v.size() == 2) a.m->kids.push_back(b.m); } } a.m->kids.push_back(b.m); }
            else if (l.op == "astcopy") { if (as.empty() || as.size() >= 14) continue; N a = as[l.n(0) % as.size()]; if (l.n(1) & 1) { Lib lb; a.h = new util::astnode_container(*a.h); } else { { Lib lb; a.h = new util::astnode_container((const util::astnode&)**a.h); } a.m = make_shared<AT>(*a.m); } as.push_back(a); }
            else if (l.op == "asttokid") { if (as.empty()) continue; N& a = as[l.n(0) % as.size()]; if (a.m->kids.empty()) continue; size_t c = l.n(1) % a.m->kids.size(); AP k = a.m->kids[c]; { Lib lb; *a.h = (**a.h)[(int)c]; } a.m = k; probe("assigned-from-inside-the-object-let-go"); }
            else if (l.op == "astcmp") { if (as.empty()) continue; astOrder(as[l.n(0) % as.size()], as[l.n(1) % as.size()], as[l.n(2) % as.size()]); }
            else if (l.op == "astdrop") { if (as.empty()) continue; size_t i = l.n(0) % as.size(); { Lib lb; delete as[i].h; } as.erase(as.begin() + i); }
            else if (l.op == "ldrop") { if (ls.empty()) continue; size_t i = l.n(0) % ls.size(); { Lib lb; delete ls[i].h; } ls.erase(ls.begin() + i); }
            else continue;
            sched(mix(hash_str(l.op), (u64)l.n(0))); log_ev("%s %zu %zu %zu", l.op.c_str(), hs.size(), rs.size(), ls.size()); checkAll(when); u64 h = 2; for (auto& r : hs) h = mix(h, hash_str(r.m->key)); state(h);
        }
        if (shared >= 1 && ops >= 6) nontrivial();
        while (!rs.empty()) { { Lib lb; delete rs.back().h; } rs.pop_back(); checkAll("at the end"); }
        while (!hs.empty()) { size_t k = hs.size() & 1 ? 0 : hs.size() - 1; { Lib lb; delete hs[k].h; } hs.erase(hs.begin() + k); checkAll("at the end"); }
        while (!as.empty()) { { Lib lb; delete as.back().h; } as.pop_back(); checkAll("at the end"); }
        while (!ls.empty()) { { Lib lb; delete ls.back().h; } ls.pop_back(); }
        if (heap_live_lib() != lib0) fail("leak", "after every item handle was destroyed " + to_string(heap_live_lib() - lib0) + " blocks remain");
    }
};
void gen(Rng& r, Plan& p) {
    p.push_back(L("heap").add((long long)(r.next() >> 8)).add(r.below(256)).add(r.below(3)));
    int w = r.below(5); w = w < 2 ? 0 : w == 2 ? 1 : 2; p.push_back(L("world").add(w)); bool faults = r.chance(1, 2); int n = r.range(8, r.chance(1, 4) ? 120 : 50), vals = r.pick(vector<int>{2, 4, 30}); bool asty = r.chance(1, 3);
    if (w < 2) for (int i = 0; i < n; ++i) {
        int k = r.below(100), a = r.below(64), b = r.below(64); 
        if (faults && r.chance(1, 8)) p.push_back(r.chance(1, 3) && w == 0 ? L("faultclone").add(r.below(2)) : L("faultalloc").add(r.below(5)));
        if (k < 22 || i < 2) p.push_back(L("adopt").add(r.below(vals)).add(r.below(2)));
        else if (k < 25) p.push_back(L(w == 0 && r.chance(1, 2) ? "borrow" : r.chance(1, 2) ? "null" : "def").add(r.below(vals)).add(r.below(2)));
        else if (k < 27) p.push_back(L("again").add(a));
        else if (k < 34) p.push_back(L("clone").add(a).add(b)); else if (k < 46) p.push_back(L("copy").add(a)); else if (k < 58) p.push_back(L("assign").add(a).add(b));
        else if (k < 72) p.push_back(L("setkid").add(a).add(b).add(r.below(2))); else if (k < 82) p.push_back(L("tokid").add(a)); else if (k < 92) p.push_back(L("drop").add(a)); else p.push_back(L("cmp").add(a).add(b));
    } else for (int i = 0; i < n; ++i) {
        if (i > 6 && asty && r.chance(2, 3)) { int a = r.below(64), b = r.below(64), c = r.below(64), k = r.below(20); p.push_back(k < 3 ? L("lex").add(r.below(3)).add(r.below(2)).add(0).add(r.below(2)).add(0).add(r.below(3)) : k < 7 ? L("ast").add(a).add(b).add(c) : k < 12 ? L("astadd").add(a).add(b).add(c) : k < 14 ? L("astcopy").add(a).add(b) : k < 15 ? L("asttokid").add(a).add(b) : k < 16 ? L("lcmp").add(a).add(b) : k < 19 ? L("astcmp").add(a).add(b).add(c) : L("astdrop").add(a)); continue; }
        int k = r.below(100), a = r.below(64), b = r.below(64), c = r.below(64);
        if (i > 4 && r.chance(1, 7)) p.push_back(L("variant").add(a).add(r.below(8)).add(b).add(r.below(4)).add(c));
        else if (k < 32 || i < 4) { int kind = i < 3 ? r.pick(vector<int>{TERM, NT, TERM, EMPTY}) : r.below(10); Line l = L("mk").add(kind).add(r.below(vals)).add(r.below(4)).add(r.below(4)); for (int z = 0; z < 14; ++z) l.add(r.below(24)); p.push_back(l); }
        else if (k < 40) p.push_back(L("clone").add(a).add(b)); else if (k < 46) p.push_back(L("copy").add(a)); else if (k < 52) p.push_back(L("assign").add(a).add(b)); else if (k < 58) p.push_back(L("tokid").add(a).add(b).add(c));
        else if (k < 63) p.push_back(L("drop").add(a)); else if (k < 74) p.push_back(L("cmp").add(a).add(b).add(c)); else if (k < 76) p.push_back(L("sort"));
        else if (k < 80) p.push_back(L("rule").add(a).add(b).add(c).add(r.below(64)).add(r.below(64)).add(r.below(64))); else if (k < 82) p.push_back(L("rclone").add(a).add(b)); else if (k < 85) p.push_back(L("rappend").add(a).add(b)); else if (k < 87) p.push_back(L("rassign").add(a).add(b).add(c)); else if (k < 88) p.push_back(L("rdrop").add(a)); else if (k < 92) p.push_back(L("rcmp").add(a).add(b));
        else if (k < 95) p.push_back(L("lex").add(a).add(b).add(c).add(r.below(9)).add(r.below(4)).add(r.below(30))); else if (k < 97) p.push_back(L(r.chance(1, 2) ? "lclone" : "lcopy").add(a)); else if (k < 99) p.push_back(L("lassign").add(a).add(b)); else p.push_back(L("ldrop").add(a));
    }
}
void exec(const Plan& plan) {
    HeapCfg hc; int w = 0; for (auto& l : plan) { if (l.op == "heap") { hc.seed = l.n(0); hc.fill = (int)l.n(1) & 255; hc.reuse = (int)l.n(2) % 3; } if (l.op == "world") w = (int)l.n(0); }
    heap_begin(hc); set<int> live; g_live = &live; g_nextId = 1; g_throwIn = -1; sample(encode_plan(plan).substr(0, 380));
    if (w == 0) { CWorld x; x.run(plan); } else if (w == 1) { PWorld x; x.run(plan); } else { IWorld x; x.run(plan); }
}
Reg reg({"C16", "seeded histories of create/adopt/borrow/clone/copy/cast/assign/step down/compare/destroy over up to 24 shared handles with failing clones and failing allocations, on instrumented objects and on real grammar items, rules and lexemes; non-trivial: at least six operations with shared objects; distinct by event-log hash", gen, exec, 20000, 1500000, "util::container, util::syntax_ptr, contextfree items, rules and guards, dfa::lexeme", "object type in two of three worlds (instrumented), heap (seeded layout, poisoning, failing allocations)"});
}

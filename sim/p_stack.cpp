// C03: parser stack references are persistent snapshots.
// Real: lr::parser_stack (push/pop/copy/assign/destroy/index, garbage collection).  Model: one immutable cons list per reference.
#include "core.h"
#include <memory>
#include <new>
#include "TameParse/Lr/parser_stack.h"
using namespace std; using namespace sim;
namespace {
long long g_live = 0, g_throwIn = -1; u64 g_made = 0;
struct Boom {};
struct Item {
    enum { MAGIC = 0x600dbeef };
    unsigned magic; int id; int* box;                       // box: a separately owned allocation, so lifetime errors are seen by the heap
    static int* mk(int v) { NotLib nl; return new int(v); }
    Item() : magic(MAGIC), id(-1), box(0) { ++g_live; }
    explicit Item(int v) : magic(MAGIC), id(v), box(mk(v)) { ++g_live; }
    Item(const Item& o) : magic(MAGIC), id(o.id), box(0) { tick(); o.check(); if (o.box) box = mk(*o.box); ++g_live; }
    Item& operator=(const Item& o) { check(); o.check(); if (this != &o) { tick(); int* nb = o.box ? mk(*o.box) : 0; { NotLib nl; delete box; } box = nb; id = o.id; } return *this; }
    ~Item() { check(); magic = 0; { NotLib nl; delete box; } --g_live; }
    void check() const { if (magic != MAGIC) fail("item-lifetime", "an item was used after it was destroyed or before it was constructed"); if (id != -1 && (!box || *box != id)) fail("item-lifetime", "an item lost its contents"); }
    static void tick() { if (g_throwIn >= 0 && g_throwIn-- == 0) { fault("item-copy-throws"); throw Boom(); } }
};
struct Node { int state, id; shared_ptr<Node> below; int depth; ~Node() { while (below && below.use_count() == 1) { shared_ptr<Node> b = below->below; below->below.reset(); below = b; } } };
typedef shared_ptr<Node> NP;

template<int D> struct World {
    typedef lr::parser_stack<Item, D> S;
    struct Ref { S* s; NP m; int grp; };
    vector<Ref> refs; int ngrp = 0, ops = 0; 
    void checkRef(size_t i, bool deep) {
        Ref& r = refs[i]; const S& cs = *r.s;
        NP n = r.m; int off = 0, lim = deep ? 1000000 : 3;
        while (n && off < lim) {
            const typename S::entry& e = (off == 0 ? (ops & 1 ? *cs : *cs.operator->()) : (ops & 2 ? cs[-off] : (*r.s)[-off]));
            if (n->id >= 0) { e.item.check(); if (e.item.id != n->id || e.state != n->state) fail("snapshot-changed", "reference " + to_string(i) + " at depth " + to_string(off) + " holds item " + to_string(e.item.id) + " state " + to_string(e.state) + ", expected item " + to_string(n->id) + " state " + to_string(n->state)); }
            else if (e.state != n->state) fail("snapshot-changed", "bottom entry changed its state");
            int jump = off > 100 ? 29 : 1; off += jump; for (int k = 0; k < jump && n; ++k) n = n->below;
        }
        steps(1);
    }
    void checkAll(bool deep) { for (size_t i = 0; i < refs.size(); ++i) checkRef(i, deep); }
    int reach() { set<Node*> seen; for (size_t i = 0; i < refs.size(); ++i) for (Node* n = refs[i].m.get(); n && seen.insert(n).second; n = n->below.get()) {} return (int)seen.size(); }
    int pickRef(long long k) { return refs.empty() ? -1 : (int)(k % (long long)refs.size()); }
    void run(const Plan& plan) {
        long long live0 = g_live; u64 lib0 = heap_live_lib(); int nextId = 1; int peak = 0, forks = 0, maxDepth = 0, destroyedFirst = 0; u64 statehash = 1;
        for (size_t li = 0; li < plan.size(); ++li) {
            const Line& l = plan[li]; if (l.op == "heap" || l.op == "depth") continue;
            ++ops; int r = pickRef(l.n(0)); 
            if (l.op == "new") { Ref n; n.s = 0; try { Lib lb; n.s = new S(); } catch (const bad_alloc&) { log_ev("new failed"); continue; } n.m = make_shared<Node>(); n.m->state = (int)l.n(0); n.m->id = -1; n.m->depth = 0; (*n.s)->state = n.m->state; n.grp = ngrp++; refs.push_back(n); log_ev("new -> %zu", refs.size() - 1); }
            else if (r < 0) continue;
            else if (l.op == "push") {
                int cnt = (int)l.n(1, 1); if (cnt > 3000) cnt = 3000;
                for (int k = 0; k < cnt; ++k) {
                    int id = nextId++, st = id * 7 % 1013; bool ok = true; Item it(id);
                    try { Lib lb; refs[r].s->push(st, it); } catch (const Boom&) { ok = false; } catch (const bad_alloc&) { ok = false; }
                    if (ok) { NP n = make_shared<Node>(); n->state = st; n->id = id; n->below = refs[r].m; n->depth = refs[r].m->depth + 1; refs[r].m = n; if (n->depth > maxDepth) maxDepth = n->depth; }
                    else { log_ev("push failed"); checkAll(false); break; }
                }
                log_ev("push %d x%d", r, cnt);
            } else if (l.op == "pop") {
                int cnt = (int)l.n(1, 1);
                for (int k = 0; k < cnt; ++k) { bool want = refs[r].m->below != 0, got; { Lib lb; got = refs[r].s->pop(); } if (got != want) fail("pop-result", string("pop returned ") + (got ? "true" : "false") + " with model depth " + to_string(refs[r].m->depth)); if (!want) break; refs[r].m = refs[r].m->below; }
                log_ev("pop %d x%d", r, cnt);
            } else if (l.op == "copy") { if (refs.size() >= 24) continue; Ref n = refs[r]; try { Lib lb; n.s = new S(*refs[r].s); } catch (const bad_alloc&) { log_ev("copy failed"); continue; } refs.push_back(n); ++forks; log_ev("copy %d -> %zu", r, refs.size() - 1); }
            else if (l.op == "assign") { int s = pickRef(l.n(1)); if (refs[r].grp != refs[s].grp) continue; { Lib lb; *refs[r].s = *refs[s].s; } refs[r].m = refs[s].m; log_ev("assign %d = %d", r, s); }
            else if (l.op == "drop") { bool older = false; for (size_t k = r + 1; k < refs.size(); ++k) if (refs[k].grp == refs[r].grp) older = true; if (older) { ++destroyedFirst; probe("older-reference-destroyed-first"); } { Lib lb; delete refs[r].s; } refs.erase(refs.begin() + r); log_ev("drop %d", r); }
            else if (l.op == "faultcopy") { g_throwIn = l.n(1); continue; }
            else if (l.op == "faultalloc") { heap_fail_at(l.n(1)); continue; }
            else if (l.op == "check") checkAll(true);
            sched(mix(hash_str(l.op), (u64)r)); steps(1);
            if (r < (int)refs.size() && r >= 0) checkRef(r, false);
            if (ops % 5 == 0) checkAll(false);
            if (ops % 16 == 0 || l.op == "pop") { int re = reach(); if (re > peak) peak = re; if (g_live - live0 > 4LL * peak + 64 * (ngrp + 1) + 4096) fail("unbounded-storage", "stack keeps " + to_string(g_live - live0) + " items although at most " + to_string(peak) + " were ever reachable"); }
            else { int re = reach(); if (re > peak) peak = re; }
            u64 h = 0; for (size_t k = 0; k < refs.size(); ++k) h = mix(h, (u64)refs[k].m->depth * 31 + refs[k].grp); state(h);
        }
        g_throwIn = -1; heap_fail_at(-1);
        checkAll(true);
        if (maxDepth > D) probe("stack-grew"); if (maxDepth > 512) probe("stack-grew-past-512"); if (forks >= 2) probe("two-or-more-forks");
        if (forks && maxDepth >= 2) nontrivial();
        // Destroy what is left, oldest first or newest first
        while (!refs.empty()) { size_t k = (refs.size() & 1) ? 0 : refs.size() - 1; { Lib lb; delete refs[k].s; } refs.erase(refs.begin() + k); checkAll(false); }
        if (g_live != live0) fail("leak", "after every reference was destroyed " + to_string(g_live - live0) + " items remain");
        if (heap_live_lib() != lib0) fail("leak", "after every reference was destroyed " + to_string(heap_live_lib() - lib0) + " library blocks remain");
        (void)statehash;
    }
};
void gen(Rng& r, Plan& p) {
    p.push_back(L("heap").add((long long)(r.next() >> 8)).add(r.below(256)).add(r.below(3)));
    int D = r.pick(vector<int>{64, 64, 64, 4, 16}); p.push_back(L("depth").add(D));
    bool faults = r.chance(1, 2); int shape = r.below(4);      // 0 general, 1 deep, 2 fork heavy, 3 churn
    int n = r.range(8, shape == 3 ? 160 : 90);
    p.push_back(L("new").add(r.below(100)));
    for (int i = 0; i < n; ++i) {
        int k = r.below(100); int ref = r.below(64);
        if (faults && r.chance(1, 9)) { if (r.chance(1, 2)) p.push_back(L("faultcopy").add(0).add(r.below(r.chance(1, 4) ? 200 : 6))); else p.push_back(L("faultalloc").add(0).add(r.below(4))); }
        int big = shape == 1 ? r.pick(vector<int>{1, 5, 40, 70, 130, 400, 700}) : shape == 3 ? r.pick(vector<int>{1, 2, 3, 30, 64}) : r.pick(vector<int>{1, 1, 2, 3, 5, 20, 66});
        if (k < (shape == 2 ? 25 : 36)) p.push_back(L("push").add(ref).add(big));
        else if (k < (shape == 2 ? 40 : 60)) p.push_back(L("pop").add(ref).add(r.chance(1, 6) ? 2000 : r.chance(1, 2) ? big : 1));
        else if (k < 76) p.push_back(L("copy").add(ref));
        else if (k < 82) p.push_back(L("assign").add(ref).add(r.below(64)));
        else if (k < 94) p.push_back(L("drop").add(r.chance(1, 2) ? r.below(3) : ref));
        else if (k < 97) p.push_back(L("new").add(r.below(100)));
        else p.push_back(L("check"));
    }
}
void exec(const Plan& plan) {
    HeapCfg hc; int D = 64; for (size_t i = 0; i < plan.size(); ++i) { if (plan[i].op == "heap") { hc.seed = plan[i].n(0); hc.fill = (int)plan[i].n(1) & 255; hc.reuse = (int)plan[i].n(2) % 3; } if (plan[i].op == "depth") D = (int)plan[i].n(0); }
    heap_begin(hc); sample(encode_plan(plan).substr(0, 380));
    if (D == 4) { World<4> w; w.run(plan); } else if (D == 16) { World<16> w; w.run(plan); } else { World<64> w; w.run(plan); }
}
Reg reg({"C03", "seeded histories of new/push/pop/copy/assign/destroy over up to 24 live references with failing item copies and failing allocations at chosen points; non-trivial: at least one copied reference and depth >= 2; distinct by event-log hash", gen, exec, 16000, 1500000, "lr::parser_stack", "item type (instrumented), heap (seeded layout, poisoning, failing allocations)"});
}

// C04 tokens independent of delivery, C05 faults while lexing, C06 one lexer shared by interleaved sessions.
// Real: dfa::lexer (regex -> NDFA -> DFA -> tables), dfa_stream, positions, util::stringreader, util::utf8reader.  Oracle: ref_regex.h.
#include "core.h"
#include "fiber.h"
#include "simio.h"
#include "ref_regex.h"
#include "genlex.h"
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Util/stringreader.h"
#include "TameParse/Util/utf8reader.h"
using namespace std; using namespace sim;
namespace sim {
vector<int> csv(const string& s) { vector<int> o; size_t i = 0; while (i < s.size()) { size_t e = s.find(',', i); if (e == string::npos) e = s.size(); o.push_back(atoi(s.substr(i, e - i).c_str())); i = e + 1; } return o; }
string tocsv(const vector<int>& v) { string o; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + to_string(v[i]); return o; }
}
namespace {
int g_srcLive = 0;
struct SrcInt : dfa::lexer_symbol_stream { Feed& f; SrcInt(Feed& x) : f(x) { ++g_srcLive; } ~SrcInt() { --g_srcLive; } dfa::lexer_symbol_stream& operator>>(int& r) { int v; r = f.next(v) ? v : (int)dfa::symbol_set::end_of_input; return *this; } };
struct Alike { Feed& f; bool ok; Alike(Feed& x) : f(x), ok(true) {} Alike& get(wchar_t& c) { int v; if (f.next(v)) c = (wchar_t)v; else { c = 0; ok = false; } return *this; } bool good() const { return ok; } };
enum Kind { K_INT, K_ALIKE, K_WISTREAM, K_ISTREAM, K_STRINGREADER, K_UTF8, K_N };

struct Session {
    int id, kind, mask; ref::Syms text; Feed feed; ref::Syms eff; vector<ref::Tok> want; size_t at; bool ended, sticky;
    unique_ptr<SimBuf<wchar_t>> wb; unique_ptr<SimBuf<char>> cb; unique_ptr<wistream> wis; unique_ptr<istream> cis; unique_ptr<Alike> al; wstring ws; unique_ptr<util::wstringreader> sr; unique_ptr<util::utf8reader> u8;
    dfa::lexeme_stream* ls; Fiber* fib; int throws;
    Session() : at(0), ended(false), sticky(false), ls(0), fib(0), throws(0) {}
    void open(const dfa::basic_lexer& lx) {
        Lib lb;
        switch (kind) {
            case K_ALIKE: al.reset(new Alike(feed)); ls = lx.create_stream_from<wchar_t>(*al); break;
            case K_WISTREAM: wb.reset(new SimBuf<wchar_t>(feed)); wis.reset(new wistream(wb.get())); if (mask) wis->exceptions(ios::badbit); ls = lx.create_stream_from(*wis); break;
            case K_ISTREAM: cb.reset(new SimBuf<char>(feed)); cis.reset(new istream(cb.get())); if (mask) cis->exceptions(ios::badbit); ls = lx.create_stream_from(*cis); break;
            case K_STRINGREADER: { for (size_t i = 0; i < eff.size(); ++i) ws += (wchar_t)eff[i]; sr.reset(new util::wstringreader(ws)); ls = lx.create_stream_from<wchar_t>(*sr); break; }
            case K_UTF8: cb.reset(new SimBuf<char>(feed)); cis.reset(new istream(cb.get())); u8.reset(new util::utf8reader(cis.get())); ls = lx.create_stream_from<wchar_t>(*u8); break;
            default: { SrcInt* s = new SrcInt(feed); ls = lx.create_stream(s); if (!ls) delete s; }
        }
        if (!ls) { NotLib nl; fail("no-stream", "create_stream returned no stream for a usable lexer"); }
    }
    bool retryable() const { return kind == K_INT || kind == K_ALIKE || ((kind == K_WISTREAM || kind == K_ISTREAM) && mask); }
    // one lexeme; returns false at end of input
    bool step(bool boundReads) {
        dfa::lexeme* lx = 0; 
        for (;;) {
            bool io = false;
            try { Lib lb; (*ls) >> lx; } catch (const IoError&) { io = true; } catch (const bad_alloc&) { io = true; probe("retried-after-allocation-failure"); }
            if (!io) break;
            if (++throws > 50) fail("livelock", "read failures kept recurring"); log_ev("s%d io-error at symbol %zu", id, feed.pos);
            if (wis) wis->clear(); if (cis) cis->clear();
            lx = 0; probe("retried-after-error");
        }
        steps(1);
        if (!lx) {
            log_ev("s%d end", id);
            if (at != want.size()) fail("tokens-lost", "end of input reported after " + to_string(at) + " lexemes; " + to_string(want.size()) + " expected");
            ended = true; return false;
        }
        // copy out, then check
        ref::Syms c(lx->content().begin(), lx->content().end()); int m = lx->matched(); ref::Pos p = { lx->pos().offset(), lx->pos().line(), lx->pos().column() };
        dfa::position fp; { Lib lb; fp = dfa::position(lx->final_pos()); } ref::Pos fin = { fp.offset(), fp.line(), fp.column() };
        { Lib lb; delete lx; }
        log_ev("s%d tok %d len %zu at %d %d:%d", id, m, c.size(), p.off, p.line, p.col);
        if (at >= want.size()) fail("extra-token", "lexeme '" + ref::utf8(c) + "' produced after the end of the input");
        const ref::Tok& w = want[at]; ref::Syms wc(eff.begin() + w.start, eff.begin() + w.start + w.len);
        if (c != wc) fail("wrong-content", "lexeme " + to_string(at) + " holds '" + ref::utf8(c) + "' (symbol " + to_string(m) + "), expected '" + ref::utf8(wc) + "' (symbol " + to_string(w.sym) + ")");
        if (m != w.sym) fail("wrong-symbol", "lexeme " + to_string(at) + " '" + ref::utf8(c) + "' matched " + to_string(m) + ", expected " + to_string(w.sym));
        if (!(p == w.pos)) fail("wrong-position", "lexeme " + to_string(at) + " '" + ref::utf8(c) + "' is at offset " + to_string(p.off) + " line " + to_string(p.line) + " column " + to_string(p.col) + ", expected " + to_string(w.pos.off) + " " + to_string(w.pos.line) + " " + to_string(w.pos.col));
        if (!(w.start > 0 && eff[w.start - 1] == 13) && !(fin == w.fin)) fail("wrong-position", "lexeme " + to_string(at) + " '" + ref::utf8(c) + "' ends at offset " + to_string(fin.off) + " line " + to_string(fin.line) + " column " + to_string(fin.col) + ", expected " + to_string(w.fin.off) + " " + to_string(w.fin.line) + " " + to_string(w.fin.col));
        if (boundReads) {
            long long taken = -1; if (kind == K_INT || kind == K_ALIKE) taken = (long long)feed.pos; else if (kind == K_WISTREAM) taken = (long long)wb->taken(); else if (kind == K_ISTREAM) taken = (long long)cb->taken();
            if (taken > w.need) fail("over-read", "after lexeme " + to_string(at) + " " + to_string(taken) + " symbols were consumed from the source; " + to_string(w.need) + " decide it");
        }
        ++at; return true;
    }
    void close() { if (ls) { Lib lb; delete ls; ls = 0; } }
};
struct World {
    ref::Nfa nfa; unique_ptr<dfa::lexer> lx; map<int, unique_ptr<Session>> ss; int nre; bool bad; int maxTok; int compile;
    World() : nre(0), bad(false), maxTok(0), compile(0) {}
    void prepare(Session& s) {
        s.sticky = false; s.eff = s.text; nfa.settle(s.eff); size_t cut = s.text.size();
        if (s.kind == K_ISTREAM) { for (size_t i = 0; i < s.eff.size(); ++i) s.eff[i] &= 0xff; }
        if (s.kind == K_UTF8) { s.eff = ref::unutf16(s.eff); for (size_t i = 0; i < s.eff.size(); ++i) if (s.eff[i] >= 0xd800 && s.eff[i] < 0xe000) s.eff[i] = 'x'; string b = ref::utf8(s.eff); s.eff = ref::utf16(s.eff); cut = s.eff.size(); for (size_t i = 0; i < b.size(); ++i) s.feed.data.push_back((unsigned char)b[i]); s.feed.faults.clear(); }
        else s.feed.data = s.eff;
        if (s.kind == K_STRINGREADER) s.feed.faults.clear();
        for (map<size_t, int>::iterator f = s.feed.faults.begin(); f != s.feed.faults.end(); ++f) if (f->second == Feed::END || !s.retryable()) { if (f->first < cut) cut = f->first; }
        s.eff.resize(min(cut, s.eff.size()));
        s.want = ref::lex(nfa, s.eff); for (size_t i = 0; i < s.want.size(); ++i) maxTok = max(maxTok, s.want[i].len);
    }
};
void execLex(const Plan& plan, bool shared, bool mem = false) {
    HeapCfg hc; for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "heap") { hc.seed = plan[i].n(0); hc.fill = (int)plan[i].n(1) & 255; hc.reuse = (int)plan[i].n(2) % 3; }
    heap_begin(hc); sample(encode_plan(plan).substr(0, 380));
    World w; int usable = 0;
    // compile 0: by the first session, 1 flat, 2 compact tables, 3.. the tool's pipeline: 3 compacted and merged, 4 compacted, 5 merged, 6 compacted by highest action
    for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "compile") w.compile = (int)(plan[i].n(0) % 7);
    dfa::ndfa_regex* nr = 0; { Lib lb; if (w.compile >= 3) nr = new dfa::ndfa_regex(); else w.lx.reset(new dfa::lexer()); } struct Hold { dfa::ndfa_regex*& p; ~Hold() { delete p; } } hold = { nr };
    for (size_t i = 0; i < plan.size(); ++i) { const Line& l = plan[i];
        if (l.op == "re") { ref::Syms re = ref::unutf8(l.s(1)); ref::Nfa probeN; if (!probeN.addRegex(re, 0)) continue; w.nfa.addRegex(re, (int)l.n(0)); dfa::symbol_string rs(re.begin(), re.end()); Lib lb; if (nr) nr->add_regex(0, rs, dfa::accept_action((int)l.n(0), false)); else w.lx->add_symbol(rs, (int)l.n(0)); ++usable; }
        if (l.op == "src") { unique_ptr<Session>& s = w.ss[(int)l.n(0)]; s.reset(new Session()); s->id = (int)l.n(0); s->kind = (int)(l.n(1) % K_N); s->mask = (int)l.n(2); s->text = ref::utf16(ref::unutf8(l.s(3))); s->feed.chunks = csv(l.s(4)); s->feed.yieldEvery = shared ? (int)l.n(5) : 0; }
        if (l.op == "fault") { map<int, unique_ptr<Session>>::iterator s = w.ss.find((int)l.n(0)); if (s != w.ss.end()) s->second->feed.faults[(size_t)l.n(1)] = (int)l.n(2) == 2 ? Feed::END : Feed::THROW; }
    }
    if (!usable || w.ss.empty()) return;
    if (w.compile == 1) { Lib lb; w.lx->compile(false); } else if (w.compile == 2) { Lib lb; w.lx->compile(true); }
    else if (nr) { Lib lb; unique_ptr<dfa::ndfa> d; { unique_ptr<dfa::ndfa> u(nr->to_ndfa_with_unique_symbols()); d.reset(u->to_dfa()); } if (w.compile != 5) d.reset(d->to_compact_dfa(0, w.compile == 6)); if (w.compile != 4) d.reset(d->to_ndfa_with_merged_symbols()); w.lx.reset(new dfa::lexer(*d)); probe("tool-pipeline-lexer"); }
    const dfa::lexer& lx = *w.lx; u64 stc = 0;
    bool warm = false; if (w.compile == 0) { /* compiled by the first create_stream */ }
    int doneSessions = 0;
    // nested sessions run inside a read of another session
    map<int, vector<pair<size_t, int>>> nest; set<int> nestedIds; for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "nest") { int inner = (int)plan[i].n(2), outer = (int)plan[i].n(0); if (inner > outer && w.ss.count(inner) && w.ss.count(outer) && nestedIds.insert(inner).second) nest[outer].push_back(make_pair((size_t)plan[i].n(1), inner)); }
    for (map<int, unique_ptr<Session>>::iterator i = w.ss.begin(); i != w.ss.end(); ++i) w.prepare(*i->second);
    for (map<int, unique_ptr<Session>>::iterator i = w.ss.begin(); i != w.ss.end(); ++i) { Session* s = i->second.get(); if (nest.count(s->id)) { vector<pair<size_t, int>> v = nest[s->id]; s->feed.onRead = [v, &w, &lx, s](size_t pos) { for (size_t k = 0; k < v.size(); ++k) { Session& in = *w.ss[v[k].second]; if (v[k].first == pos && !in.ls && !in.ended) { probe("nested-session"); sched(mix(77, (u64)in.id)); int sy = in.feed.yieldEvery; in.feed.yieldEvery = 0; in.open(lx); while (in.step(true)) {} in.close(); in.feed.yieldEvery = sy; } } }; } }
    u64 live0 = 0;
    if (mem) { Feed f; SrcInt* src = new SrcInt(f); for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "memcompile") { heap_fail_at(plan[i].n(0)); dfa::lexeme_stream* t = 0; bool failed = false; try { Lib lb; t = lx.create_stream(src); } catch (const bad_alloc&) { failed = true; } heap_fail_at(-1); if (failed) { probe("compiling-failed"); continue; } if (!t) fail("no-stream", "create_stream returned no stream for a usable lexer"); Lib lb; delete t; src = 0; break; } delete src; }
    { Lib lb; dfa::lexeme_stream* t = 0; Feed f; t = lx.create_stream(new SrcInt(f)); delete t; } (void)warm;
    live0 = heap_live_lib();
    // schedule
    vector<int> order; for (size_t i = 0; i < plan.size(); ++i) if (plan[i].op == "run") order.push_back((int)plan[i].n(0));
    map<int, int> openedBy; set<int> dropped;
    auto start = [&](Session* s) { s->fib = fiber_new([s, &lx]() { s->open(lx); while (s->step(true)) fiber_yield(); for (int k = 0; k < 2; ++k) if (s->step(true)) fail("extra-token", "a lexeme after the end of the input"); }); };
    size_t pi = 0, guard = 0; int switches = 0, last = -1; long long memAt = -1;
    for (size_t i = 0; i < plan.size(); ++i) {
        const Line& l = plan[i]; if (l.op == "mem" && mem) memAt = l.n(0); if (l.op != "run" && l.op != "drop") continue;
        map<int, unique_ptr<Session>>::iterator f = w.ss.find((int)l.n(0)); if (f == w.ss.end() || nestedIds.count(f->first) || dropped.count(f->first)) continue;
        Session* s = f->second.get();
        if (l.op == "drop") { if (s->fib && !fiber_done(s->fib)) { if (!shared) continue; probe("session-dropped-midway"); dropped.insert(s->id); fault("session-abandoned"); s->fib = 0; /* the reader stays suspended; its stream is destroyed */ if (s->ls && s->feed.yieldEvery == 0) s->close(); } continue; }
        int n = (int)max(1LL, l.n(1, 1));
        for (int k = 0; k < n; ++k) { if (!s->fib) start(s); if (fiber_done(s->fib)) break; sched((u64)s->id + 1); if (last != s->id) { ++switches; last = s->id; } if (memAt >= 0 && s->ls) { heap_fail_at(memAt); memAt = -1; } fiber_run(s->fib); if (mem) heap_fail_at(-1); if (fiber_exc(s->fib)) rethrow_exception(fiber_exc(s->fib)); stc = mix(stc, (u64)s->id * 131 + s->at); state(mix((u64)s->id, s->at * 64 + (s->feed.pos & 63))); }
    }
    (void)pi;
    for (map<int, unique_ptr<Session>>::iterator f = w.ss.begin(); f != w.ss.end(); ++f) { Session* s = f->second.get(); if (nestedIds.count(s->id) || dropped.count(s->id)) continue; if (!s->fib) start(s); while (!fiber_done(s->fib)) { if (++guard > 4000000) fail("livelock", "no end of input within the step budget"); fiber_run(s->fib); } if (fiber_exc(s->fib)) rethrow_exception(fiber_exc(s->fib)); if (!s->ended) fail("tokens-lost", "session did not reach its end"); ++doneSessions; }
    int toks = 0; bool dropOpen = false;
    for (map<int, unique_ptr<Session>>::iterator f = w.ss.begin(); f != w.ss.end(); ++f) { Session* s = f->second.get(); toks += (int)s->at; if (dropped.count(s->id) && s->ls) dropOpen = true; else s->close(); }
    if (switches > 2) probe("interleaved-sessions"); if (w.maxTok > 200) probe("long-lexeme"); if (toks >= 4) nontrivial();
    if (!dropOpen && dropped.empty()) { 
        if (g_srcLive != 0) fail("leak", "the symbol source was not released with its stream");
        for (map<int, unique_ptr<Session>>::iterator f = w.ss.begin(); f != w.ss.end(); ++f) { Lib lb; f->second->wis.reset(); f->second->wb.reset(); f->second->u8.reset(); f->second->cis.reset(); f->second->cb.reset(); f->second->al.reset(); f->second->sr.reset(); f->second->ws = wstring(); f->second->ws.shrink_to_fit(); }
        if (!mem && heap_live_lib() > live0) fail("leak", to_string(heap_live_lib() - live0) + " library blocks remain after all sessions ended"); }
}
void exec4(const Plan& p) { execLex(p, false); }
void exec6(const Plan& p) { execLex(p, true); }

void genCommon(Rng& r, Plan& p, int nsess, bool faults, bool shared) {
    p.push_back(L("heap").add((long long)(r.next() >> 8)).add(r.below(256)).add(r.below(3)));
    LexSpec sp = gen_lexspec(r);
    vector<int> ids; for (size_t i = 0; i < sp.re.size(); ++i) ids.push_back((int)i); for (size_t i = ids.size(); i > 1; --i) swap(ids[i - 1], ids[r.below((int)i)]);
    for (size_t i = 0; i < sp.re.size(); ++i) p.push_back(L("re").add(ids[i]).add(sp.re[i]));
    p.push_back(L("compile").add(r.below(7)));
    for (int s = 0; s < nsess; ++s) {
        int kind = r.below(K_N); bool latin = kind == K_ISTREAM; string text = gen_text(r, sp, shared ? r.range(3, 40) : r.chance(1, 12) ? r.range(200, 900) : r.range(2, 60), latin, r.chance(1, 25));
        vector<int> ch; int style = r.below(4); for (int k = 0; k < 6; ++k) ch.push_back(style == 0 ? 1 : style == 1 ? r.range(1, 4) : style == 2 ? r.range(1, 64) : 100000);
        int mask = faults && r.chance(1, 2) ? 1 : 0;
        p.push_back(L("src").add(s).add(kind).add(mask).add(text).add(tocsv(ch)).add(shared ? r.range(1, 4) : 0));
        if (faults) { int len = (int)ref::unutf8(text).size(); int n = r.range(1, 3); for (int k = 0; k < n; ++k) p.push_back(L("fault").add(s).add(r.chance(1, 6) ? len : r.below(len + 1)).add(r.chance(2, 3) ? 1 : 2)); }
    }
    if (shared && nsess > 1) {
        if (r.chance(1, 2)) p.push_back(L("nest").add(0).add(r.below(8)).add(r.range(1, nsess - 1)));
        int n = r.range(10, 120); for (int i = 0; i < n; ++i) p.push_back(L("run").add(r.below(nsess)).add(r.chance(1, 4) ? r.range(2, 9) : 1));
        if (r.chance(1, 3)) p.insert(p.begin() + (int)p.size() - r.below(n), L("drop").add(r.below(nsess)));
    }
}
void gen4(Rng& r, Plan& p) { genCommon(r, p, r.range(1, 3), false, false); }
void gen5(Rng& r, Plan& p) { genCommon(r, p, r.range(1, 2), true, false); }
void gen17(Rng& r, Plan& p) { Plan q; genCommon(r, q, r.range(1, 3), false, false); int ns = 0; for (auto& l : q) if (l.op == "src") { l.a[1] = r.chance(1, 2) ? to_string((int)K_INT) : to_string((int)K_ALIKE); ++ns; } p = q; for (int i = r.range(0, 3); i > 0; --i) p.push_back(L("memcompile").add(r.below(r.chance(1, 2) ? 2000 : 60))); for (int i = r.range(6, 40); i > 0; --i) { if (r.chance(2, 3)) p.push_back(L("mem").add(r.below(r.chance(1, 3) ? 9 : 2))); p.push_back(L("run").add(r.below(ns)).add(r.chance(1, 4) ? r.range(2, 9) : 1)); } }
void exec17(const Plan& p) { execLex(p, false, true); }
void gen6(Rng& r, Plan& p) { genCommon(r, p, r.range(2, 5), r.chance(1, 4), true); }
const char* REAL = "dfa::lexer, ndfa_regex, ndfa, symbol maps, state machines, dfa_stream, position tracker, util::stringreader, util::utf8reader, libstdc++ istreams";
Reg r4({"C04", "seeded lexer definitions and texts delivered through six kinds of source in seeded chunk sizes; every lexeme compared with a reference longest-match lexer; non-trivial: at least 4 lexemes; distinct by event-log hash", gen4, exec4, 12000, 800000, REAL, "input device (chunked delivery), heap layout"});
Reg r5({"C05", "as C04 with 1-3 faults per input: a read that throws and later succeeds, a stream that goes bad, an early end of input, at chosen symbol positions; non-trivial: at least 4 lexemes", gen5, exec4, 12000, 800000, REAL, "input device (chunked delivery, transient errors, early end), heap layout"});
Reg r6({"C06", "2-5 lexing sessions over one shared lexer as fibers that yield inside reads, scheduled by the plan, with nested sessions inside read callbacks, sessions abandoned midway and read faults; non-trivial: at least 4 lexemes", gen6, exec6, 10000, 600000, REAL, "scheduler (fibers), input device, heap layout"});
}
namespace sim { void exec_lex_mem(const Plan& p) { exec17(p); } void gen_lex_mem(Rng& r, Plan& p) { gen17(r, p); } }

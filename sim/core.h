// Deterministic simulator core: seeded PRNG, plans (= replay files), event log, fault and probe counters,
// fork-per-run execution, minimisation.  Nothing here reads a clock or draws from the PRNG in a logging path.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <memory>

namespace sim {
typedef uint64_t u64; typedef uint32_t u32;

struct Rng {                                   // splitmix64: one integer decides everything
    u64 s; explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return n <= 1 ? 0 : (int)(next() % (u64)n); }
    int range(int a, int b) { return a + below(b - a + 1); }           // inclusive
    bool chance(int num, int den) { return below(den) < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below((int)v.size())]; }
};
u64 mix(u64 a, u64 b);
u64 hash_str(const std::string& s);

// ---- plans -----------------------------------------------------------------------------------------------
struct Line {
    std::string op; std::vector<std::string> a;
    Line() {} Line(const std::string& o) : op(o) {}
    Line& add(const std::string& s) { a.push_back(s); return *this; }
    Line& add(long long n) { a.push_back(std::to_string(n)); return *this; }
    long long n(size_t i, long long dflt = 0) const { if (i >= a.size()) return dflt; return atoll(a[i].c_str()); }
    std::string s(size_t i) const { return i < a.size() ? a[i] : std::string(); }
};
typedef std::vector<Line> Plan;
inline Line L(const std::string& op) { return Line(op); }
std::string encode_plan(const Plan&); Plan decode_plan(const std::string&);

// ---- run context (lives in the child that executes one run) ------------------------------------------------
void log_ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));       // appended to the event log hash
void log_str(const std::string& s);
[[noreturn]] void fail(const std::string& cls, const std::string& msg);         // report a violation, end the run
void fault(const char* kind, u64 n = 1);                                        // a fault really fired
void probe(const char* name, u64 n = 1);                                        // a rare condition was reached
void nontrivial();                                                              // the run exercised the property
void steps(u64 n);                                                              // simulated steps
void sched(u64 decision);                                                       // fold a scheduling decision in the interleaving signature
void state(u64 h);                                                              // a distinct system state (by hash)
void sample(const std::string& s);
extern bool g_verbose;

struct Property {
    const char* id; const char* rule;
    void (*gen)(Rng&, Plan&); void (*exec)(const Plan&);
    int quick_runs, thorough_runs;
    const char* real; const char* stub;         // which components ran real code / a stub
};
void register_property(const Property&);
struct Reg { Reg(const Property& p) { register_property(p); } };

// ---- simulated heap -----------------------------------------------------------------------------------------
// Every operator new/delete of the process goes through an arena at a fixed address.  In a run the heap has a seeded
// layout (slot order, reuse delay, padding), fills fresh memory with seeded garbage, poisons freed memory and red zones
// (AddressSanitizer), and can make chosen library allocations fail.
struct HeapCfg { u64 seed; int fill; int reuse; int pad; HeapCfg() : seed(1), fill(0xA5), reuse(0), pad(0) {} };
void heap_begin(const HeapCfg&);
extern int g_in_lib;                            // >0: the code under test is running
struct Lib { Lib() { ++g_in_lib; } ~Lib() { --g_in_lib; } };
struct NotLib { int save; NotLib() : save(g_in_lib) { g_in_lib = 0; } ~NotLib() { g_in_lib = save; } };
u64 heap_lib_allocs();                          // library allocations so far
void heap_fail_at(long long n);                 // the n-th library allocation from now on throws std::bad_alloc (-1: never)
long long heap_fail_pending();
u64 heap_live_lib();                            // live blocks allocated by library code
std::string heap_check();                       // writes into freed blocks or red zones found?

std::string q(const std::string& s);            // printable form
}
#endif

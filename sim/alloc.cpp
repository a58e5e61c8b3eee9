#include "core.h"
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p,n) __asan_poison_memory_region(p,n)
#define UNPOISON(p,n) __asan_unpoison_memory_region(p,n)
#else
#define POISON(p,n)
#define UNPOISON(p,n)
#endif
namespace sim {
int g_in_lib = 0;
namespace {
char* const BASE = (char*)0x200000000000ull;
const size_t ARENA = (size_t)24 << 30;
struct Hdr { size_t size; u32 cls; u32 flags; };        // flags: 1 live, 2 library block ; header poisoned while live
const u32 LIVE = 0x11fe0001u, DEAD = 0xdeadu;
const int NCLS = 64;
size_t clsSize[NCLS]; int nCls = 0;
char* top = 0; char* endp = 0;
// Free slots per class: simple ring arrays kept in separately mapped memory.
struct Pool { char** slot; size_t n, cap; };
Pool pools[NCLS];
u64 rngState = 88172645463325252ull;
HeapCfg cfg; bool active = false;
u64 libAllocs = 0, liveLib = 0; long long failAt = -1;
u64 r() { u64 z = (rngState += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void init() {
    void* p = mmap(BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)BASE) { static const char m[] = "sim: cannot map arena\n"; if (write(2, m, sizeof m - 1)) {} _exit(9); }
    top = BASE; endp = BASE + ARENA;
    size_t s = 16; while (nCls < NCLS) { clsSize[nCls++] = s; s = s < 128 ? s + 16 : (s + s / 4 + 15) & ~(size_t)15; }
    for (int i = 0; i < NCLS; ++i) { pools[i].cap = (size_t)1 << 20; pools[i].slot = (char**)mmap(0, pools[i].cap * sizeof(char*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pools[i].n = 0; }
}
const size_t RZ = 32;                                   // header (16, 16-aligned) + left red zone
void pushSlot(int c, char* s) { Pool& p = pools[c]; if (p.n < p.cap) p.slot[p.n++] = s; }
void refill(int c) {
    size_t stride = clsSize[c] + RZ + 16;
    int cnt = clsSize[c] <= 512 ? 32 : clsSize[c] <= 8192 ? 8 : 1;
    if (top + (size_t)cnt * stride + 65536 > endp) { static const char m[] = "sim: arena exhausted\n"; if (write(2, m, sizeof m - 1)) {} _exit(9); }
    if (active && cfg.pad) top += (r() % (u64)(cfg.pad)) * 16;
    char* first = top; top += (size_t)cnt * stride;
    POISON(first, (size_t)cnt * stride);
    Pool& p = pools[c]; size_t at = p.n;
    for (int i = 0; i < cnt; ++i) pushSlot(c, first + (size_t)i * stride);
    if (active) for (size_t i = p.n - 1; i > at; --i) { size_t j = at + r() % (i - at + 1); char* t = p.slot[i]; p.slot[i] = p.slot[j]; p.slot[j] = t; }
    else for (size_t i = 0; i < (p.n - at) / 2; ++i) { char* t = p.slot[at + i]; p.slot[at + i] = p.slot[p.n - 1 - i]; p.slot[p.n - 1 - i] = t; }
}
void* arenaAlloc(size_t n) {
    if (!top) init();
    int c = 0; while (c < nCls && clsSize[c] < n) ++c;
    if (c == nCls) throw std::bad_alloc();              // absurd request (e.g. a negative size)
    Pool& p = pools[c];
    // reuse policy: 0 LIFO (immediate reuse), 1 prefer fresh memory, 2 random free slot
    if (p.n == 0 || (active && cfg.reuse == 1 && p.n < 16)) refill(c);
    size_t pick = p.n - 1;
    if (active && cfg.reuse == 2) { size_t w = p.n < 64 ? p.n : 64; pick = p.n - 1 - r() % w; }
    else if (active && cfg.reuse == 1) pick = 0;
    char* s = p.slot[pick]; 
    if (pick == 0 && p.n > 1 && active && cfg.reuse == 1) { size_t w = p.n < 16 ? p.n : 16; pick = r() % w; s = p.slot[pick]; }
    p.slot[pick] = p.slot[p.n - 1]; --p.n;
    char* u = s + RZ; Hdr* h = (Hdr*)s;
    UNPOISON(s, 16); UNPOISON(u, n);
    h->size = n; h->cls = (u32)c; h->flags = LIVE;
    if (g_in_lib > 0) { h->flags |= 2; ++liveLib; }
    if (active) memset(u, cfg.fill, n);
    POISON(s, 16);
    return u;
}
void arenaFree(void* vp) {
    char* u = (char*)vp; char* s = u - RZ; Hdr* h = (Hdr*)s;
    if (u < BASE || u >= endp) { fprintf(stderr, "sim: delete of foreign pointer\n"); abort(); }
    UNPOISON(s, 16);
    if ((h->flags & ~2u) != LIVE) { fprintf(stderr, "sim: double or invalid delete\n"); abort(); }
    if (h->flags & 2) --liveLib;
    int c = (int)h->cls; 
    memset(u, 0xDB, h->size);
    h->flags = DEAD;
    POISON(s, 16); POISON(u, clsSize[c]);
    pushSlot(c, s);
}
}
void heap_begin(const HeapCfg& c) { cfg = c; rngState = c.seed; active = true; libAllocs = 0; failAt = -1; }
u64 heap_lib_allocs() { return libAllocs; }
void heap_fail_at(long long n) { failAt = n < 0 ? -1 : (long long)libAllocs + n; }
long long heap_fail_pending() { return failAt < 0 ? -1 : failAt - (long long)libAllocs; }
u64 heap_live_lib() { return liveLib; }
std::string heap_check() { return std::string(); }
static void* doNew(size_t n) {
    if (g_in_lib > 0) {
        if (failAt >= 0 && (long long)libAllocs >= failAt) { failAt = -1; ++libAllocs; { NotLib nl; fault("alloc-failure"); } throw std::bad_alloc(); }
        ++libAllocs;
    }
    return arenaAlloc(n ? n : 1);
}
}
void* operator new(size_t n) { return sim::doNew(n); }
void* operator new[](size_t n) { return sim::doNew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim::doNew(n); } catch (...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim::doNew(n); } catch (...) { return 0; } }
void operator delete(void* p) noexcept { if (p) sim::arenaFree(p); }
void operator delete[](void* p) noexcept { if (p) sim::arenaFree(p); }
void operator delete(void* p, size_t) noexcept { if (p) sim::arenaFree(p); }
void operator delete[](void* p, size_t) noexcept { if (p) sim::arenaFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) sim::arenaFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) sim::arenaFree(p); }

// A memory error must not look like the tool's own exit(1); leaks are not a property here (and the tool leaks by design when it exits).
extern "C" const char* __asan_default_options() { return "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"; }

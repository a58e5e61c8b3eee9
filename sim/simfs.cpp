#include "simfs.h"
#include "fiber.h"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <poll.h>
#include <unistd.h>
using namespace std; using namespace sim;
namespace simfs {
const int NF = 48; const size_t CAP = 1 << 20, OUTCAP = 1 << 18; const int NR = 8;
struct SFile { char path[160]; bool exists; int opens; size_t len; char data[CAP]; };
struct ROut { int code; bool threw, done; long long n[5]; u64 fired, lostReads; size_t ol, el; char o[OUTCAP], e[OUTCAP];  char what[120]; };
struct Disk { SFile f[NF]; ROut r[NR]; bool crashed, deep; };
static Disk* D = 0;
struct Task { const Run* run; long long n[5]; u64 fired, lostReads; long long written; ROut* out; };
static Task* curTask = 0; static bool active = false;
struct Hnd { int file; size_t pos; bool used, append; Task* t; };
static Hnd hnd[256];
static string norm(const string& p) { string s = p.empty() || p[0] != '/' ? "/sim/" + p : p; vector<string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('/', i); if (e == string::npos) e = s.size(); string c = s.substr(i, e - i); if (c == "..") { if (!v.empty()) v.pop_back(); } else if (!c.empty() && c != ".") v.push_back(c); i = e + 1; } string o; for (size_t k = 0; k < v.size(); ++k) o += "/" + v[k]; return o.empty() ? "/" : o; }
static int find(const string& n, bool any = false) { for (int i = 0; i < NF; ++i) if (D->f[i].path[0] && n == D->f[i].path && (any || D->f[i].exists)) return i; return -1; }
static int make(const string& n) { int i = find(n, true); if (i < 0) for (i = 0; i < NF; ++i) if (!D->f[i].path[0]) break; if (i == NF || n.size() >= 160) return -1; strcpy(D->f[i].path, n.c_str()); D->f[i].exists = true; D->f[i].len = 0; return i; }
static bool dirExists(const string& n) { size_t s = n.rfind('/'); string d = n.substr(0, s); if (d == "/sim") return true; d += "/"; for (int i = 0; i < NF; ++i) if (D->f[i].exists && strncmp(D->f[i].path, d.c_str(), d.size()) == 0) return true; return false; }
void disk_init() { if (!D) D = (Disk*)mmap(0, sizeof(Disk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (int i = 0; i < NF; ++i) { D->f[i].path[0] = 0; D->f[i].exists = false; D->f[i].opens = 0; D->f[i].len = 0; } }
void put(const string& p, const string& d) { int i = make(norm(p)); if (i < 0 || d.size() > CAP) { static const char m[] = "sim disk too small\n"; if (::write(2, m, sizeof m - 1)) {} _exit(9); } memcpy(D->f[i].data, d.data(), d.size()); D->f[i].len = d.size(); }
bool get(const string& p, string& d) { int i = find(norm(p)); if (i < 0) return false; d.assign(D->f[i].data, D->f[i].len); return true; }
void del(const string& p) { int i = find(norm(p)); if (i >= 0) { D->f[i].exists = false; D->f[i].len = 0; } }
vector<string> list() { vector<string> v; for (int i = 0; i < NF; ++i) if (D->f[i].exists) v.push_back(D->f[i].path); return v; }
int opens_of(const string& p) { int i = find(norm(p), true); return i < 0 ? 0 : D->f[i].opens; }
void reset_opens() { for (int i = 0; i < NF; ++i) D->f[i].opens = 0; }
struct Quiet { int s; Quiet() : s(g_in_lib) { g_in_lib = 0; } ~Quiet() { g_in_lib = s; } };
static const Fault* hit(int kind) {                          // counts the call and says which fault it meets
    static const char* K[] = { "open", "read", "write", "close", "openw" }; Task* t = curTask; long long n = t->n[kind]++; steps(1); sched(mix(hash_str(K[kind]), 1));
    for (size_t i = 0; i < t->run->faults.size(); ++i) { const Fault& f = t->run->faults[i]; if (f.nth == n && f.kind == K[kind]) { ++t->fired; return &f; } }
    return 0;
}
static void crash(const char* k) { fault(k); D->crashed = true; _exit(42); }
static void ev(const char* k, int file, long long r) { log_ev("%s %s %lld", k, file >= 0 ? D->f[file].path : "?", r); }
// yield to the scheduler, keeping this task's identity
static void pause_here() { if (!in_fiber()) return; Task* t = curTask; fiber_yield(); curTask = t; }
static FILE* do_open(const char* path, const char* mode, FILE* (*real)(const char*, const char*)) {
    Quiet q; pause_here(); string n = norm(path); bool wr = mode[0] == 'w', ap = mode[0] == 'a'; int i = find(n); if (i >= 0) ++D->f[i].opens; const Fault* f = hit(wr || ap ? 4 : 0);
    if (f && f->act == "crash") crash("crash-at-open");
    if (f && f->act == "fail") { fault(wr || ap ? "open-output-fails" : "open-input-fails"); ev("open!", i, f->arg); errno = (int)f->arg; return 0; }
    if (i < 0) { if (!(wr || ap) || !dirExists(n)) { ev("open-none", -1, 0); errno = ENOENT; return 0; } i = make(n); if (i < 0) { errno = ENOSPC; return 0; } ++D->f[i].opens; }
    FILE* h = real("/dev/null", mode); if (!h) return 0; int fd = fileno(h); if (fd < 0 || fd >= 256) _exit(9);
    hnd[fd].file = i; hnd[fd].pos = ap ? D->f[i].len : 0; hnd[fd].used = true; hnd[fd].append = ap; hnd[fd].t = curTask; if (wr) D->f[i].len = 0; ev(wr ? "open-w" : ap ? "open-a" : "open-r", i, fd); return h;
}
static ssize_t do_read(int fd, void* b, size_t n) {
    Quiet q; pause_here(); Hnd& h = hnd[fd]; SFile& s = D->f[h.file]; const Fault* f = hit(1);
    if (f && f->act == "crash") crash("crash-at-read");
    if (f && f->act == "fail") { fault("read-fails"); ++curTask->lostReads; ev("read!", h.file, f->arg); errno = (int)f->arg; return -1; }
    if (f && f->act == "eintr") { fault("read-interrupted"); errno = EINTR; return -1; }
    size_t left = h.pos < s.len ? s.len - h.pos : 0, k = min(n, left);
    if (f && f->act == "short" && k > 1) { k = min(k, (size_t)max(1LL, f->arg)); fault("short-read"); } else if (curTask->run->chunk > 0 && k > (size_t)curTask->run->chunk) { k = (size_t)curTask->run->chunk; fault("short-read"); }
    memcpy(b, s.data + h.pos, k); h.pos += k; ev("read", h.file, (long long)k); return (ssize_t)k;
}
static ssize_t do_write(int fd, const char* b, size_t n) {
    Quiet q; pause_here(); Hnd& h = hnd[fd]; SFile& s = D->f[h.file]; const Fault* f = hit(2); Task* t = curTask;
    if (f && f->act == "fail") { fault("write-fails"); ev("write!", h.file, f->arg); errno = (int)f->arg; return -1; }
    if (f && f->act == "eintr") { fault("write-interrupted"); errno = EINTR; return -1; }
    size_t k = n; bool die = false; if (f && f->act == "short" && k > 1) { k = min(k, (size_t)max(1LL, f->arg)); fault("short-write"); } if (f && f->act == "crash") { k = min(k, (size_t)max(0LL, f->arg)); die = true; }
    if (t->run->diskFull >= 0) { long long room = t->run->diskFull - t->written; if (room <= 0 && n) { fault("disk-full"); ++t->fired; ev("full", h.file, 0); errno = ENOSPC; return -1; } if ((long long)k > room) { k = (size_t)room; fault("disk-full"); ++t->fired; } }
    if (h.pos + k > CAP) { errno = EFBIG; return -1; } if (h.pos > s.len) memset(s.data + s.len, 0, h.pos - s.len);
    memcpy(s.data + h.pos, b, k); h.pos += k; if (h.pos > s.len) s.len = h.pos; t->written += (long long)k; ev("write", h.file, (long long)k); if (die) crash("crash-at-write"); return (ssize_t)k;
}
struct ErrBuf : wstreambuf { ROut* o; void one(wchar_t c) { char x[16]; size_t n = 1; if ((unsigned)c < 128) x[0] = (char)c; else n = (size_t)snprintf(x, sizeof x, "{%x}", (unsigned)c); if (o && o->el + n <= OUTCAP) { memcpy(o->e + o->el, x, n); o->el += n; } } wint_t overflow(wint_t c) { if (c != WEOF) one((wchar_t)c); return c == WEOF ? 0 : c; } };   // kept on the shared page, so that it survives a killed run
// The standard input is a descriptor the C library reads from: packets of a pipe (one read returns one packet), or, for reads that fail after some bytes,
// the process's own memory up to the end of a mapping (reading on from there fails with EIO).
static void set_stdin(const Run& r) {
    int fd = -1; string in = r.in;
    if (r.inFail >= 0) {
        size_t n = min((size_t)r.inFail, in.size()); char* base = (char*)0x60000000; const size_t len = 1 << 20; if (n >= len) _exit(9);
        if (n) { if (mmap(base, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void*)base) _exit(9); memcpy(base + len - n, in.data(), n); }
        fd = (int)syscall(SYS_openat, AT_FDCWD, n ? "/proc/self/mem" : "/", O_RDONLY, 0); if (fd < 0) _exit(9); if (n && syscall(SYS_lseek, fd, (long)(base + len - n), SEEK_SET) < 0) _exit(9);
    } else if (in.size() <= 40000 && r.inChunks.size() && r.inChunks.size() <= 8) {
        int p[2]; if (syscall(SYS_pipe2, p, O_DIRECT)) _exit(9); size_t at = 0, k = 0, wrote = 0; while (at < in.size()) { size_t n = min(in.size() - at, k < r.inChunks.size() ? (size_t)max(1, min(4096, r.inChunks[k])) : (size_t)4096); ++k; if (++wrote > 16 || syscall(SYS_write, p[1], in.data() + at, n) != (long)n) _exit(9); at += n; }
        syscall(SYS_close, p[1]); fd = p[0];
    } else { fd = memfd_create("in", 0); size_t at = 0; while (at < in.size()) { long n = syscall(SYS_write, fd, in.data() + at, in.size() - at); if (n <= 0) _exit(9); at += (size_t)n; } syscall(SYS_lseek, fd, 0L, SEEK_SET); }
    if (fd != 0) { syscall(SYS_dup2, fd, 0); syscall(SYS_close, fd); }
}
// somebody else's account on another machine
static void set_env(u64 seed) {
    static const char* const v[][4] = { { "LANG", "C.UTF-8", "de_DE.UTF-8", "" }, { "LC_ALL", "C.UTF-8", "tr_TR", "POSIX" }, { "TZ", "Asia/Kathmandu", "EST5EDT", "UTC-14" }, { "HOME", "/root", "/nonexistent", "/home/someone" }, { "USER", "root", "someone", "" }, { "LOGNAME", "root", "someone", "" }, { "HOSTNAME", "build1", "laptop", "" }, { "PWD", "/", "/sim", "/home/someone" }, { "TMPDIR", "/tmp", "/nonexistent", "" }, { "COLUMNS", "40", "200", "0" }, { "TERM", "dumb", "xterm-256color", "" }, { "CI", "true", "1", "" }, { "SOURCE_DATE_EPOCH", "0", "1700000000", "1" }, { "DEBUG", "1", "0", "" }, { "VERBOSE", "1", "0", "" }, { "SHELL", "/bin/sh", "/bin/bash", "" } };
    Rng r(seed); for (size_t i = 0; i < sizeof v / sizeof v[0]; ++i) { int k = r.below(4); if (k) setenv(v[i][0], v[i][k], 1); else unsetenv(v[i][0]); } tzset();
}
static void enter(Task& t) { curTask = &t; }
static void runOne(Task& t) {
    vector<const char*> av; av.push_back("tameparse"); for (size_t i = 0; i < t.run->argv.size(); ++i) av.push_back(t.run->argv[i].c_str()); int n = (int)av.size(); av.push_back(0);
    try { Lib lb; t.out->code = tool_main(n, &av[0]); } catch (const std::exception& e) { t.out->threw = true; t.out->code = 255; snprintf(t.out->what, sizeof t.out->what, "%s", e.what()); } catch (...) { t.out->threw = true; t.out->code = 255; }
    for (int i = 0; i < 5; ++i) t.out->n[i] = t.n[i]; t.out->fired = t.fired; t.out->lostReads = t.lostReads; t.out->done = true;
}
static void narrow(const wstring& w, const string& s, char* b, size_t& l) { string o = s; for (size_t i = 0; i < w.size(); ++i) if (w[i] < 128) o += (char)w[i]; else { char x[16]; snprintf(x, sizeof x, "{%x}", (unsigned)w[i]); o += x; } l = min(o.size(), OUTCAP); memcpy(b, o.data(), l); }
static Result fetch(int i) { Result r; ROut& o = D->r[i]; r.code = o.code; r.threw = o.threw; r.what = o.what; r.crashed = r.exited = r.hung = false; r.out.assign(o.o, o.ol); r.err.assign(o.e, o.el); r.opens = o.n[0]; r.creates = o.n[4]; r.reads = o.n[1]; r.writes = o.n[2]; r.closes = o.n[3]; r.faultsFired = o.fired; r.lostReads = o.lostReads; return r; }
vector<Result> run_tools(const vector<Run>& rs, u64 schedSeed, bool sequential) {
    if (rs.size() > (size_t)NR) _exit(9); D->crashed = D->deep = false; for (size_t i = 0; i < rs.size(); ++i) { ROut& o = D->r[i]; o.code = -1; o.threw = o.done = false; o.what[0] = 0; o.ol = o.el = 0; o.fired = o.lostReads = 0; for (int k = 0; k < 5; ++k) o.n[k] = 0; }
    fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) _exit(9);
    if (pid == 0) {
        struct rlimit rl; rl.rlim_cur = rs[0].cpu; rl.rlim_max = rs[0].cpu + 3; setrlimit(RLIMIT_CPU, &rl); memset(hnd, 0, sizeof hnd);
        if (rs[0].useHeap) heap_begin(rs[0].heap);
        wstringbuf* wo = new wstringbuf(); ErrBuf* we = new ErrBuf(); we->o = rs.size() == 1 || sequential ? &D->r[0] : 0; stringbuf* so = new stringbuf(); stringbuf* se = new stringbuf(); set_stdin(rs[0]); if (rs[0].env) set_env(rs[0].env);
        wcout.rdbuf(wo); wcerr.rdbuf(we); cout.rdbuf(so); cerr.rdbuf(se);
        vector<Task> ts(rs.size()); for (size_t i = 0; i < rs.size(); ++i) { Task& t = ts[i]; t.run = &rs[i]; for (int k = 0; k < 5; ++k) t.n[k] = 0; t.fired = t.lostReads = 0; t.written = 0; t.out = &D->r[i]; }
        active = true;
        if (sequential || rs.size() == 1) for (size_t i = 0; i < ts.size(); ++i) { enter(ts[i]); if (rs[i].allocFail >= 0) heap_fail_at(rs[i].allocFail); we->o = &D->r[i]; runOne(ts[i]); heap_fail_at(-1); g_in_lib = 0; narrow(wo->str(), so->str(), D->r[i].o, D->r[i].ol); for (size_t k = 0; k < se->str().size(); ++k) we->one((unsigned char)se->str()[k]); wo->str(L""); so->str(""); se->str(""); }
        else { vector<Fiber*> fs; for (size_t i = 0; i < ts.size(); ++i) { Task* t = &ts[i]; fs.push_back(fiber_new([t]() { curTask = t; runOne(*t); })); } Rng r(schedSeed); vector<int> live; for (size_t i = 0; i < fs.size(); ++i) live.push_back((int)i);
            while (!live.empty()) { int k = r.below((int)live.size()); int id = live[k]; sched((u64)id + 11); log_ev("run %d", id); curTask = &ts[id]; fiber_run(fs[id]); if (fiber_done(fs[id])) live.erase(live.begin() + k); } }
        active = false; fflush(stderr); _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    vector<Result> out; for (size_t i = 0; i < rs.size(); ++i) out.push_back(fetch((int)i));
    if (D->crashed) { for (size_t i = 0; i < out.size(); ++i) out[i].crashed = true; return out; }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { if (rs[0].hangOk) { for (size_t i = 0; i < out.size(); ++i) out[i].hung = true; return out; } fail("hang", "the tool did not finish within its CPU budget"); }
    if (D->deep && rs[0].hangOk) { for (size_t i = 0; i < out.size(); ++i) out[i].hung = true; return out; }          // endless recursion: the caller decides, as for an endless loop
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && rs.size() == 1 && !D->r[0].done) { out[0].code = 1; out[0].exited = true; return out; }                  // ::exit(1) after a bad command line; AddressSanitizer is told to use another code
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { if (WIFEXITED(st) && (WEXITSTATUS(st) == 9 || WEXITSTATUS(st) == 3)) _exit(WEXITSTATUS(st)); _exit(77); }  // reported from its stderr by the caller
    for (size_t i = 0; i < rs.size(); ++i) if (!D->r[i].done) fail("tool-vanished", "the tool ended without returning");
    return out;
}
Result run_tool(const Run& r) { vector<Run> v; v.push_back(r); return run_tools(v, 1, true)[0]; }
bool faulty(const Result& r) { return r.faultsFired > 0; }
}
using namespace simfs;
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = 0; if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
extern "C" const char* __asan_get_report_description(void);
extern "C" void __asan_on_error(void) { const char* d = __asan_get_report_description(); if (active && D && d && strstr(d, "stack-overflow")) D->deep = true; }
extern "C" {
static bool ours(int fd) { return active && fd >= 0 && fd < 256 && hnd[fd].used; }
FILE* fopen(const char* p, const char* m) { REAL(FILE*, fopen, const char*, const char*); return active ? do_open(p, m, real) : real(p, m); }
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fclose(FILE* f) { REAL(int, fclose, FILE*); if (!active || !f || !ours(fileno(f))) return real(f); int fd = fileno(f); { Quiet q; pause_here(); ev("close", hnd[fd].file, 0); const Fault* x = hit(3); if (x && x->act == "crash") crash("crash-at-close"); } hnd[fd].used = false; return real(f); }
ssize_t read(int fd, void* b, size_t n) { REAL(ssize_t, read, int, void*, size_t); return ours(fd) ? do_read(fd, b, n) : real(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { REAL(ssize_t, write, int, const void*, size_t); return ours(fd) ? do_write(fd, (const char*)b, n) : real(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { REAL(ssize_t, writev, int, const struct iovec*, int); if (!ours(fd)) return real(fd, v, c); string s; { Quiet q; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); } return do_write(fd, s.data(), s.size()); }
off_t lseek(int fd, off_t o, int w) { REAL(off_t, lseek, int, off_t, int); if (!ours(fd)) return real(fd, o, w); Hnd& h = hnd[fd]; off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)h.pos : (off_t)D->f[h.file].len; if (base + o < 0) { errno = EINVAL; return -1; } h.pos = (size_t)(base + o); return (off_t)h.pos; }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fstat(int fd, struct stat* s) { REAL(int, fstat, int, struct stat*); if (!ours(fd)) return real(fd, s); memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = (off_t)D->f[hnd[fd].file].len; return 0; }
int ioctl(int fd, unsigned long q, ...) { REAL(int, ioctl, int, unsigned long, ...); va_list ap; va_start(ap, q); void* a = va_arg(ap, void*); va_end(ap); if (ours(fd)) { if (q == FIONREAD) { Hnd& h = hnd[fd]; *(int*)a = (int)(D->f[h.file].len > h.pos ? D->f[h.file].len - h.pos : 0); return 0; } errno = ENOTTY; return -1; } return real(fd, q, a); }
char* getcwd(char* b, size_t n) { REAL(char*, getcwd, char*, size_t); if (!active) return real(b, n); if (n < 5) { errno = ERANGE; return 0; } strcpy(b, "/sim"); return b; }
time_t time(time_t* t) { REAL(time_t, time, time_t*); time_t v = active && curTask ? (time_t)curTask->run->now : real(t); if (t) *t = v; return v; }
}

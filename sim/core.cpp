#include "core.h"
#include <cstdarg>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace std;
namespace sim {
bool g_verbose = false;
u64 mix(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
u64 hash_str(const string& s) { u64 h = 1469598103934665603ull; for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; } return h; }

// ---- plan text ---------------------------------------------------------------------------------------------
static void enc(string& o, const string& s) {
    if (s.empty()) { o += "%"; return; }
    static const char* hex = "0123456789abcdef";
    for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c > 32 && c < 127 && c != '%') o += (char)c; else if (c == ' ') o += "%_"; else { o += '%'; o += hex[c >> 4]; o += hex[c & 15]; } }
}
string encode_plan(const Plan& p) { string o; for (size_t i = 0; i < p.size(); ++i) { enc(o, p[i].op); for (size_t j = 0; j < p[i].a.size(); ++j) { o += ' '; enc(o, p[i].a[j]); } o += '\n'; } return o; }
static string dec(const string& s) {
    string o; if (s == "%") return o;
    for (size_t i = 0; i < s.size(); ++i) if (s[i] != '%') o += s[i]; else if (i + 1 < s.size() && s[i+1] == '_') { o += ' '; ++i; } else if (i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
    return o;
}
Plan decode_plan(const string& t) {
    Plan p; size_t i = 0;
    while (i < t.size()) {
        size_t e = t.find('\n', i); if (e == string::npos) e = t.size();
        string ln = t.substr(i, e - i); i = e + 1;
        if (ln.empty() || ln[0] == '#') continue;
        Line l; size_t k = 0; bool first = true;
        while (k <= ln.size()) { size_t sp = ln.find(' ', k); if (sp == string::npos) sp = ln.size(); string tok = ln.substr(k, sp - k); if (!tok.empty()) { if (first) { l.op = dec(tok); first = false; } else l.a.push_back(dec(tok)); } k = sp + 1; }
        if (!first) p.push_back(l);
    }
    return p;
}
string q(const string& s) { string o; for (size_t i = 0; i < s.size() && i < 400; ++i) { unsigned char c = s[i]; char b[8]; if (c >= 32 && c < 127 && c != '\\') o += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }

// ---- result block shared with the parent -------------------------------------------------------------------
struct Counter { char name[44]; u64 n; };
const int NC = 96, NS = 256;
struct Shared {
    u64 loghash, schedhash, nlog, nsteps; int status;              // status: 0 running, 1 ok, 2 violation
    int nontrivial; char cls[96]; char msg[2400];
    Counter faults[NC], probes[NC]; int nf, np;
    u64 states[NS]; int ns; char sample[600];
};
static Shared* sh = 0;
static FILE* g_logfile = 0;
static void count(Counter* c, int& n, const char* name, u64 k) {
    for (int i = 0; i < n; ++i) if (!strcmp(c[i].name, name)) { c[i].n += k; return; }
    if (n < NC) { snprintf(c[n].name, sizeof c[n].name, "%s", name); c[n].n = k; ++n; }
}
void log_str(const string& s) {
    u64 h = sh->loghash; for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; } h ^= 10; h *= 1099511628211ull;
    sh->loghash = h; ++sh->nlog;
    if (g_logfile) { fputs(q(s).c_str(), g_logfile); fputc('\n', g_logfile); fflush(g_logfile); }
}
void log_ev(const char* fmt, ...) { NotLib nl; char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); log_str(b); }
void fault(const char* k, u64 n) { count(sh->faults, sh->nf, k, n); }
void probe(const char* k, u64 n) { count(sh->probes, sh->np, k, n); }
void nontrivial() { sh->nontrivial = 1; }
void steps(u64 n) { sh->nsteps += n; }
void sched(u64 d) { sh->schedhash = mix(sh->schedhash, d); }
void state(u64 h) { if (sh->ns < NS) sh->states[sh->ns++] = h; }
void sample(const string& s) { snprintf(sh->sample, sizeof sh->sample, "%s", q(s).c_str()); }
void fail(const string& cls, const string& msg) {
    g_in_lib = 0; log_str("FAIL " + cls + ": " + msg);
    snprintf(sh->cls, sizeof sh->cls, "%s", cls.c_str()); snprintf(sh->msg, sizeof sh->msg, "%s", q(msg).c_str());
    sh->status = 2; _exit(3);
}
static vector<Property>* props = 0;
void register_property(const Property& p) { if (!props) props = new vector<Property>(); props->push_back(p); }
static const Property* find_prop(const string& id) { for (size_t i = 0; i < props->size(); ++i) if (id == (*props)[i].id) return &(*props)[i]; return 0; }

// ---- one run = one forked child ---------------------------------------------------------------------------
struct Outcome { int status; string cls, msg; u64 loghash; string err; };    // status 1 ok, 2 violation (incl. crash/hang), 3 harness error
static int errfd = -1;
static int cpu_limit = 40;
static Outcome run_plan(const Property& p, const Plan& plan) {
    memset((void*)sh, 0, sizeof *sh); sh->loghash = 1469598103934665603ull; sh->schedhash = 7;
    if (errfd < 0) errfd = memfd_create("err", 0);
    if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { Outcome o; o.status = 3; o.msg = "fork failed"; return o; }
    if (pid == 0) {
        if (!g_verbose) { dup2(errfd, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 0); }
        struct rlimit rl; rl.rlim_cur = cpu_limit; rl.rlim_max = cpu_limit + 5; setrlimit(RLIMIT_CPU, &rl);
        signal(SIGALRM, SIG_DFL); alarm(cpu_limit * 6);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        if (g_verbose) g_logfile = stdout;
        try { p.exec(plan); }
        catch (const std::exception& e) { fail("uncaught-exception", string("exception escaped: ") + e.what()); }
        catch (...) { fail("uncaught-exception", "unknown exception escaped"); }
        sh->status = 1; _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o; o.loghash = sh->loghash;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status == 1) o.status = 1;
    else if (sh->status == 2) { o.status = 2; o.cls = sh->cls; o.msg = sh->msg; }
    else {
        string e; char b[65536]; ssize_t n = pread(errfd, b, sizeof b - 1, 0); if (n > 0) e.assign(b, n);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { o.status = 3; o.msg = "harness resource: " + e; return o; }
        o.status = 2; o.err = e;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) { o.cls = "hang"; o.msg = "run did not finish within the CPU budget"; if (WTERMSIG(st) != SIGXCPU) { o.cls = WTERMSIG(st) == SIGALRM ? "hang" : "killed"; if (o.cls == "killed") o.status = 3; } }
        else {
            string kind = "abnormal-exit"; size_t a = e.find("AddressSanitizer: ");
            if (a != string::npos) { size_t z = e.find_first_of(" \n", a + 18); kind = e.substr(a + 18, z - a - 18); }
            else if (e.find("sim: ") != string::npos) { a = e.find("sim: "); kind = e.substr(a + 5, e.find('\n', a) - a - 5); }
            else if (e.find("terminate called") != string::npos) kind = "terminate";
            else if (WIFSIGNALED(st)) kind = "signal-" + to_string(WTERMSIG(st));
            for (size_t i = 0; i < kind.size(); ++i) if (kind[i] == ' ') kind[i] = '-';
            o.cls = "memory:" + kind;
            // message: first frames
            string m; size_t fr = e.find("    #0"); for (int k = 0; k < 6 && fr != string::npos; ++k) { size_t z = e.find('\n', fr); string f = e.substr(fr, z - fr); size_t in = f.find(" in "); if (in != string::npos) m += (m.empty() ? "" : " <- ") + f.substr(in + 4, 90); fr = e.find("    #", z); }
            o.msg = kind + " " + m;
        }
    }
    return o;
}
// Recorded findings: SIM_KNOWN names a file with one line per finding, "property<TAB>class<TAB>text<TAB>text..."; a violation of that class whose message and
// diagnostics contain every text is that finding, counted and not reported again.
static bool known(const Property& p, const Outcome& o) {
    static vector<vector<string>> K; static bool loaded = false;
    if (!loaded) { loaded = true; const char* f = getenv("SIM_KNOWN"); FILE* h = f ? fopen(f, "r") : 0; if (h) { char b[4096]; while (fgets(b, sizeof b, h)) { vector<string> v(1); for (char* c = b; *c && *c != '\n'; ++c) if (*c == '\t') v.push_back(""); else v.back() += *c; if (v.size() > 2) K.push_back(v); } fclose(h); } }
    for (size_t i = 0; i < K.size(); ++i) { if (K[i][0] != p.id || K[i][1] != o.cls) continue; bool all = true; for (size_t k = 2; k < K[i].size(); ++k) if ((o.msg + "\n" + o.err).find(K[i][k]) == string::npos) all = false; if (all) return true; }
    return false;
}
static bool same(const Outcome& a, const Outcome& b) { return a.status == 2 && b.status == 2 && a.cls == b.cls; }

// ---- minimiser: delta debugging over plan lines, then shrinking of arguments --------------------------------
static Plan minimise(const Property& p, Plan plan, const Outcome& target, int budget) {
    int tries = 0; time_t t0 = time(0); const int maxSec = 150;
    auto bad = [&](const Plan& c) { if (tries >= budget || time(0) - t0 > maxSec) return false; ++tries; Outcome o = run_plan(p, c); return same(o, target) && known(p, o) == known(p, target); };
    bool changed = true;
    while (changed && tries < budget && time(0) - t0 <= maxSec) {
        changed = false;
        for (size_t chunk = max<size_t>(1, plan.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < plan.size();) {
                Plan c(plan.begin(), plan.begin() + i); c.insert(c.end(), plan.begin() + min(plan.size(), i + chunk), plan.end());
                if (c.size() < plan.size() && bad(c)) { plan = c; changed = true; } else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < plan.size(); ++i) for (size_t j = 0; j < plan[i].a.size(); ++j) {
            const string cur = plan[i].a[j];
            bool num = !cur.empty() && cur.find_first_not_of("-0123456789") == string::npos;
            if (num) {
                long long v = atoll(cur.c_str()); long long cand[4] = { 0, v / 2, v - 1, v > 16 ? v % 16 : v };
                for (int k = 0; k < 4; ++k) if (cand[k] != v && llabs(cand[k]) <= llabs(v)) { Plan c = plan; c[i].a[j] = to_string(cand[k]); if (bad(c)) { plan = c; changed = true; break; } }
            } else if (cur.size() > 1 && cur.size() < 4000) {
                string s = cur;
                for (size_t chunk = s.size() / 2; chunk >= 1; chunk /= 2) for (size_t k = 0; k + chunk <= s.size();) { string t = s.substr(0, k) + s.substr(k + chunk); Plan c = plan; c[i].a[j] = t; if (bad(c)) { s = t; plan = c; changed = true; } else k += chunk; }
            }
        }
    }
    return plan;
}
static string slurp(const string& f) { FILE* h = fopen(f.c_str(), "rb"); if (!h) { fprintf(stderr, "cannot read %s\n", f.c_str()); exit(2); } string o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) o.append(b, n); fclose(h); return o; }
static void spit(const string& f, const string& s) { FILE* h = fopen(f.c_str(), "wb"); if (!h) { fprintf(stderr, "cannot write %s\n", f.c_str()); exit(2); } fwrite(s.data(), 1, s.size(), h); fclose(h); }
static string js(const string& s) { string o = "\""; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; char b[8]; if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
u64 run_seed(const string& prop, u64 seed, u64 index) { return mix(mix(hash_str(prop), seed), index); }
static Plan gen_plan(const Property& p, u64 seed, u64 index) { Rng r(run_seed(p.id, seed, index)); Plan pl; p.gen(r, pl); return pl; }

static int explore(const Property& p, u64 seed, u64 start, u64 stride, u64 runs, double maxsec, const string& out, const string& faildir) {
    map<string, u64> f, pr; set<u64> sigs, scheds, states; u64 done = 0, nontriv = 0, nsteps = 0, nlog = 0; vector<string> samples; u64 rollup = 0;
    u64 ninj = 0; string failfile, cls, msg; u64 failidx = 0; int status = 0;
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (u64 k = 0; k < runs; ++k) {
        u64 idx = start + k * stride; Plan pl = gen_plan(p, seed, idx); Outcome o = run_plan(p, pl);
        if (o.status == 3) { status = 2; msg = o.msg; break; }
        ++done; nsteps += sh->nsteps; nlog += sh->nlog; rollup = mix(rollup, o.loghash);
        if (sh->nf) ++ninj;
        for (int i = 0; i < sh->nf; ++i) f[sh->faults[i].name] += sh->faults[i].n;
        for (int i = 0; i < sh->np; ++i) pr[sh->probes[i].name] += sh->probes[i].n;
        if (scheds.size() < 2000000) scheds.insert(sh->schedhash);
        for (int i = 0; i < sh->ns; ++i) if (states.size() < 2000000) states.insert(sh->states[i]);
        if (sh->nontrivial) { if (sigs.size() < 2000000) sigs.insert(o.loghash); ++nontriv; if (samples.size() < 2 && sh->sample[0]) samples.push_back(sh->sample); }
        if (o.status == 2 && known(p, o)) ++pr["recorded-finding"];
        else if (o.status == 2) {
            status = 1; cls = o.cls; msg = o.msg; failidx = idx; failfile = faildir + "/fail-" + p.id + "-" + to_string(idx) + ".plan";
            spit(failfile, "# property=" + string(p.id) + " seed=" + to_string(seed) + " run=" + to_string(idx) + " class=" + cls + "\n# " + q(msg) + "\n" + encode_plan(pl));
            break;
        }
        if ((k & 7) == 7 && maxsec > 0) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > maxsec) break; }
    }
    string o = "{\"status\":" + to_string(status) + ",\"done\":" + to_string(done) + ",\"nontrivial\":" + to_string(nontriv) + ",\"steps\":" + to_string(nsteps) + ",\"events\":" + to_string(nlog) + ",\"with_faults\":" + to_string(ninj) + ",\"rollup\":\"" + to_string(rollup) + "\",\"cls\":" + js(cls) + ",\"msg\":" + js(msg) + ",\"failfile\":" + js(failfile) + ",\"failidx\":" + to_string(failidx);
    o += ",\"faults\":{"; bool first = true; for (map<string,u64>::iterator i = f.begin(); i != f.end(); ++i) { o += (first ? "" : ",") + js(i->first) + ":" + to_string(i->second); first = false; }
    o += "},\"probes\":{"; first = true; for (map<string,u64>::iterator i = pr.begin(); i != pr.end(); ++i) { o += (first ? "" : ",") + js(i->first) + ":" + to_string(i->second); first = false; }
    auto dump = [&](const char* n, const set<u64>& s) { o += string(",\"") + n + "\":["; bool fi = true; for (set<u64>::const_iterator i = s.begin(); i != s.end(); ++i) { o += (fi ? "\"" : ",\"") + to_string(*i) + "\""; fi = false; } o += "]"; };
    o += "}"; dump("sigs", sigs); dump("scheds", scheds); dump("states", states);
    o += ",\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) o += (i ? "," : "") + js(samples[i]);
    o += "]}\n"; spit(out, o);
    return 0;
}
int gen_command(int argc, char** argv);
int sim_main(int argc, char** argv) {
    setenv("LC_ALL", "C", 1); setenv("TZ", "UTC", 1);      // the environment is part of the simulated machine
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    string mode = argc > 1 ? argv[1] : "";
    if (mode == "list") { for (size_t i = 0; i < props->size(); ++i) { const Property& p = (*props)[i]; printf("{\"id\":%s,\"quick\":%d,\"thorough\":%d,\"rule\":%s,\"real\":%s,\"stub\":%s}\n", js(p.id).c_str(), p.quick_runs, p.thorough_runs, js(p.rule).c_str(), js(p.real).c_str(), js(p.stub).c_str()); } return 0; }
    if (mode == "generate" && argc > 3) return gen_command(argc, argv);
    if (argc < 3) { fprintf(stderr, "usage: sim list | explore P seed start stride runs maxsec out faildir | exec P plan [-v] | plan P seed index | min P plan out | twice P seed n start\n"); return 2; }
    const Property* p = find_prop(argv[2]); if (!p) { fprintf(stderr, "no such property here: %s\n", argv[2]); return 2; }
    if (mode == "explore") return explore(*p, strtoull(argv[3],0,10), strtoull(argv[4],0,10), strtoull(argv[5],0,10), strtoull(argv[6],0,10), atof(argv[7]), argv[8], argv[9]);
    if (mode == "plan") { fputs(encode_plan(gen_plan(*p, strtoull(argv[3],0,10), strtoull(argv[4],0,10))).c_str(), stdout); return 0; }
    if (mode == "exec") {
        if (argc > 4 && !strcmp(argv[4], "-v")) g_verbose = true;
        Outcome o = run_plan(*p, decode_plan(slurp(argv[3])));
        if (o.status == 2 && known(*p, o)) printf("recorded-finding\n");
        printf("outcome status=%d class=%s loghash=%llx events=%llu msg=%s\n", o.status, o.cls.c_str(), (unsigned long long)o.loghash, (unsigned long long)sh->nlog, o.msg.c_str());
        return o.status == 1 ? 0 : o.status == 2 ? 1 : 2;
    }
    if (mode == "min") {
        Plan pl = decode_plan(slurp(argv[3])); Outcome o = run_plan(*p, pl); if (o.status != 2) { fprintf(stderr, "does not fail\n"); return 2; }
        cpu_limit = 15; size_t before = pl.size();
        Plan m = minimise(*p, pl, o, argc > 5 ? atoi(argv[5]) : 3000); cpu_limit = 40; Outcome o2 = run_plan(*p, m);
        if (!same(o, o2)) { m = pl; o2 = o; }
        spit(argv[4], "# property=" + string(p->id) + " class=" + o2.cls + "\n# " + q(o2.msg) + "\n# minimised from " + to_string(before) + " to " + to_string(m.size()) + " lines\n" + encode_plan(m));
        return 0;
    }
    if (mode == "twice") {                       // determinism proof: every run twice, event-log hashes must agree
        u64 seed = strtoull(argv[3],0,10), n = strtoull(argv[4],0,10), st = argc > 5 ? strtoull(argv[5],0,10) : 0; u64 diff = 0, roll = 0;
        for (u64 i = 0; i < n; ++i) { Plan pl = gen_plan(*p, seed, st + i); Outcome a = run_plan(*p, pl), b = run_plan(*p, pl); if (a.status != b.status || a.loghash != b.loghash || a.cls != b.cls) { ++diff; printf("DIVERGED run %llu\n", (unsigned long long)(st + i)); } roll = mix(roll, a.loghash); }
        printf("twice %s seed=%llu n=%llu diverged=%llu rollup=%llx\n", p->id, (unsigned long long)seed, (unsigned long long)n, (unsigned long long)diff, (unsigned long long)roll);
        return diff ? 2 : 0;
    }
    return 2;
}
}
int main(int argc, char** argv) { return sim::sim_main(argc, argv); }

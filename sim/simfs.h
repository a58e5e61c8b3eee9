// The simulated machine for whole-program runs: an in-memory disk behind the system calls the C++ library makes
// (fopen, open, read, write, writev, lseek, fstat, fclose), the working directory, the clock and the console streams.
// A tool run is one forked process (so that a crash loses everything but the disk), or several cooperative tasks in one process.
#ifndef SIM_FS_H
#define SIM_FS_H
#include "core.h"
namespace simfs {
using namespace std; using namespace sim;
struct Fault { string kind, act; long long nth, arg; };     // kind open (for reading) /openw/read/write/close, nth such call of the run (0 based), act fail/eintr/short/crash, arg errno or bytes
struct Run { vector<string> argv; vector<Fault> faults; long long diskFull; long long now; HeapCfg heap; string in; vector<int> inChunks; long long inFail; u64 env; bool useHeap; long long allocFail; int chunk; int cpu; bool hangOk; Run() : inFail(-1), env(0), cpu(30), hangOk(false), diskFull(-1), now(1000000000), useHeap(false), allocFail(-1), chunk(0) {} };
struct Result { int code; bool crashed, threw, exited, hung; string out, err; long long opens, creates, reads, writes, closes; u64 faultsFired, lostReads; string what; };
void disk_init();                                            // fresh empty disk (shared with the processes of this run)
void put(const string& path, const string& data); bool get(const string& path, string& data); void del(const string& path);
vector<string> list(); int opens_of(const string& path); void reset_opens();
Result run_tool(const Run& r);                               // a process of its own
vector<Result> run_tools(const vector<Run>& rs, u64 schedSeed, bool sequential);   // one process: one after another, or interleaved at every system call
bool faulty(const Result&);
}
int tool_main(int argc, const char* argv[]);
#endif

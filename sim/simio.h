// Simulated input sources: the plan decides chunk sizes, where a read throws (transient or sticky), where the input ends, where a reader yields.
#ifndef SIMIO_H
#define SIMIO_H
#include "core.h"
#include "fiber.h"
#include <istream>
#include <streambuf>
namespace sim {
struct IoError {};                                     // a transient device error, retryable
struct Feed {                                          // decides what happens at each symbol position of one input
    std::vector<int> data; size_t pos; u64 reads; std::map<size_t, int> faults; std::vector<int> chunks; size_t chunkAt; bool ended; int yieldEvery; std::function<void(size_t)> onRead; size_t cut;
    Feed() : pos(0), reads(0), chunkAt(0), ended(false), yieldEvery(0), cut((size_t)-1) {}
    enum { THROW = 1, END = 2 };
    size_t limit() const { return cut < data.size() ? cut : data.size(); }
    void before() {                                     // may throw, may yield, may mark the input as ended
        NotLib nl; ++reads; steps(1);
        if (onRead) onRead(pos);
        if (yieldEvery && reads % yieldEvery == 0) fiber_yield();
        std::map<size_t, int>::iterator f = faults.find(pos);
        if (f != faults.end() && !ended) { int k = f->second; faults.erase(f); if (k == THROW) { fault("read-throws"); throw IoError(); } fault("input-ends-early"); cut = pos; ended = true; }
    }
    bool next(int& v) { before(); if (pos >= limit()) return false; v = data[pos++]; return true; }
    size_t nextChunk() { size_t n = chunks.empty() ? 1 : (size_t)chunks[chunkAt++ % chunks.size()]; if (n < 1) n = 1; size_t m = limit() - pos < n ? limit() - pos : n; for (std::map<size_t, int>::iterator f = faults.upper_bound(pos); f != faults.end(); ++f) { if (f->first < pos + m) m = f->first - pos; break; } return m; }
};
template<class C> struct SimBuf : std::basic_streambuf<C> {
    typedef std::basic_streambuf<C> B; typedef typename B::traits_type T; Feed& f; std::vector<C> buf;
    SimBuf(Feed& x) : f(x) {}
    typename T::int_type underflow() { { NotLib nl; f.before(); size_t n = f.nextChunk(); if (!n) return T::eof(); buf.clear(); for (size_t i = 0; i < n; ++i) buf.push_back((C)f.data[f.pos + i]); f.pos += n; } this->setg(buf.data(), buf.data(), buf.data() + buf.size()); return T::to_int_type(*this->gptr()); }
    size_t taken() const { return f.pos - (this->egptr() - this->gptr()); }
};
std::vector<int> csv(const std::string& s);
std::string tocsv(const std::vector<int>& v);
}
#endif

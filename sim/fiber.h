// Cooperative fibers (ucontext) with AddressSanitizer annotations: the seeded plan, not the OS, decides who runs.
#ifndef FIBER_H
#define FIBER_H
#include "core.h"
#include <exception>
namespace sim {
struct Fiber;
Fiber* fiber_new(std::function<void()> body);      // not started
bool fiber_done(Fiber*);
void fiber_run(Fiber*);                            // run it until it yields or ends (call from the scheduler only)
void fiber_yield();                                // inside a fiber: back to the scheduler; no effect outside fibers
void fiber_free(Fiber*);
bool in_fiber();
std::exception_ptr fiber_exc(Fiber*);
}
#endif

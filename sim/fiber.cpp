#include "fiber.h"
#include <exception>
#include <sys/mman.h>
#include <ucontext.h>
#include <sanitizer/common_interface_defs.h>
#include <cxxabi.h>
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
namespace sim {
struct EhGlobals { void* caught; unsigned uncaught; };
struct Fiber { ucontext_t ctx, back; void* fake; void* backFake; const void* schedStack; size_t schedSize; char* stack; size_t size; bool started, done; std::function<void()> body; std::exception_ptr exc; EhGlobals eh; int inLib; };
static Fiber* cur = 0;
static EhGlobals* ehg() { return (EhGlobals*)__cxxabiv1::__cxa_get_globals(); }
static void entry() {
    Fiber* f = cur; __sanitizer_finish_switch_fiber(0, &f->schedStack, &f->schedSize);
    try { f->body(); } catch (...) { f->exc = std::current_exception(); }
    f->done = true; __sanitizer_start_switch_fiber(0, f->schedStack, f->schedSize); swapcontext(&f->ctx, &f->back); abort();
}
Fiber* fiber_new(std::function<void()> b) { Fiber* f = new Fiber(); f->size = 8 << 20; f->stack = (char*)mmap(0, f->size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); f->started = f->done = false; f->body = b; f->fake = 0; f->eh.caught = 0; f->eh.uncaught = 0; f->inLib = 0; return f; }
bool fiber_done(Fiber* f) { return f->done; }
bool in_fiber() { return cur != 0; }
std::exception_ptr fiber_exc(Fiber* f) { return f->exc; }
void fiber_run(Fiber* f) {
    if (f->done || cur) return;
    EhGlobals save = *ehg(); *ehg() = f->eh; int il = g_in_lib; g_in_lib = f->inLib; cur = f;
    if (!f->started) { f->started = true; getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = f->size; f->ctx.uc_link = 0; makecontext(&f->ctx, entry, 0); }
    void* fake = 0; __sanitizer_start_switch_fiber(&fake, f->stack, f->size); swapcontext(&f->back, &f->ctx); __sanitizer_finish_switch_fiber(fake, 0, 0);
    f->eh = *ehg(); *ehg() = save; f->inLib = g_in_lib; g_in_lib = il; cur = 0;
}
void fiber_yield() {
    Fiber* f = cur; if (!f) return;
    __sanitizer_start_switch_fiber(&f->fake, f->schedStack, f->schedSize); swapcontext(&f->ctx, &f->back); __sanitizer_finish_switch_fiber(f->fake, &f->schedStack, &f->schedSize);
}
void fiber_free(Fiber* f) { munmap(f->stack, f->size); delete f; }
}

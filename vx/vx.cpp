#include "vx.hpp"
#include <cerrno>
#include <cstdio>
#include <cxxabi.h>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define VX_ASAN 1
#endif

namespace vx
{
// vxrace.cpp, where it is linked in
__attribute__((weak)) void race_run();
__attribute__((weak)) void race_forget(const void*, size_t);
void decide(bool);
namespace
{
constexpr size_t STACK = 512 * 1024;
enum St { RUN, BLOCK, DONE };
struct Fiber
{
    int      id{0};
    char*    stack{nullptr};
    void*    sp{nullptr};
    St       st{RUN};
    bool (*ready)(void*){nullptr};
    void*    arg{nullptr};
    int64_t  deadline{-1};
    bool     idle_wait{false};   // deadline is only an idle poll
    bool     quiesce_wait{false};
    bool     timed_out{false};
    VC       clk, acqp, relf;
    bool     has_relf{false};
    std::function<void()> fn;
    uint64_t eh[2]{0, 0};
    long     prio{0};
    void*    fake{nullptr};
    int      spin{0};
};
struct Rt
{
    Config   cfg;
    std::vector<Fiber*> f;
    Fiber*   cur{nullptr};
    void*    main_sp{nullptr};
    uint64_t main_eh[2]{0, 0};
    void*    main_fake{nullptr};
    const void* main_bottom{nullptr}; size_t main_size{0};
    uint64_t s0{1}, s1{2};
    long     steps{0};
    int64_t  now{0};
    const char* why{nullptr};
    std::vector<long> changes;
    long     low{0};
    int      idle_rounds{0};
    uint64_t progress{0}, last_spin_progress{0};
    long     consecutive{0};
    bool     deciding{false};
};
Rt R;
std::vector<char*> stack_pool;
IoHook hook;

extern "C" void vx_switch(void** save, void* to);
asm(R"(
.text
.globl vx_switch
.type vx_switch,@function
vx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vx_switch,.-vx_switch
)");

uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void save_eh(uint64_t* e) { std::memcpy(e, abi::__cxa_get_globals(), 16); }
void load_eh(const uint64_t* e) { std::memcpy(abi::__cxa_get_globals(), e, 16); }

void fiber_entry();

extern "C" void vx_entry_tramp() { fiber_entry(); }

void switch_to(Fiber* n)
{
    Fiber* c = R.cur;
    if (n == c) return;
    save_eh(c->eh);
    R.cur = n;
#ifdef VX_ASAN
    __sanitizer_start_switch_fiber(c->st == DONE ? nullptr : &c->fake, n->stack, STACK);
#endif
    vx_switch(&c->sp, n->sp);
#ifdef VX_ASAN
    const void* b; size_t s;
    __sanitizer_finish_switch_fiber(c->fake, &b, &s);
#endif
    load_eh(c->eh);
}

void to_main()
{
    Fiber* c = R.cur;
    save_eh(c->eh);
    R.cur = nullptr;
#ifdef VX_ASAN
    __sanitizer_start_switch_fiber(nullptr, R.main_bottom, R.main_size);
#endif
    vx_switch(&c->sp, R.main_sp);
    std::abort();
}

void fiber_entry()
{
#ifdef VX_ASAN
    const void* b; size_t s;
    __sanitizer_finish_switch_fiber(nullptr, &b, &s);
    if (R.cur->id == 0) { R.main_bottom = b; R.main_size = s; }
#endif
    uint64_t z[2]{0, 0};
    load_eh(z);
    R.cur->fn();
    Fiber* c = R.cur;
    c->st = DONE;
    ++R.progress;
    if (c->id == 0) { R.why = "ok"; to_main(); }
    // pick another
    decide(false);
    std::abort();
}

bool is_ready(Fiber* f)
{
    if (f->st == RUN) return true;
    if (f->st == DONE || f->quiesce_wait) return false;
    if (f->ready && f->ready(f->arg)) { f->timed_out = false; return true; }
    if (f->deadline >= 0 && R.now >= f->deadline) { f->timed_out = true; return true; }
    return false;
}
} // namespace

void decide(bool cur_can_run)
{
    ++R.steps;
    if (R.steps > R.cfg.max_steps) { R.why = "hang"; to_main(); }
    if (hook.poll_ready) hook.poll_ready(false);
    if (R.cfg.time_adv && rnd(R.cfg.time_adv) == 0)
    {
        int64_t nd = hook.next_deadline ? hook.next_deadline() : -1;
        for (auto* f : R.f) if (f->st == BLOCK && f->deadline >= 0 && !f->idle_wait && (nd < 0 || f->deadline < nd)) nd = f->deadline;
        int64_t to = R.now + 1 + int64_t(rnd(2000000));
        if (nd > R.now && rnd(2) == 0) to = nd;
        advance_time_to(to);
    }
    std::vector<Fiber*> c;
    for (;;)
    {
        c.clear();
        for (auto* f : R.f)
        {
            if (f == R.cur && !cur_can_run && f->st == RUN) continue;
            if (is_ready(f)) c.push_back(f);
        }
        if (!c.empty()) break;
        if (hook.poll_ready)
        {
            hook.poll_ready(true);
            for (auto* f : R.f) if (is_ready(f)) c.push_back(f);
            if (!c.empty()) break;
        }
        // idle: advance time to the next real deadline
        int64_t nd = hook.next_deadline ? hook.next_deadline() : -1;
        int64_t ni = -1;
        for (auto* f : R.f)
            if (f->st == BLOCK && f->deadline >= 0)
            {
                if (f->idle_wait) { if (ni < 0 || f->deadline < ni) ni = f->deadline; }
                else if (nd < 0 || f->deadline < nd) nd = f->deadline;
            }
        bool anyq = false;
        for (auto* f : R.f) if (f->st == BLOCK && f->quiesce_wait) anyq = true;
        if (ni >= 0 && (nd < 0 || ni < nd))
        {
            // only idle polls of an event loop are due first
            if (R.idle_rounds < (anyq || nd >= 0 ? 5 : 40) || nd >= 0)
            {
                if (nd < 0) ++R.idle_rounds;
                advance_time_to(ni);
                continue;
            }
        }
        else if (nd >= 0) { advance_time_to(nd); continue; }
        R.idle_rounds = 0;
        // quiescent
        Fiber* q = nullptr;
        for (auto* f : R.f) if (f->st == BLOCK && f->quiesce_wait) { q = f; break; }
        if (q) { q->quiesce_wait = false; q->st = RUN; c.push_back(q); break; }
        R.why = "deadlock";
        to_main();
    }
    Fiber* n = nullptr;
    if (R.cfg.policy == 2)
    {
        for (auto& ch : R.changes) if (ch == R.steps && R.cur) R.cur->prio = --R.low;
        if (R.consecutive > 150 && R.cur) { R.cur->prio = --R.low; R.consecutive = 0; }
        for (auto* f : c) if (!n || f->prio > n->prio) n = f;
    }
    else if (R.cfg.policy == 1)
    {
        bool cin = false;
        for (auto* f : c) if (f == R.cur) cin = true;
        if (cin && R.consecutive < 150 && rnd(R.cfg.sticky) != 0) n = R.cur;
    }
    if (!n) n = c[rnd(c.size())];
    if (n == R.cur) ++R.consecutive; else R.consecutive = 0;
    if (n->st == BLOCK) n->st = RUN;
    switch_to(n);
}

bool active() { return R.cur != nullptr; }
int  self() { return R.cur ? R.cur->id : -1; }
const VC& clock_of_self() { return R.cur->clk; }
VC&  clock_mut() { return R.cur->clk; }
void tick() { ++R.cur->clk.c[R.cur->id]; }
VC&  acq_pending() { return R.cur->acqp; }
VC&  rel_fence() { return R.cur->relf; }
bool has_rel_fence() { return R.cur->has_relf; }
void set_rel_fence() { R.cur->relf = R.cur->clk; R.cur->has_relf = true; tick(); }
const Config& config() { return R.cfg; }
bool weak_fail() { return R.cur && R.cfg.weak_fail && rnd(R.cfg.weak_fail) == 0; }
void note_progress() { ++R.progress; }
void note_event() { R.idle_rounds = 0; }
uint64_t progress_count() { return R.progress; }

uint64_t rnd()
{
    uint64_t s1 = R.s0, s0 = R.s1, r = s0 + s1;
    R.s0 = s0; s1 ^= s1 << 23;
    R.s1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
uint64_t rnd(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }

void point()
{
    if (!R.cur) return;
    int e = errno;   // each thread has its own
    decide(true);
    errno = e;
}
void point_after()
{
    if (R.cur && R.cfg.post) point();
}
void spin_hint()
{
    if (!R.cur) return;
    if (R.cfg.policy == 2) R.cur->prio = --R.low;
    // prefer somebody else if there is anyone
    R.consecutive = 1000;
    decide(rnd(4) == 0 || R.f.size() == 1 ? true : ([] {
        for (auto* f : R.f) if (f != R.cur && is_ready(f)) return false;
        return true; })());
}
void fence(std::memory_order mo) noexcept
{
    if (!R.cur) return;
    bool acq = mo != std::memory_order_release && mo != std::memory_order_relaxed;
    bool rel = mo != std::memory_order_acquire && mo != std::memory_order_consume && mo != std::memory_order_relaxed;
    // a thread spinning on a fence must not starve the others
    if (R.cfg.policy == 2 && ++R.cur->spin % 16 == 0) R.cur->prio = --R.low;
    point();
    if (acq) R.cur->clk.join(R.cur->acqp);
    if (rel) set_rel_fence();
}

void block(bool (*ready)(void*), void* arg, int64_t deadline)
{
    Fiber* c = R.cur;
    c->ready = ready; c->arg = arg; c->deadline = deadline; c->idle_wait = false; c->timed_out = false;
    c->st = BLOCK;
    decide(false);
    c->deadline = -1; c->ready = nullptr;
}
void block_idle(bool (*ready)(void*), void* arg, int64_t deadline)
{
    Fiber* c = R.cur;
    c->ready = ready; c->arg = arg; c->deadline = deadline; c->idle_wait = true; c->timed_out = false;
    c->st = BLOCK;
    decide(false);
    if (!c->timed_out) R.idle_rounds = 0;
    c->deadline = -1; c->ready = nullptr; c->idle_wait = false;
}
void quiesce()
{
    Fiber* c = R.cur;
    R.idle_rounds = 0;
    c->st = BLOCK; c->quiesce_wait = true; c->ready = nullptr; c->deadline = -1;
    decide(false);
    // what happened before everything came to rest is not meant to race with what the harness does from here on
    if (race_run) for (auto* f : R.f) { c->clk.join(f->clk); ++f->clk.c[f->id]; }
}
namespace this_thread
{
void sleep_ns(int64_t ns)
{
    if (!R.cur) return;
    if (ns <= 0) { spin_hint(); return; }
    block(nullptr, nullptr, R.now + ns);
}
} // namespace this_thread

int64_t raw_now() { return R.now; }
int64_t now_ns()
{
    if (R.cur && R.cfg.clock_jitter) advance_time_to(R.now + int64_t(rnd(uint64_t(R.cfg.clock_jitter) + 1)));
    return R.now;
}
void advance_time_to(int64_t ns)
{
    if (ns <= R.now) return;
    R.now = ns;
    if (hook.time_moved) hook.time_moved();
}
void set_io_hook(const IoHook& h) { hook = h; }

static Fiber* make_fiber(std::function<void()> fn)
{
    if (R.f.size() >= MAXF) { R.why = "toomanythreads"; to_main(); }
    auto* f = new Fiber();
    f->id = int(R.f.size());
    if (!stack_pool.empty()) { f->stack = stack_pool.back(); stack_pool.pop_back(); }
    else
    {
        char* m = static_cast<char*>(mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        mprotect(m, 4096, PROT_NONE);
        f->stack = m + 4096;
    }
#ifdef VX_ASAN
    __asan_unpoison_memory_region(f->stack, STACK);
#endif
    if (race_forget) race_forget(f->stack, STACK);
    f->fn = std::move(fn);
    void** top = reinterpret_cast<void**>(f->stack + STACK - 64);
    top = reinterpret_cast<void**>(reinterpret_cast<uintptr_t>(top) & ~uintptr_t(15));
    *--top = nullptr;
    *--top = reinterpret_cast<void*>(&vx_entry_tramp);
    for (int i = 0; i < 6; ++i) *--top = nullptr;
    f->sp = top;
    f->prio = long(rnd(1000)) + 1000;
    R.f.push_back(f);
    return f;
}
int spawn(std::function<void()> fn)
{
    point();
    auto* f = make_fiber(std::move(fn));
    f->clk = R.cur->clk;
    f->clk.c[f->id] = 1;
    tick();
    ++R.progress;
    return f->id;
}
bool finished(int id) { return R.f[size_t(id)]->st == DONE; }
void join_clock(int id) { R.cur->clk.join(R.f[size_t(id)]->clk); }

void abort_run(const char* why) { R.why = why; to_main(); std::abort(); }

std::string run(const Config& cfg, const std::function<void()>& fn)
{
    R.cfg = cfg;
    if (race_run) race_run();
    uint64_t x = cfg.seed * 2654435761u + 12345;
    R.s0 = splitmix(x); R.s1 = splitmix(x);
    R.steps = 0; R.now = 1000000000000ll; R.why = nullptr; R.low = 0; R.consecutive = 0; R.idle_rounds = 0;
    R.changes.clear();
    for (int i = 0; i < cfg.pct_depth; ++i) R.changes.push_back(long(rnd(uint64_t(cfg.pct_len))) + 1);
    R.f.clear();
    auto* f = make_fiber(fn);
    f->clk.c[0] = 1;
    save_eh(R.main_eh);
    R.cur = f;
#ifdef VX_ASAN
    __sanitizer_start_switch_fiber(&R.main_fake, f->stack, STACK);
#endif
    vx_switch(&R.main_sp, f->sp);
#ifdef VX_ASAN
    const void* b; size_t s;
    __sanitizer_finish_switch_fiber(R.main_fake, &b, &s);
#endif
    load_eh(R.main_eh);
    R.cur = nullptr;
    for (auto* p : R.f)
    {
        if (p->st == DONE || true) stack_pool.push_back(p->stack);
        p->fn = nullptr;
        delete p;
    }
    R.f.clear();
    return R.why ? R.why : "ok";
}
} // namespace vx

// vx: a controlled-execution runtime for C++ concurrency primitives.
//
// "Threads" are fibers on one OS thread. Every operation on a vx:: primitive is a scheduling
// point at which a seeded scheduler chooses who runs next. Happens-before is tracked with vector
// clocks following the C++ memory model (release/acquire, fences, release sequences through RMWs),
// so that a run can report whether one access happens-before another even though the values
// themselves are sequentially consistent. Time is virtual.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace vx
{
constexpr int MAXF = 64;

struct VC
{
    uint32_t c[MAXF]{};
    void     join(const VC& o)
    {
        for (int i = 0; i < MAXF; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
    bool leq(const VC& o) const
    {
        for (int i = 0; i < MAXF; ++i)
            if (c[i] > o.c[i])
                return false;
        return true;
    }
    void clear() { std::memset(c, 0, sizeof(c)); }
};

struct Config
{
    uint64_t seed{1};
    int      policy{0};        // 0 uniform, 1 sticky, 2 pct
    int      sticky{8};        // mean run length for sticky
    int      pct_depth{3};
    int      pct_len{300};
    bool     post{false};      // scheduling points also after operations
    int      weak_fail{16};    // 1/weak_fail spurious failures of weak CAS, 0 = none
    int      spurious{0};      // 1/spurious per decision of a spurious cv wakeup, 0 = none
    int      time_adv{0};      // 1/time_adv per decision of advancing time, 0 = none
    int      clock_jitter{0};  // each now() advances by 0..jitter ns
    long     max_steps{60000};
};

// --- runtime control (implemented in vx.cpp) ---------------------------------------------------
bool        active();                     // inside run() on a fiber
int         self();                       // fiber id
const VC&   clock_of_self();
VC&         clock_mut();
void        tick();                       // advance own component (after a release)
void        point();                      // scheduling point
void        point_after();                // another one after an operation others can observe (in some runs)
void        spin_hint();                  // scheduling point, this fiber makes no progress alone
void        block(bool (*ready)(void*), void* arg, int64_t deadline_ns = -1); // until ready or deadline
uint64_t    rnd();
uint64_t    rnd(uint64_t n);
int64_t     now_ns();
void        note_progress();
void        note_event();            // something observable happened: idle polls count from zero again
uint64_t    progress_count();
VC&         acq_pending();
VC&         rel_fence();
bool        has_rel_fence();
void        set_rel_fence();
const Config& config();
bool        weak_fail();

// ends the run immediately with the given final event name (never returns)
[[noreturn]] void abort_run(const char* why);

// Blocks the caller until no other fiber can make progress (and no timer is pending that would
// let one make progress). Returns false if it gave up (budget).
void        quiesce();

// run fn as fiber 0; returns "ok" or the reason given to abort_run / "deadlock" / "hang"
std::string run(const Config& cfg, const std::function<void()>& fn);

int         spawn(std::function<void()> fn); // returns fiber id
bool        finished(int fid);
void        join_clock(int fid);

struct IoHook
{
    // called when deciding: refresh readiness of I/O waiters; idle = nothing else can run
    void (*poll_ready)(bool idle){nullptr};
    // earliest virtual timer deadline or -1
    int64_t (*next_deadline)(){nullptr};
    // time moved on
    void (*time_moved)(){nullptr};
};
void    set_io_hook(const IoHook& h);
void    advance_time_to(int64_t ns);
// blocked waiting with a deadline which is only an idle poll (epoll_wait default timeout)
void    block_idle(bool (*ready)(void*), void* arg, int64_t deadline_ns);
int64_t raw_now();

// --- vector clock helper objects ----------------------------------------------------------------
struct SyncVar
{
    mutable VC* vc{nullptr};
    constexpr SyncVar() noexcept = default;
    constexpr ~SyncVar() { if (!std::is_constant_evaluated()) delete vc; }
    SyncVar(const SyncVar&)                    = delete;
    auto operator=(const SyncVar&) -> SyncVar& = delete;
    VC& get() const
    {
        if (!vc) vc = new VC();
        return *vc;
    }
    void do_load(std::memory_order mo) const
    {
        if (!active() || !vc) return;
        if (mo == std::memory_order_acquire || mo == std::memory_order_consume || mo == std::memory_order_seq_cst || mo == std::memory_order_acq_rel)
            clock_mut().join(*vc);
        else
            acq_pending().join(*vc);
    }
    static bool is_rel(std::memory_order mo)
    {
        return mo == std::memory_order_release || mo == std::memory_order_acq_rel || mo == std::memory_order_seq_cst;
    }
    void do_store(std::memory_order mo) const
    {
        if (!active()) { if (vc) vc->clear(); return; }
        if (is_rel(mo)) { get() = clock_of_self(); tick(); }
        else if (has_rel_fence()) get() = rel_fence();
        else if (vc) vc->clear();
    }
    void do_rmw(std::memory_order mo) const
    {
        if (!active()) return;
        bool acq = mo == std::memory_order_acquire || mo == std::memory_order_consume || mo == std::memory_order_seq_cst || mo == std::memory_order_acq_rel;
        if (vc) { if (acq) clock_mut().join(*vc); else acq_pending().join(*vc); }
        if (is_rel(mo)) { get().join(clock_of_self()); tick(); }
        else if (has_rel_fence()) get().join(rel_fence());
    }
};

inline std::memory_order fail_order(std::memory_order mo)
{
    if (mo == std::memory_order_acq_rel) return std::memory_order_acquire;
    if (mo == std::memory_order_release) return std::memory_order_relaxed;
    return mo;
}

template<typename T>
class atomic
{
public:
    using value_type = T;
    static constexpr bool is_always_lock_free = true;
    constexpr atomic() noexcept(std::is_nothrow_default_constructible_v<T>) : m_v{} {}
    constexpr atomic(T v) noexcept : m_v(v) {}
    atomic(const atomic&)                    = delete;
    auto operator=(const atomic&) -> atomic& = delete;
    bool is_lock_free() const noexcept { return true; }

    T load(std::memory_order mo = std::memory_order_seq_cst) const noexcept
    {
        point();
        m_s.do_load(mo);
        T v = m_v;
        point_after();
        return v;
    }
    void store(T v, std::memory_order mo = std::memory_order_seq_cst) noexcept
    {
        point();
        m_s.do_store(mo);
        m_v = v;
        note_progress();
        point_after();
    }
    T operator=(T v) noexcept { store(v); return v; }
    operator T() const noexcept { return load(); }
    T exchange(T v, std::memory_order mo = std::memory_order_seq_cst) noexcept
    {
        point();
        m_s.do_rmw(mo);
        T o = m_v; m_v = v;
        note_progress();
        point_after();
        return o;
    }
    bool cas(T& e, T d, std::memory_order s, std::memory_order f, bool weak) noexcept
    {
        point();
        if (same(m_v, e) && !(weak && weak_fail()))
        {
            m_s.do_rmw(s);
            m_v = d;
            note_progress();
            point_after();
            return true;
        }
        m_s.do_load(f);
        e = m_v;
        return false;
    }
    bool compare_exchange_strong(T& e, T d, std::memory_order s, std::memory_order f) noexcept { return cas(e, d, s, f, false); }
    bool compare_exchange_weak(T& e, T d, std::memory_order s, std::memory_order f) noexcept { return cas(e, d, s, f, true); }
    bool compare_exchange_strong(T& e, T d, std::memory_order s = std::memory_order_seq_cst) noexcept { return cas(e, d, s, fail_order(s), false); }
    bool compare_exchange_weak(T& e, T d, std::memory_order s = std::memory_order_seq_cst) noexcept { return cas(e, d, s, fail_order(s), true); }

    template<typename F> T rmw(F f, std::memory_order mo) noexcept
    {
        point();
        m_s.do_rmw(mo);
        T o = m_v; m_v = f(o);
        note_progress();
        point_after();
        return o;
    }
    template<typename D> T fetch_add(D d, std::memory_order mo = std::memory_order_seq_cst) noexcept { return rmw([&](T o) { return static_cast<T>(o + d); }, mo); }
    template<typename D> T fetch_sub(D d, std::memory_order mo = std::memory_order_seq_cst) noexcept { return rmw([&](T o) { return static_cast<T>(o - d); }, mo); }
    template<typename D> T fetch_or(D d, std::memory_order mo = std::memory_order_seq_cst) noexcept { return rmw([&](T o) { return static_cast<T>(o | d); }, mo); }
    template<typename D> T fetch_and(D d, std::memory_order mo = std::memory_order_seq_cst) noexcept { return rmw([&](T o) { return static_cast<T>(o & d); }, mo); }
    template<typename D> T fetch_xor(D d, std::memory_order mo = std::memory_order_seq_cst) noexcept { return rmw([&](T o) { return static_cast<T>(o ^ d); }, mo); }
    T operator++() noexcept { return static_cast<T>(fetch_add(1) + 1); }
    T operator--() noexcept { return static_cast<T>(fetch_sub(1) - 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    template<typename D> T operator+=(D d) noexcept { return static_cast<T>(fetch_add(d) + d); }
    template<typename D> T operator-=(D d) noexcept { return static_cast<T>(fetch_sub(d) - d); }
    template<typename D> T operator|=(D d) noexcept { return static_cast<T>(fetch_or(d) | d); }
    template<typename D> T operator&=(D d) noexcept { return static_cast<T>(fetch_and(d) & d); }

    struct WaitArg { const atomic* a; T old; };
    void wait(T old, std::memory_order mo = std::memory_order_seq_cst) const noexcept
    {
        point();
        WaitArg w{this, old};
        if (same(m_v, old))
            block([](void* p) { auto* w = static_cast<WaitArg*>(p); return !same(w->a->m_v, w->old); }, &w);
        m_s.do_load(mo);
    }
    void notify_one() noexcept { point(); }
    void notify_all() noexcept { point(); }

private:
    static bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
    T               m_v;
    mutable SyncVar m_s;
};

using atomic_bool   = atomic<bool>;
using atomic_int    = atomic<int>;
using atomic_uint   = atomic<unsigned>;
using atomic_long   = atomic<long>;
using atomic_size_t = atomic<std::size_t>;
using atomic_uint32_t = atomic<uint32_t>;
using atomic_uint64_t = atomic<uint64_t>;
using atomic_int64_t  = atomic<int64_t>;
using atomic_ptrdiff_t = atomic<std::ptrdiff_t>;

class atomic_flag
{
    atomic<bool> m_b{false};
public:
    constexpr atomic_flag() noexcept = default;
    bool test(std::memory_order mo = std::memory_order_seq_cst) const noexcept { return m_b.load(mo); }
    bool test_and_set(std::memory_order mo = std::memory_order_seq_cst) noexcept { return m_b.exchange(true, mo); }
    void clear(std::memory_order mo = std::memory_order_seq_cst) noexcept { m_b.store(false, mo); }
    void wait(bool o, std::memory_order mo = std::memory_order_seq_cst) const noexcept { m_b.wait(o, mo); }
    void notify_one() noexcept { point(); }
    void notify_all() noexcept { point(); }
};

void fence(std::memory_order mo) noexcept;
inline void atomic_thread_fence(std::memory_order mo) noexcept { fence(mo); }

class mutex
{
public:
    constexpr mutex() noexcept = default;
    mutex(const mutex&)                    = delete;
    auto operator=(const mutex&) -> mutex& = delete;
    using native_handle_type = void*;
    void lock()
    {
        point();
        if (!active()) { m_l = true; return; }
        while (m_l) block([](void* p) { return !*static_cast<bool*>(p); }, &m_l);
        m_l = true;
        if (m_s.vc) clock_mut().join(*m_s.vc);
    }
    bool try_lock()
    {
        point();
        if (m_l) return false;
        m_l = true;
        if (active() && m_s.vc) clock_mut().join(*m_s.vc);
        return true;
    }
    void unlock()
    {
        point();
        if (active()) { m_s.get() = clock_of_self(); tick(); }
        m_l = false;
        note_progress();
        point_after();
    }
private:
    bool    m_l{false};
    SyncVar m_s;
};
using timed_mutex = mutex;

class recursive_mutex
{
    mutex m_m; int m_owner{-1}; int m_n{0};
public:
    void lock() { if (m_n > 0 && m_owner == self()) { ++m_n; return; } m_m.lock(); m_owner = self(); m_n = 1; }
    bool try_lock() { if (m_n > 0 && m_owner == self()) { ++m_n; return true; } if (!m_m.try_lock()) return false; m_owner = self(); m_n = 1; return true; }
    void unlock() { if (--m_n == 0) { m_owner = -1; m_m.unlock(); } }
};

class shared_mutex
{
    bool m_x{false}; int m_r{0}; SyncVar m_s;
    void acq() { if (active() && m_s.vc) clock_mut().join(*m_s.vc); }
    void rel() { if (active()) { m_s.get().join(clock_of_self()); tick(); } }
public:
    void lock() { point(); while (m_x || m_r) block([](void* p) { auto* s = static_cast<shared_mutex*>(p); return !s->m_x && !s->m_r; }, this); m_x = true; acq(); }
    bool try_lock() { point(); if (m_x || m_r) return false; m_x = true; acq(); return true; }
    void unlock() { point(); rel(); m_x = false; note_progress(); point_after(); }
    void lock_shared() { point(); while (m_x) block([](void* p) { auto* s = static_cast<shared_mutex*>(p); return !s->m_x; }, this); ++m_r; acq(); }
    bool try_lock_shared() { point(); if (m_x) return false; ++m_r; acq(); return true; }
    void unlock_shared() { point(); rel(); --m_r; note_progress(); point_after(); }
};

struct steady_clock
{
    using duration   = std::chrono::nanoseconds;
    using rep        = duration::rep;
    using period     = duration::period;
    using time_point = std::chrono::time_point<steady_clock>;
    static constexpr bool is_steady = true;
    static time_point now() noexcept { return time_point(duration(now_ns())); }
};
struct system_clock
{
    using duration   = std::chrono::nanoseconds;
    using rep        = duration::rep;
    using period     = duration::period;
    using time_point = std::chrono::time_point<system_clock>;
    static constexpr bool is_steady = false;
    static time_point now() noexcept { return time_point(duration(now_ns())); }
};
using high_resolution_clock = steady_clock;

struct CvWaiter { bool notified{false}; };
class condition_variable_any
{
public:
    condition_variable_any() = default;
    condition_variable_any(const condition_variable_any&) = delete;
    template<typename L> void wait(L& lk) { (void)wait_ns(lk, -1); }
    template<typename L, typename P> void wait(L& lk, P p) { while (!p()) wait(lk); }
    template<typename L, typename R, typename Pd> std::cv_status wait_for(L& lk, const std::chrono::duration<R, Pd>& d)
    {
        return wait_ns(lk, now_ns() + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) ? std::cv_status::no_timeout : std::cv_status::timeout;
    }
    template<typename L, typename R, typename Pd, typename P> bool wait_for(L& lk, const std::chrono::duration<R, Pd>& d, P p)
    {
        int64_t dl = now_ns() + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
        while (!p()) if (!wait_ns(lk, dl)) return p();
        return true;
    }
    template<typename L, typename C, typename D> std::cv_status wait_until(L& lk, const std::chrono::time_point<C, D>& tp)
    {
        return wait_ns(lk, std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count()) ? std::cv_status::no_timeout : std::cv_status::timeout;
    }
    template<typename L, typename C, typename D, typename P> bool wait_until(L& lk, const std::chrono::time_point<C, D>& tp, P p)
    {
        while (!p()) if (wait_until(lk, tp) == std::cv_status::timeout) return p();
        return true;
    }
    void notify_one() noexcept
    {
        point();
        std::vector<CvWaiter*> c;
        for (auto* w : m_w) if (!w->notified) c.push_back(w);
        if (!c.empty()) c[rnd(c.size())]->notified = true;
        note_progress();
        point_after();
    }
    void notify_all() noexcept
    {
        point();
        for (auto* w : m_w) w->notified = true;
        note_progress();
        point_after();
    }
private:
    template<typename L> bool wait_ns(L& lk, int64_t dl)
    {
        if (!active()) std::abort();
        CvWaiter w;
        m_w.push_back(&w);
        // The release of the lock and the start of the wait are one atomic step.
        lk.unlock();
        if (config().spurious && rnd(config().spurious) == 0) w.notified = true;
        if (!w.notified)
            block([](void* p) { return static_cast<CvWaiter*>(p)->notified; }, &w, dl);
        bool n = w.notified;
        for (size_t i = 0; i < m_w.size(); ++i) if (m_w[i] == &w) { m_w.erase(m_w.begin() + i); break; }
        lk.lock();
        return n;
    }
    std::vector<CvWaiter*> m_w;
};
using condition_variable = condition_variable_any;

class thread
{
public:
    class id
    {
        int v{-1};
    public:
        id() = default;
        explicit id(int x) : v(x) {}
        auto operator<=>(const id&) const = default;
        int value() const { return v; }
        template<typename S> friend S& operator<<(S& s, const id& i) { s << i.v; return s; }
    };
    using native_handle_type = unsigned long;
    thread() noexcept = default;
    template<typename F, typename... A>
        requires(!std::is_same_v<std::remove_cvref_t<F>, thread>)
    explicit thread(F&& f, A&&... a)
    {
        auto t = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
        m_id   = spawn([t]() { std::apply([](auto&& f, auto&&... a) { std::invoke(std::move(f), std::move(a)...); }, std::move(*t)); });
        point_after();
    }
    thread(const thread&) = delete;
    thread(thread&& o) noexcept : m_id(std::exchange(o.m_id, -1)) {}
    thread& operator=(thread&& o) noexcept { if (m_id >= 0) std::terminate(); m_id = std::exchange(o.m_id, -1); return *this; }
    ~thread() { if (m_id >= 0) std::terminate(); }
    bool joinable() const noexcept { return m_id >= 0; }
    void join()
    {
        if (m_id < 0) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
        if (m_id == self()) throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
        point();
        int f = m_id;
        if (!finished(f)) block([](void* p) { return finished(*static_cast<int*>(p)); }, &f);
        join_clock(f);
        m_id = -1;
    }
    void detach() { m_id = -1; }
    id get_id() const noexcept { return id(m_id); }
    static unsigned hardware_concurrency() noexcept { return 3; }
    unsigned long native_handle() { return 0; }
    void swap(thread& o) noexcept { std::swap(m_id, o.m_id); }
private:
    int m_id{-1};
};
class jthread : public thread
{
public:
    using thread::thread;
    jthread(jthread&&) = default;
    jthread& operator=(jthread&& o) { if (joinable()) join(); thread::operator=(std::move(o)); return *this; }
    ~jthread() { if (joinable()) join(); }
};

namespace this_thread
{
inline thread::id get_id() noexcept { return thread::id(self()); }
inline void yield() noexcept { spin_hint(); }
void sleep_ns(int64_t ns);
template<typename R, typename P> void sleep_for(const std::chrono::duration<R, P>& d) { sleep_ns(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); }
template<typename C, typename D> void sleep_until(const std::chrono::time_point<C, D>& t) { sleep_ns(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count() - raw_now()); }
} // namespace this_thread

struct once_flag { int st{0}; SyncVar s; };
template<typename F, typename... A> void call_once(once_flag& o, F&& f, A&&... a)
{
    point();
    while (o.st == 1) block([](void* p) { return static_cast<once_flag*>(p)->st != 1; }, &o);
    if (o.st == 0)
    {
        o.st = 1;
        try { std::invoke(std::forward<F>(f), std::forward<A>(a)...); } catch (...) { o.st = 0; throw; }
        if (active()) { o.s.get() = clock_of_self(); tick(); }
        o.st = 2; note_progress();
    }
    else if (active() && o.s.vc) clock_mut().join(*o.s.vc);
}

template<std::ptrdiff_t M = 1000000>
class counting_semaphore
{
    std::ptrdiff_t n; SyncVar s;
    void acq() { if (active() && s.vc) clock_mut().join(*s.vc); }
public:
    explicit counting_semaphore(std::ptrdiff_t i) : n(i) {}
    void acquire() { point(); while (n <= 0) block([](void* p) { return static_cast<counting_semaphore*>(p)->n > 0; }, this); --n; acq(); }
    bool try_acquire() { point(); if (n <= 0) return false; --n; acq(); return true; }
    void release(std::ptrdiff_t k = 1) { point(); if (active()) { s.get().join(clock_of_self()); tick(); } n += k; note_progress(); }
};
using binary_semaphore = counting_semaphore<1>;

// user data whose accesses must be ordered by happens-before; ok() == false once two were not
class cell
{
    VC   m_w, m_r;
    bool m_any{false};
public:
    bool read() { if (!active()) return true; bool ok = m_w.leq(clock_of_self()); m_r.c[self()] = clock_of_self().c[self()]; return ok; }
    bool write()
    {
        if (!active()) return true;
        bool ok = m_w.leq(clock_of_self()) && m_r.leq(clock_of_self());
        m_w.clear(); m_w.c[self()] = clock_of_self().c[self()];
        m_r.clear();
        return ok;
    }
};
// vxrace.cpp, where it is linked in: do not check the accesses made meanwhile (approximate getters that take no lock)
__attribute__((weak)) void race_mute(int);
struct unchecked
{
    unchecked() { if (race_mute) race_mute(1); }
    ~unchecked() { if (race_mute) race_mute(-1); }
};
// orders the uses of something that is used by one at a time; only where races are looked for
struct handover
{
    VC c;
    void take() { if (race_mute && active()) clock_mut().join(c); }
    void give() { if (race_mute && active()) { c.join(clock_of_self()); tick(); } }
    void clear() { c.clear(); }
};
// a moment in the past of some thread; seen() tells if it happens-before now
struct stamp
{
    int f{-1}; uint32_t t{0};
    void set() { if (active()) { f = self(); t = clock_of_self().c[f]; tick(); } }
    bool seen() const { return f < 0 || !active() || clock_of_self().c[f] >= t; }
};
} // namespace vx

// hx: executes small concurrent programs against the real library under vx and records traces.
#pragma once
#include "vx.hpp"
#include <cassert>
#include <coroutine>
#include <cstdio>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace hx
{
// ---- trace ------------------------------------------------------------------------------------
void log_raw(const std::string& json_array);
inline void ev_put(std::string&) {}
inline void ev_one(std::string& s, const char* v) { s += '"'; s += v; s += '"'; }
inline void ev_one(std::string& s, const std::string& v) { s += '"' + v + '"'; }
template<typename T> requires std::is_integral_v<T> void ev_one(std::string& s, T v) { s += std::to_string(v); }
template<typename T> void ev_one(std::string& s, const std::vector<T>& v)
{
    s += '['; bool f = true;
    for (auto& x : v) { if (!f) s += ','; f = false; ev_one(s, x); }
    s += ']';
}
template<typename H, typename... T> void ev_put(std::string& s, const H& h, const T&... t)
{
    if (s.size() > 1) s += ',';
    ev_one(s, h);
    ev_put(s, t...);
}
template<typename... T> void log(const T&... t)
{
    std::string s = "[";
    ev_put(s, t...);
    s += ']';
    log_raw(s);
}

// ---- programs ----------------------------------------------------------------------------------
struct Op
{
    int         c{0};
    std::string op;
    int         a{0}, b{0};
    int         phase{0};
};
struct Program
{
    long             id{0};
    int              nsched{1};
    uint64_t         base{0};
    std::vector<int> par;
    std::vector<Op>  ops;
    int              phases{1};
    int              ncoro{0};
};
struct Res
{
    std::string s{"ok"};
    long        v{0};
    bool        vis{true};
    bool        skip{false};
};

// ---- coroutine types independent of the library ---------------------------------------------------
struct Sub
{
    struct promise_type
    {
        std::coroutine_handle<> cont;
        std::exception_ptr      ex;
        Sub get_return_object() { return Sub{std::coroutine_handle<promise_type>::from_promise(*this)}; }
        std::suspend_always initial_suspend() noexcept { return {}; }
        struct Fin
        {
            bool await_ready() noexcept { return false; }
            std::coroutine_handle<> await_suspend(std::coroutine_handle<promise_type> h) noexcept { return h.promise().cont; }
            void await_resume() noexcept {}
        };
        Fin  final_suspend() noexcept { return {}; }
        void return_void() {}
        void unhandled_exception() { ex = std::current_exception(); }
    };
    std::coroutine_handle<promise_type> h;
    explicit Sub(std::coroutine_handle<promise_type> x) : h(x) {}
    Sub(Sub&& o) noexcept : h(std::exchange(o.h, nullptr)) {}
    ~Sub() { if (h) h.destroy(); }
    bool await_ready() { return false; }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) { h.promise().cont = c; return h; }
    void await_resume() { if (h.promise().ex) std::rethrow_exception(h.promise().ex); }
};
struct Det // detached root coroutine, frees itself at its end
{
    struct promise_type
    {
        Det get_return_object() { return Det{std::coroutine_handle<promise_type>::from_promise(*this)}; }
        std::suspend_always initial_suspend() noexcept { return {}; }
        std::suspend_never  final_suspend() noexcept { return {}; }
        void return_void() {}
        void unhandled_exception() { log("unhandled"); }
    };
    std::coroutine_handle<promise_type> h;
};

// ---- a world: one instance of the component under test ---------------------------------------------
struct World
{
    const Program* prog{nullptr};
    int            cur_phase{0};
    std::map<int, std::coroutine_handle<>> gated;
    std::set<int>  pending;
    bool           finishing{false};

    virtual ~World() = default;
    virtual void start(const Program&) {}
    virtual Sub  exec(int c, const Op& op, Res& r) = 0;
    virtual bool skip(int, const Op&) { return false; }
    virtual void before_quiesce(int) {}
    virtual void after_quiesce(int) {}           // log observations at a quiescent point
    virtual void finish() {}                     // last actions, on the main fiber
    virtual bool own_log(const Op&) { return false; }  // exec logs call/ret itself
    virtual bool log_q() { return true; }
    virtual bool one_at_a_time() { return false; }     // the objects are used by one coroutine at a time
    vx::handover   turn;
};
struct GateAw
{
    World& w; int c; vx::VC saved;
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> h) { saved = vx::clock_of_self(); vx::tick(); w.gated[c] = h; }
    void await_resume() { vx::clock_mut().join(saved); }
};

// FIFO executor with worker fibers; satisfies coro::concepts::executor where that is included
class Exec;

int harness_main(int argc, char** argv, World* (*make)(const Program&), void (*tune)(const Program&, vx::Config&) = nullptr);
} // namespace hx

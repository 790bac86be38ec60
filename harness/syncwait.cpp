// C14 world: coro::sync_wait, each on a thread of its own. "sw": a = group (operation 8a, nested one 8a+1),
// b = kind | type<<3 | nested<<6 | kind of the nested one << 7
#include "drive.hpp"
#include "coro/event.hpp"
#include "coro/sync_wait.hpp"
#include "coro/task.hpp"
#include "coro/when_all.hpp"
using namespace hx;
struct NewThread { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { vx::thread([h]() { h.resume(); }).detach(); } void await_resume() {} };
struct MoveOnly { int v; std::unique_ptr<int> p; explicit MoveOnly(int x) : v(x), p(new int(x)) {} MoveOnly(MoveOnly&& o) : v(o.v), p(std::move(o.p)) {} MoveOnly& operator=(MoveOnly&&) = delete; };
struct Fixed { int v; std::string s; explicit Fixed(int x) : v(x), s(std::to_string(x) + " which needs memory of its own") {} Fixed(const Fixed&) = default; Fixed(Fixed&&) = delete; Fixed& operator=(const Fixed&) = delete; };
struct W : World
{
    Driver d;
    std::map<int, vx::stamp> st;
    std::map<int, int> refs;
    explicit W(const Program& p) : d(p.par[0]) {}
    struct In { int id; int kind; int nid; int nkind; };
    // kinds: 0 at once, 1 throws at once, 2 hop, 3 hop and throw, 4 gate, 5 two hops and throw, 6 two hops, 7 gate and throw
    Sub run(In in)
    {
        d.begin(in.id);
        vx::point();
        if (in.nid)
        {
            long w = -1;
            try { w = coro::sync_wait(ti(In{in.nid, in.nkind, 0, 0}, lv())) == in.nid ? 1 : 9; } catch (const ChildError& e) { w = e.id == in.nid ? 2 : 9; }
            log("nest", in.nid, w, st[in.nid].seen() ? 1 : 0);
        }
        if (in.kind == 2 || in.kind == 3 || in.kind == 6 || in.kind == 5) co_await d.hop(in.id);
        if (in.kind == 6 || in.kind == 5) co_await d.hop(in.id);
        if (in.kind == 4 || in.kind == 7) co_await d.wait(in.id);
        vx::point();
        st[in.id].set();
        d.end(in.id, false, in.kind < 2);
        if (in.kind & 1) throw ChildError{in.id};
    }
    coro::task<int> ti(In in, Live l) { co_await run(in); co_return in.id; }
    coro::task<void> tv(In in, Live l) { co_await run(in); }
    coro::task<MoveOnly> tm(In in, Live l) { co_await run(in); co_return MoveOnly(in.id); }
    coro::task<int&> tr(In in, Live l) { co_await run(in); refs[in.id] = in.id; co_return refs[in.id]; }
    coro::task<const int&> tcr(In in, Live l) { co_await run(in); refs[in.id] = in.id; co_return refs[in.id]; }
    coro::task<void> ev(In in, coro::event& e, Live l) { co_await run(in); e.set(); }
    template<typename R> struct Aw
    {
        Sub s; W& w; int id;
        bool await_ready() { return false; } std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { return s.await_suspend(h); }
        R await_resume() { s.await_resume(); if constexpr (std::is_reference_v<R>) { w.refs[id] = id; return static_cast<R>(w.refs[id]); } else return R(id); }
    };
    Live lv() { return Live(&d.live); }
    Sub exec(int c, const Op& op, Res& r) override
    {
        if (op.op == "go") { d.go(); co_return; }
        int id = 8 * op.a, type = op.b >> 3 & 7;
        In in{id, op.b & 7, op.b >> 6 & 1 ? id + 1 : 0, op.b >> 7 & 7};
        co_await NewThread{};
        bool good = false;
        try
        {
            if (type == 0) good = coro::sync_wait(ti(in, lv())) == id;
            else if (type == 1) { coro::sync_wait(tv(in, lv())); good = true; }
            else if (type == 2) { auto x = coro::sync_wait(tm(in, lv())); good = x.v == id && x.p && *x.p == id; }
            else if (type == 3) { auto& x = coro::sync_wait(tr(in, lv())); good = refs.count(id) && &x == &refs[id]; }
            else if (type == 4) { const auto& x = coro::sync_wait(tcr(in, lv())); good = refs.count(id) && &x == &refs[id]; }
            else if (type == 5) { auto x = coro::sync_wait(Aw<Fixed>{run(in), *this, id}); good = x.v == id && x.s == std::to_string(id) + " which needs memory of its own"; }
            else if (type == 6)
            {   // a task that is kept: its result stays with it
                auto t = tm(in, lv());
                const auto& x = coro::sync_wait(t);
                good = x.v == id && x.p && *x.p == id && t.is_ready() && &t.promise().result() == &x;
            }
            else { auto x = coro::sync_wait(coro::when_all(ti(in, lv()))); good = std::get<0>(x).return_value() == id; }
            r.v = good ? 1 : 9;
        }
        catch (const ChildError& e) { r.v = e.id == id ? 2 : 9; }
        r.vis = st.count(id) && st[id].seen();
    }
    void finish() override
    {
        log("call", 8, "go", 0, 0); d.go(); log("ret", 8, "go", "ok", 0, 1);
        vx::quiesce();
        log("q", std::vector<int>(pending.begin(), pending.end()));
        log("gone", d.live);
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }

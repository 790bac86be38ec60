// C11 world: one coro::scheduler. par: pool threads (0 = inline), drivers (0 = dedicated event loop thread)
#include "hx.hpp"
#include "vxio.hpp"
#include "coro/scheduler.hpp"
#include "coro/task_group.hpp"
using namespace hx;
struct NewThread { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { vx::thread([h]() { h.resume(); }).detach(); } void await_resume() {} };
struct Live { int* n; explicit Live(int* p) : n(p) { ++*n; } Live(Live&& o) : n(o.n) { ++*n; } ~Live() { --*n; } };
struct W : World
{
    std::unique_ptr<coro::scheduler> s;
    std::set<int> workers, loops;
    bool open{false}, stop{false}, inl;
    int live{0}, drivers{0};
    std::vector<vx::thread> dt;
    explicit W(const Program& p)
    {
        vx::io_reset();
        inl = p.par[0] == 0;
        coro::scheduler::options o;
        o.thread_strategy = p.par[1] ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn;
        o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
        o.on_io_thread_start_functor = [this]() { loops.insert(vx::self()); };
        o.on_io_thread_stop_functor = [this]() { loops.erase(vx::self()); log("wstop"); };
        o.pool.thread_count = uint32_t(p.par[0]);
        o.pool.on_thread_start_functor = [this](std::size_t) { workers.insert(vx::self()); };
        o.pool.on_thread_stop_functor = [this](std::size_t) { workers.erase(vx::self()); log("wstop"); };
        s = coro::scheduler::make_unique(o);
        for (drivers = 0; drivers < p.par[1]; ++drivers)
            dt.emplace_back([this, d = drivers]() {
                loops.insert(vx::self());
                while (!stop)
                {
                    if (d == 1) vx::block_idle([](void* p) { return *static_cast<bool*>(p); }, &stop, vx::raw_now() + 1000000);
                    s->process_events(std::chrono::milliseconds{d == 1 ? 0 : 7});
                    if (d == 0 && p_busy()) vx::block_idle([](void* p) { return *static_cast<bool*>(p); }, &stop, vx::raw_now() + 1000000);
                }
                loops.erase(vx::self());
            });
    }
    bool p_busy() { return drivers > 1; }
    bool here() { return (inl ? loops : workers).count(vx::self()) > 0; }
    void started(int id, vx::stamp& st) { log("start", id, here() ? 1 : 0, st.seen() ? 1 : 0); }
    coro::task<void> rest(int id, int b)
    {
        vx::point();
        if (b & 2)
        {
            vx::stamp s2; s2.set();
            log("y", id);
            bool ref = false;
            try { co_await s->yield(); } catch (const std::runtime_error&) { ref = true; }
            if (ref) log("yref", id); else started(id, s2);
        }
        if (b & 1) vx::block([](void* p) { return static_cast<W*>(p)->open; }, this);
        log("fin", id);
    }
    Det item(int id, int b, vx::stamp st) { started(id, st); co_await rest(id, b); }
    coro::task<void> titem(int id, int b, vx::stamp st, Live) { started(id, st); co_await rest(id, b); if (b & 4) throw std::runtime_error("item"); }
    Det sitem(int id, int b, std::shared_ptr<std::string> out)
    {
        vx::stamp st; st.set();
        try { co_await s->schedule(); } catch (const std::runtime_error&) { *out = "refused"; co_return; }
        started(id, st);
        co_await rest(id, b);
    }
    // schedule(task): on another coroutine, the way sync_wait uses it
    Det stask(int id, int b, std::shared_ptr<std::string> out)
    {
        vx::stamp st; st.set();
        try { co_await s->schedule(titem(id, b & ~4, st, Live(&live))); } catch (const std::runtime_error&) { *out = "refused"; }
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        vx::stamp st; st.set();
        if (op.op == "sched")
        {
            auto out = std::make_shared<std::string>("ok");
            if (op.b & 8) stask(op.a, op.b, out).h.resume(); else sitem(op.a, op.b, out).h.resume();
            r.s = *out; r.v = r.s == "ok" ? 1 : 0;
        }
        else if (op.op == "resume")
        {
            auto h = item(op.a, op.b, st).h;
            if (s->resume(h)) r.v = 1; else { r.s = "refused"; h.destroy(); }
        }
        else if (op.op == "spawn") { if (s->spawn_detached(titem(op.a, op.b, st, Live(&live)))) r.v = 1; else r.s = "refused"; }
        else if (op.op == "join")
        {
            bool ran = false;
            auto wrap = [](W& w, int a, int b, vx::stamp st, bool* ran) -> coro::task<void> {
                *ran = true;
                co_await w.titem(a, b, st, Live(&w.live));
            };
            { auto j = s->spawn_joinable(wrap(*this, op.a, op.b, st, &ran)); co_await j; }
            if (ran) r.v = 1; else r.s = "refused";
        }
        else if (op.op == "range")
        {
            std::vector<std::coroutine_handle<>> v{item(op.a, op.b, st).h, item(op.a + 1, op.b, st).h};
            v.insert(v.begin() + ((op.b >> 2) % 3), std::coroutine_handle<>{});
            r.v = long(s->resume(v));
            if (r.v == 0) { r.s = "refused"; for (auto h : v) if (h) h.destroy(); }
        }
        else if (op.op == "null") { r.s = s->resume(nullptr) ? "ok" : "refused"; }
        else if (op.op == "shutdown") { co_await NewThread{}; s->shutdown(); }
        else if (op.op == "free") open = true, vx::note_progress();
        co_return;
    }
    void after_quiesce(int) override { log("size", s->size()); }
    void finish() override
    {
        open = true;
        vx::note_progress();
        log("call", 8, "free", 0, 0); log("ret", 8, "free", "ok", 0, 1);
        vx::quiesce();
        log("q", std::vector<int>{});
        after_quiesce(0);
        stop = true; vx::note_progress();
        for (auto& t : dt) t.join();
        log("call", 8, "shutdown", 0, 0);
        s.reset();
        log("gone", live);
        log("ret", 8, "shutdown", "ok", 0, 1);
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }

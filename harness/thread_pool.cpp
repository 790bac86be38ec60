// C09 world: one coro::thread_pool. par: threads, on-start delay
#include "hx.hpp"
#include "coro/thread_pool.hpp"
#include "coro/task_group.hpp"
using namespace hx;
struct W : World
{
    std::unique_ptr<coro::thread_pool> tp;
    std::set<int> workers;
    bool open{false};
    int live{0};
    struct Live { int* n; explicit Live(int* p) : n(p) { ++*n; } Live(Live&& o) : n(o.n) { ++*n; } ~Live() { --*n; } };
    explicit W(const Program& p)
    {
        coro::thread_pool::options o;
        o.thread_count = uint32_t(p.par[0]);
        o.on_thread_start_functor = [this](std::size_t) { workers.insert(vx::self()); };
        o.on_thread_stop_functor = [this](std::size_t i) { workers.erase(vx::self()); log("wstop"); };
        tp = coro::thread_pool::make_unique(o);
    }
    void started(int id, vx::stamp& st) { log("start", id, workers.count(vx::self()) ? 1 : 0, st.seen() ? 1 : 0); }
    // b: 1 hold, 2 yield once, 4 shuts the pool down itself
    coro::task<void> rest(int id, int b, vx::stamp* st)
    {
        vx::point();
        if (b & 2)
        {
            vx::stamp s2; s2.set();
            log("y", id);
            bool ref = false;
            try { co_await tp->yield(); } catch (const std::runtime_error&) { ref = true; }
            if (ref) log("yref", id); else started(id, s2);
        }
        if (b & 1) vx::block([](void* p) { return static_cast<W*>(p)->open; }, this);
        if ((b & 12) == 12) { log("sd", id); tp->shutdown(); }
        log("fin", id);
    }
    Det item(int id, int b, vx::stamp st) { started(id, st); co_await rest(id, b, &st); }
    coro::task<void> titem(int id, int b, vx::stamp st, Live) { started(id, st); co_await rest(id, b, &st); }
    Det sitem(int id, int b, std::shared_ptr<std::string> out)
    {
        vx::stamp st; st.set();
        try { co_await tp->schedule(); } catch (const std::runtime_error&) { *out = "refused"; co_return; }
        started(id, st);
        co_await rest(id, b, &st);
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        vx::stamp st; st.set();
        if (op.op == "sched") { auto out = std::make_shared<std::string>("ok"); sitem(op.a, op.b, out).h.resume(); r.s = *out; r.v = r.s == "ok" ? 1 : 0; }
        else if (op.op == "resume")
        {
            auto h = item(op.a, op.b, st).h;
            if (tp->resume(h)) r.v = 1; else { r.s = "refused"; h.destroy(); }
        }
        else if (op.op == "spawn") { if (tp->spawn_detached(titem(op.a, op.b, st, Live(&live)))) r.v = 1; else r.s = "refused"; }
        else if (op.op == "range")
        {
            std::vector<std::coroutine_handle<>> v{item(op.a, op.b, st).h, item(op.a + 1, op.b, st).h};
            v.insert(v.begin() + (op.b >> 2), std::coroutine_handle<>{});
            r.v = long(tp->resume(v));
            if (r.v == 0) { r.s = "refused"; for (auto h : v) if (h) h.destroy(); }
        }
        else if (op.op == "null") { r.s = tp->resume(nullptr) ? "ok" : "refused"; }
        else if (op.op == "shutdown") tp->shutdown();
        else if (op.op == "free") open = true, vx::note_progress();
        co_return;
    }
    void after_quiesce(int) override { log("size", tp->size(), tp->queue_size()); }
    void finish() override
    {
        open = true;
        vx::note_progress();
        log("call", 8, "free", 0, 0); log("ret", 8, "free", "ok", 0, 1);
        vx::quiesce();
        log("q", std::vector<int>{});
        after_quiesce(0);
        log("call", 8, "shutdown", 0, 0);
        tp.reset();
        log("gone", live);
        log("ret", 8, "shutdown", "ok", 0, 1);
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }

// C21 world: coro::scheduler::schedule(task, timeout) with and without a stop source.
// par: pool threads (0 = inline), manual, strict (1 = time moves only when idle)
#include "hx.hpp"
#include "vxio.hpp"
#include "coro/when_any.hpp"
#include "coro/scheduler.hpp"
using namespace hx;
using namespace std::chrono_literals;
static const int64_t LIM[] = {0, -1000, 500000, 1000000, 1900000, 2000000, 5000000, 20000000};
static const int64_t NAP[] = {0, 400000, 500000, 1000000, 1900000, 2000000, 3000000, 30000000};
struct Live { int* n; explicit Live(int* p) : n(p) { ++*n; } Live(Live&& o) : n(o.n) { ++*n; } ~Live() { --*n; } };
struct W : World
{
    std::unique_ptr<coro::scheduler> s;
    bool stop{false}, inl, manual, open{false};
    int live{0};
    std::vector<vx::thread> dt;
    std::vector<std::coroutine_handle<>> waiting;
    explicit W(const Program& p)
    {
        vx::io_reset();
        inl = p.par[0] == 0; manual = p.par[1] != 0;
        coro::scheduler::options o;
        o.thread_strategy = manual ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn;
        o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
        o.pool.thread_count = uint32_t(p.par[0]);
        s = coro::scheduler::make_unique(o);
        if (manual) dt.emplace_back([this]() { while (!stop) s->process_events(std::chrono::milliseconds{7}); });
    }
    struct Gate
    {
        W& w; vx::VC saved{};
        bool await_ready() { return w.open; }
        void await_suspend(std::coroutine_handle<> h) { saved = vx::clock_of_self(); vx::tick(); w.waiting.push_back(h); }
        void await_resume() { vx::clock_mut().join(saved); }
    };
    void open_gate() { open = true; vx::note_progress(); auto v = std::move(waiting); waiting.clear(); for (auto h : v) h.resume(); }
    // how: 0 at once, 1 on the scheduler, 2 after a while, 3 at the gate, 4 polls its stop token, + 8 throws
    coro::task<int> work(int id, int how, int nap, std::optional<std::stop_token> st, int64_t t0, Live)
    {
        log("begin", id);
        if (how != 0) co_await s->schedule();
        if (how == 2) co_await s->yield_for(std::chrono::nanoseconds(NAP[nap % 8]));
        else if (how == 3) co_await Gate{*this, {}};
        else if (how == 4) while (!open && !(st && st->stop_requested())) co_await s->yield_for(700us);
        vx::point();
        log("fin", id, st && st->stop_requested() ? 1 : 0, long((vx::raw_now() - t0) / 1000));
        if ((id / 2) % 5 == 0) throw std::runtime_error("work");
        co_return id * 3;
    }
    coro::task<void> vwork(int id, int how, int nap, std::optional<std::stop_token> st, int64_t t0, Live l) { (void)co_await work(id, how, nap, st, t0, std::move(l)); }
    coro::task<std::string> mwork(int id, int how, int nap, std::optional<std::stop_token> st, int64_t t0, Live l) { co_return std::to_string(co_await work(id, how, nap, st, t0, std::move(l))) + " and a text that needs memory of its own"; }
    // b: limit (8) | how (5) *8 | nap (8) *40 | kind (3) *320 | stop source *960
    Sub exec(int c, const Op& op, Res& r) override
    {
        if (op.op == "go") { open_gate(); co_return; }
        int64_t lim = LIM[op.b % 8]; int how = op.b / 8 % 5, nap = op.b / 40 % 8, kind = op.b / 320 % 3; bool ss = op.b / 960 % 2;
        if (how == 4 && !(ss && lim > 0)) how = 3;
        std::stop_source src;
        std::optional<std::stop_token> tok;
        if (ss) tok = src.get_token();
        int64_t t0 = vx::raw_now();
        long v = -1; bool to = false, exc = false;
        auto d = std::chrono::nanoseconds(lim);
        try
        {
            if (kind == 0)
            {
                auto w = work(op.a, how, nap, tok, t0, Live(&live));
                std::optional<coro::expected<int, coro::timeout_status>> x;
                if (ss) x.emplace(co_await s->schedule(src, std::move(w), d));
                else if (lim % 1000000) x.emplace(co_await s->schedule(std::move(w), std::chrono::microseconds(lim / 1000)));
                else x.emplace(co_await s->schedule(std::move(w), std::chrono::milliseconds(lim / 1000000)));
                if (x->has_value()) v = **x; else to = x->error() == coro::timeout_status::timeout;
            }
            else if (kind == 1)
            {
                auto w = vwork(op.a, how, nap, tok, t0, Live(&live));
                std::optional<coro::expected<void, coro::timeout_status>> x;
                if (ss) x.emplace(co_await s->schedule(src, std::move(w), d));
                else x.emplace(co_await s->schedule(std::move(w), d));
                if (x->has_value()) v = op.a * 3; else to = x->error() == coro::timeout_status::timeout;
            }
            else
            {
                auto w = mwork(op.a, how, nap, tok, t0, Live(&live));
                std::optional<coro::expected<std::string, coro::timeout_status>> x;
                if (ss) x.emplace(co_await s->schedule(src, std::move(w), d));
                else x.emplace(co_await s->schedule(std::move(w), d));
                if (x->has_value()) v = x->value().ends_with("of its own") ? std::atol(x->value().c_str()) : -2; else to = x->error() == coro::timeout_status::timeout;
            }
        }
        catch (const std::runtime_error& e) { exc = std::string(e.what()) == "work"; v = -3; }
        long us = long((vx::raw_now() - t0) / 1000);
        if (to) { r.s = "timeout"; r.v = us; r.vis = !ss || src.stop_requested(); }
        else { r.s = exc ? "threw" : "ok"; r.v = exc ? 0 : v; }
        co_return;
    }
    void after_quiesce(int) override { }
    void finish() override
    {
        log("call", 8, "go", 0, 0); open_gate(); log("ret", 8, "go", "ok", 0, 1);
        vx::quiesce();
        log("q", std::vector<int>(pending.begin(), pending.end()));
        stop = true; vx::note_progress();
        for (auto& t : dt) t.join();
        s.reset();
        log("gone", live);
    }
};
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); },
        [](const Program& p, vx::Config& c) {
            uint64_t h = c.seed * 0x9e3779b97f4a7c15ull;
            if (p.par[2] == 0) c.time_adv = 12 + int((h >> 20) % 40);
        });
}

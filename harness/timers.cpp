// C12 world: timers of one coro::scheduler on virtual time.
// par: pool threads (0 = inline), manual (1 = the user drives the event loop), strict (1 = time moves only when idle)
#include "hx.hpp"
#include "vxio.hpp"
#include "coro/scheduler.hpp"
#include <fcntl.h>
using namespace hx;
struct NewThread { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { vx::thread([h]() { h.resume(); }).detach(); } void await_resume() {} };
static const int64_t DELAY[] = {0, -5, 1, 1000, 500000, 1000000, 1000001, 1900000, 2000000, 3500000, 10000000, 1500000000};
constexpr int ND = sizeof(DELAY) / sizeof(*DELAY);
static int64_t base_ns = 0;
static long ms(int64_t t) { return long((t - base_ns) / 1000000); }
static long ns(int64_t t) { return long((t - base_ns) % 1000000); }
struct W : World
{
    std::unique_ptr<coro::scheduler> s;
    std::set<int> workers, loops;
    bool stop{false}, inl, manual;
    std::vector<vx::thread> dt;
    std::map<int, std::array<int, 2>> pipes;
    explicit W(const Program& p)
    {
        vx::io_reset();
        base_ns = vx::raw_now();
        inl = p.par[0] == 0; manual = p.par[1] != 0;
        coro::scheduler::options o;
        o.thread_strategy = manual ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn;
        o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
        o.on_io_thread_start_functor = [this]() { loops.insert(vx::self()); };
        o.pool.thread_count = uint32_t(p.par[0]);
        o.pool.on_thread_start_functor = [this](std::size_t) { workers.insert(vx::self()); };
        s = coro::scheduler::make_unique(o);
        if (manual)
            dt.emplace_back([this]() {
                loops.insert(vx::self());
                while (!stop) s->process_events(std::chrono::milliseconds{7});
            });
    }
    bool here() { return (inl ? loops : workers).count(vx::self()) > 0; }
    // kind: 0 yield_for 1 schedule_after 2 yield_until 3 schedule_at
    coro::task<void> wait(int kind, int64_t d, int64_t at)
    {
        if (kind == 0) co_await s->yield_for(std::chrono::nanoseconds(d));
        else if (kind == 1) { if (d % 1000000 == 0) co_await s->schedule_after(std::chrono::milliseconds(d / 1000000)); else co_await s->schedule_after(std::chrono::nanoseconds(d)); }
        else if (kind == 2) co_await s->yield_until(vx::steady_clock::time_point(std::chrono::nanoseconds(at)));
        else co_await s->schedule_at(vx::steady_clock::time_point(std::chrono::nanoseconds(at)));
    }
    Det timer(int id, int kind, int64_t d, int more, std::shared_ptr<bool> over)
    {
        for (;; ++id, --more)
        {
            vx::stamp st; st.set();
            int64_t at = vx::raw_now() + d;
            log("arm", id, ms(std::max(at, vx::raw_now())), ns(std::max(at, vx::raw_now())));
            bool ref = false;
            try { co_await wait(kind, d, at); } catch (const std::runtime_error&) { ref = true; }
            if (ref) log("refused", id); else log("fire", id, ms(vx::raw_now()), ns(vx::raw_now()), here() ? 1 : 0, st.seen() ? 1 : 0);
            if (over) *over = true;
            over.reset();
            if (more == 0 || ref) co_return;
            vx::point();
        }
    }
    Det poller(int id, int64_t d, std::shared_ptr<bool> over)
    {
        vx::stamp st; st.set();
        int fd = pipes.at(id)[0];
        auto to = std::chrono::milliseconds((d + 999999) / 1000000);
        int64_t at = vx::raw_now() + to.count() * 1000000;
        log("arm", id, ms(at), ns(at));
        auto r = co_await s->poll(fd, coro::poll_op::read, to);
        if (r == coro::poll_status::timeout) log("fire", id, ms(vx::raw_now()), ns(vx::raw_now()), here() ? 1 : 0, st.seen() ? 1 : 0);
        else log("ready", id, r == coro::poll_status::read ? "read" : r == coro::poll_status::error ? "error" : "other", here() ? 1 : 0);
        *over = true;
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        int64_t d = DELAY[op.b / 8 % ND];
        auto over = std::make_shared<bool>(false);
        if (op.op == "tm")
        {
            int64_t t0 = vx::raw_now();
            timer(op.a, op.b % 4, d, (op.b & 4) ? 1 : 0, over).h.resume();
            int64_t n = vx::raw_now(), hi = op.b % 4 < 2 ? n + d : t0 + d;
            if (!*over && d > 0 && hi > n) log("armed", op.a, ms(hi), ns(hi));
        }
        else if (op.op == "poll")
        {
            if (d <= 0) d = 1000000;
            std::array<int, 2> p;
            if (::pipe2(p.data(), O_NONBLOCK) != 0) std::abort();
            pipes[op.a] = p;
            poller(op.a, d, over).h.resume();
            int64_t hi = vx::raw_now() + (d + 999999) / 1000000 * 1000000;
            if (!*over) log("armed", op.a, ms(hi), ns(hi));
        }
        else if (op.op == "wr")
        {
            // the descriptor of some earlier poll
            auto i = pipes.lower_bound(op.b * 7 % 97);
            if (i != pipes.end()) { log("wr", i->first); ssize_t k = ::write(i->second[1], "x", 1); (void)k; }
        }
        else if (op.op == "shutdown") { co_await NewThread{}; s->shutdown(); }
        co_return;
    }
    bool skip(int, const Op& op) override { return op.op == "shutdown" && manual && !inl; }
    void after_quiesce(int) override { log("size", s->size()); }
    void finish() override
    {
        if (!manual)
        {
            // running timers keep the scheduler alive
            for (int i = 0; i < 3; ++i)
            {
                Op o; o.c = 8; o.op = "tm"; o.a = 900 + 2 * i; o.b = int(vx::rnd(4)) + 8 * int(2 + vx::rnd(8));
                log("call", 8, o.op, o.a, o.b);
                Res r;
                { auto x = exec(8, o, r); x.h.promise().cont = std::noop_coroutine(); x.h.resume(); }
                log("ret", 8, o.op, "ok", 0, 1);
            }
        }
        else vx::quiesce();
        stop = true; vx::note_progress();
        for (auto& t : dt) t.join();
        log("call", 8, "shutdown", 0, 0);
        s.reset();
        log("ret", 8, "shutdown", "ok", 0, 1);
        log("gone");
        for (auto& [i, p] : pipes) { ::close(p[0]); ::close(p[1]); }
    }
};
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); },
        [](const Program& p, vx::Config& c) {
            if (p.par[2] == 0) { uint64_t h = c.seed * 0x9e3779b97f4a7c15ull; c.time_adv = (h >> 40) % 3 ? 12 + int((h >> 20) % 40) : 0; c.clock_jitter = (h >> 44) % 2 ? 3000 : 0; }
        });
}

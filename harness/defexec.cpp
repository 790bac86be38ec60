// C22 world: coro::default_executor, one process per run. Kind a: 0 = executor(), 1 = io_executor().
// "get" b: 0 plainly, 1 perfect() (kind 1); "work": runs something on what was returned; "opt" b = threads, in phases of its own
#include "hx.hpp"
#include "vxio.hpp"
#include "coro/default_executor.hpp"
#include "coro/scheduler.hpp"
using namespace hx;
struct W;
static W* g_w;
static vx::stamp g_built[2];
static bool g_setting = false; // options are being set: nothing is built
struct Probe // copied and moved while an executor is being built
{
    int kind; int threads; std::shared_ptr<int> alive{std::make_shared<int>(1)};
    Probe(int k, int t) : kind(k), threads(t) {}
    Probe(const Probe& o) : kind(o.kind), threads(o.threads), alive(o.alive) { if (!g_setting) g_built[kind].set(); }
    Probe(Probe&& o) : kind(o.kind), threads(o.threads), alive(std::move(o.alive)) { if (!g_setting) g_built[kind].set(); }
    void operator()(std::size_t) const;
};
struct W : World
{
    std::map<const void*, int> inst[2];
    std::map<int, int> on[2];           // fiber -> thread of the executor: its options
    int starts[2]{0, 0};
    const void* ref[2]{nullptr, nullptr};
    int set_threads[2]{0, 0};
    explicit W(const Program& p) { g_w = this; vx::io_reset(); opt(0, p.par[0]); opt(1, p.par[1]); }
    void opt(int k, int n)
    {
        g_setting = true;
        if (k == 0) { coro::thread_pool::options o{}; o.thread_count = uint32_t(n); o.on_thread_start_functor = Probe(0, n); o.on_thread_stop_functor = nullptr; coro::default_executor::set_executor_options(std::move(o)); }
        else
        {
            coro::scheduler::options o{};
            o.pool.thread_count = uint32_t(n); o.pool.on_thread_start_functor = Probe(1, n);
            o.execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
            coro::default_executor::set_io_executor_options(std::move(o));
        }
        g_setting = false;
    }
    template<typename P> Sub use(int k, P& p, bool work, Res& r)
    {
        bool okref = ref[k] == nullptr || ref[k] == &p;
        ref[k] = &p;
        if (p == nullptr) { r.s = "null"; co_return; }
        auto& n = inst[k][p.get()];
        if (!n) n = int(inst[k].size());
        r.vis = g_built[k].seen() && okref;
        if (work)
        {
            co_await p->schedule();
            auto it = on[k].find(vx::self());
            r.v = n * 100 + (it == on[k].end() ? 99 : it->second);
        }
        else r.v = n * 100;
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        if (op.op == "opt") { opt(op.a, op.b); co_return; }
        bool work = op.op == "work";
        if (op.a == 0) co_await use(0, coro::default_executor::executor(), work, r);
        else if (op.b) co_await use(1, coro::default_executor::perfect<std::unique_ptr<coro::scheduler>>(), work, r);
        else co_await use(1, coro::default_executor::io_executor(), work, r);
    }
    void after_quiesce(int) override { log("threads", starts[0], starts[1]); }
    void finish() override
    {
        // as at the exit of a program: what was created is destroyed
        for (int k = 0; k < 2; ++k)
            if (!inst[k].empty()) { if (k == 0) coro::default_executor::executor().reset(); else coro::default_executor::io_executor().reset(); }
        log("gone");
    }
};
void Probe::operator()(std::size_t) const { if (alive && *alive == 1) { g_w->on[kind][vx::self()] = threads; ++g_w->starts[kind]; } }
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); });
}

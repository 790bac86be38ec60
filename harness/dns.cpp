// C25 world: dns::resolvers over one coro::scheduler, c-ares stood in for by vxares.
// par: pool threads (0 = inline), manual, 1 = time moves only when nothing else can happen, poll timeout
#include "hx.hpp"
#include "vxares.hpp"
#include "coro/net/dns/resolver.hpp"
#include "coro/scheduler.hpp"
#include <fcntl.h>
#include <sys/socket.h>
using namespace hx;
namespace net = coro::net;
using Resolver = net::dns::resolver<coro::scheduler>;
struct NewThread { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { vx::thread([h]() { h.resume(); }).detach(); } void await_resume() {} };
static const int64_t TO[] = {0, 1, 2, 5};
struct W : World
{
    bool one_at_a_time() override { return true; }
    std::unique_ptr<coro::scheduler> s;
    std::set<int> workers, loops;
    bool stop{false}, inl, manual;
    std::vector<vx::thread> dt;
    std::unique_ptr<Resolver> res[3];
    int mode[9]{}, entering[3]{}, at[9]{};
    bool dying[3]{};
    static int open_fds() { int n = 0; for (int i = 0; i < 256; ++i) n += ::fcntl(i, F_GETFD) != -1; return n; }
    int fds0{open_fds()};
    explicit W(const Program& p)
    {
        vx::io_reset();
        vx::io_points = true;
        vx::AresHook h;
        h.who = [](const char* n) { return std::atoi(n + 1); };
        h.mode = [this](int c) { return mode[c]; };
        h.ev = [](const char* w, int a, int b, int c) { log(w, a, b, c); };
        h.left = [this](int c) { --entering[at[c]]; };
        vx::ares_reset(h);
        inl = p.par[0] == 0; manual = p.par[1] != 0;
        coro::scheduler::options o;
        o.thread_strategy = manual ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn;
        o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
        o.on_io_thread_start_functor = [this]() { loops.insert(vx::self()); };
        o.pool.thread_count = uint32_t(p.par[0]);
        o.pool.on_thread_start_functor = [this](std::size_t) { workers.insert(vx::self()); };
        s = coro::scheduler::make_unique(o);
        for (int i = 1; i <= 2; ++i) res[i] = std::make_unique<Resolver>(s, std::chrono::milliseconds{TO[p.par[3] & 3]});
        if (manual) dt.emplace_back([this]() { loops.insert(vx::self()); while (!stop) s->process_events(std::chrono::milliseconds{7}); });
    }
    bool here() { return (inl ? loops : workers).count(vx::self()) > 0; }
    bool skip(int c, const Op& op) override
    {
        if (finishing) return true;
        if (op.op == "look") { if (dying[op.a]) return true; ++entering[op.a]; at[c] = op.a; mode[c] = op.b % 8; }
        if (op.op == "gone") { if (dying[op.a] || entering[op.a]) return true; dying[op.a] = true; }
        return false;
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        if (op.op == "look")
        {
            if (op.b & 8) co_await s->schedule();
            else if (op.b & 16) co_await NewThread{};
            int was = vx::self();
            auto x = co_await res[op.a]->host_by_name(net::hostname{"h" + std::to_string(c)});
            r.vis = here() || vx::self() == was;
            r.s = x->status() == net::dns::status::complete ? "complete" : "error";
            r.v = long(x->ip_addresses().size());
            for (int i = 0; i < r.v; ++i)
            {
                unsigned char raw[16]; int f;
                vx::ares_the_addr(c, i, raw, &f);
                auto& ip = x->ip_addresses()[size_t(i)];
                auto d = ip.data();
                r.vis = r.vis && int(ip.domain()) == f && d.size() == (f == AF_INET ? 4u : 16u) && std::memcmp(d.data(), raw, d.size()) == 0;
            }
        }
        else if (op.op == "gone") { auto x = std::move(res[op.a]); x.reset(); }
        else if (op.op == "ans") vx::ares_answer(op.a, op.b % 8, op.b / 8);
        else if (op.op == "brk") vx::ares_break(op.a, op.b);
        else if (op.op == "nw") vx::ares_unwatch(op.a);
        else if (op.op == "bad")
        {
            vx::ares_hook_fail(op.b & 1, op.b & 2);
            try { if (op.b & 4) { std::unique_ptr<coro::scheduler> no; Resolver x{no, std::chrono::milliseconds{1}}; } else { Resolver x{s, std::chrono::milliseconds{1}}; } }
            catch (const std::runtime_error&) { r.s = "throws"; }
            vx::ares_hook_fail(false, false);
        }
        else if (op.op == "nap") { co_await NewThread{}; vx::this_thread::sleep_ns(op.b * 500000); }
        co_return;
    }
    void finish() override
    {
        for (int i = 1; i <= 2; ++i) if (res[i]) { log("call", 8, "gone", i, 0); res[i].reset(); log("ret", 8, "gone", "ok", 0, 1); }
        vx::quiesce();
        log("q", std::vector<int>(pending.begin(), pending.end()));
        s->shutdown();
        stop = true; vx::note_progress();
        for (auto& t : dt) t.join();
        s.reset();
        log("left", vx::ares_alive() + open_fds() - fds0);
        vx::ares_reset({});
    }
};
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); },
        [](const Program& p, vx::Config& c) { uint64_t h = c.seed * 0x9e3779b97f4a7c15ull; c.time_adv = !p.par[2] && (h >> 40) % 3 == 0 ? 12 + int((h >> 20) % 40) : 0; });
}

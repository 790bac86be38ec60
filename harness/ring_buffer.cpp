// C07 world: one coro::ring_buffer (par: capacity). produce(a), consume, notifyP, notifyC, shutdown, drain, size
#include "hx_exec.hpp"
#include "coro/ring_buffer.hpp"
using namespace hx;
struct E
{
    int v{-2};
    E() = default;
    explicit E(int x) : v(x) {}
    E(const E&) = delete;
    E& operator=(const E&) = delete;
    E(E&& o) noexcept : v(std::exchange(o.v, -1)) {}
    E& operator=(E&& o) noexcept { v = std::exchange(o.v, -1); return *this; }
};
template<size_t N> struct W : World
{
    std::unique_ptr<coro::ring_buffer<E, N>> qp{std::make_unique<coro::ring_buffer<E, N>>()};
    coro::ring_buffer<E, N>& q{*qp};
    int draining{0};
    std::unique_ptr<Exec> ex;
    std::map<int, vx::stamp> pushes;
    W() : ex(std::make_unique<Exec>(1)) {}
    // destroyed only with nobody but suspended callers around
    bool skip(int, const Op& op) override { if (!qp || (op.op == "destroy" && draining)) return true; return op.op == "produce" && pushes.count(op.a); }
    Sub exec(int, const Op& op, Res& r) override
    {
        namespace rr = coro::ring_buffer_result;
        if (op.op == "produce")
        {
            pushes[op.a].set();
            auto x = co_await q.produce(E{op.a});
            r.s = x == rr::produce::produced ? "produced" : x == rr::produce::notified ? "notified" : "stopped";
        }
        else if (op.op == "consume")
        {
            auto e = co_await q.consume();
            if (e) { r.s = "value"; r.v = e->v; r.vis = pushes.count(int(r.v)) && pushes[int(r.v)].seen(); }
            else r.s = e.error() == rr::consume::notified ? "notified" : "stopped";
        }
        else if (op.op == "notifyP") co_await q.notify_producers();
        else if (op.op == "notifyC") co_await q.notify_consumers();
        else if (op.op == "shutdown") co_await q.shutdown();
        else if (op.op == "drain") { ++draining; co_await q.shutdown_drain(ex); --draining; }
        else if (op.op == "destroy") qp.reset();
        else if (op.op == "size") { r.v = long(q.size()); }
        else if (op.op == "full") { r.s = q.full() ? "true" : "false"; }
        else if (op.op == "empty") { r.s = q.empty() ? "true" : "false"; }
        else if (op.op == "down") r.s = q.is_shutdown() ? "true" : "false";
    }
};
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* {
        switch (p.par[0]) { case 1: return new W<1>; case 2: return new W<2>; case 3: return new W<3>; default: return new W<4>; }
    });
}

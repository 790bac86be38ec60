// C06 world: one coro::queue. push(a = element), emplace, pushc (const&), pop, trypop, shutdown, drain, size, down
#include "hx_exec.hpp"
#include "coro/queue.hpp"
using namespace hx;
struct E
{
    int v{-2};
    E() = default;
    explicit E(int x) : v(x) {}
    E(const E&) = default;
    E& operator=(const E&) = default;
    E(E&& o) noexcept : v(std::exchange(o.v, -1)) {}
    E& operator=(E&& o) noexcept { v = std::exchange(o.v, -1); return *this; }
};
struct W : World
{
    std::unique_ptr<coro::queue<E>> qp{std::make_unique<coro::queue<E>>()};
    coro::queue<E>& q{*qp};
    int draining{0};
    std::unique_ptr<Exec> ex;
    std::map<int, vx::stamp> pushes;
    W() : ex(std::make_unique<Exec>(1)) {}
    // destroyed only with nobody but suspended consumers around
    bool skip(int, const Op& op) override { if (!qp || (op.op == "destroy" && draining)) return true; return (op.op == "push" || op.op == "pushc" || op.op == "emplace") && pushes.count(op.a); }
    void got(coro::expected<E, coro::queue_consume_result>& e, Res& r)
    {
        if (e) { r.s = "value"; r.v = e->v; r.vis = pushes.count(int(r.v)) && pushes[int(r.v)].seen(); }
        else switch (e.error())
        {
            case coro::queue_consume_result::stopped: r.s = "stopped"; break;
            case coro::queue_consume_result::try_lock_failure: r.s = "busy"; break;
            default: r.s = "empty";
        }
    }
    static void pr(coro::queue_produce_result x, Res& r) { r.s = x == coro::queue_produce_result::produced ? "produced" : "stopped"; }
    Sub exec(int, const Op& op, Res& r) override
    {
        if (op.op == "push") { pushes[op.a].set(); pr(co_await q.push(E{op.a}), r); }
        else if (op.op == "pushc") { pushes[op.a].set(); const E x{op.a}; pr(co_await q.push(x), r); if (x.v != op.a) r.s = "moved"; }
        else if (op.op == "emplace") { pushes[op.a].set(); pr(co_await q.emplace(op.a), r); }
        else if (op.op == "pop") { auto e = co_await q.pop(); got(e, r); }
        else if (op.op == "trypop") { auto e = q.try_pop(); got(e, r); }
        else if (op.op == "shutdown") co_await q.shutdown();
        else if (op.op == "drain") { ++draining; co_await q.shutdown_drain(ex); --draining; }
        else if (op.op == "destroy") qp.reset();
        else if (op.op == "size") { auto n = q.size(); r.v = long(n); }
        else if (op.op == "down") r.s = q.is_shutdown() ? "true" : "false";
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program&) -> World* { return new W; }); }

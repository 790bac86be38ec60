// C03 world: one coro::latch. down(a = n, b = id*2 + exec); wait returns the mask of count-downs it sees.
#include "hx_exec.hpp"
#include "coro/latch.hpp"
using namespace hx;
struct W : World
{
    coro::latch l;
    std::unique_ptr<Exec> ex;
    std::map<int, vx::stamp> downs;
    explicit W(const Program& p) : l(p.par[0]), ex(std::make_unique<Exec>(2)) {}
    bool skip(int, const Op& op) override { return op.op == "down" && downs.count(op.b / 2); }
    Sub exec(int, const Op& op, Res& r) override
    {
        if (op.op == "wait")
        {
            co_await l;
            for (auto& [i, s] : downs) if (s.seen()) r.v |= 1 << i;
        }
        else if (op.op == "down")
        {
            downs[op.b / 2].set();
            if (op.b % 2) l.count_down(ex, op.a); else if (op.a == 1) l.count_down(); else l.count_down(op.a);
        }
        else if (op.op == "close") ex->m_refuse = true; // the executor takes nothing from now on
        else if (op.op == "remaining") { auto v = l.remaining(); r.v = v > 1000000 ? 1000000 : long(v); }
        else if (op.op == "ready") r.s = l.is_ready() ? "true" : "false";
        co_return;
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }

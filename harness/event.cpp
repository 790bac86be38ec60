// C02 world: one coro::event. set(policy a, b = id*2 + exec). wait returns the mask of sets it sees.
#include "hx_exec.hpp"
#include "coro/event.hpp"
using namespace hx;
struct W : World
{
    coro::event e;
    std::unique_ptr<Exec> ex;
    std::map<int, vx::stamp> sets;
    explicit W(const Program& p) : e(p.par[0] != 0), ex(std::make_unique<Exec>(p.par[1])) {}
    bool skip(int, const Op& op) override { return op.op == "set" && sets.count(op.b / 2); }
    Sub exec(int, const Op& op, Res& r) override
    {
        if (op.op == "wait")
        {
            co_await e;
            for (auto& [i, s] : sets) if (s.seen()) r.v |= 1 << i;
        }
        else if (op.op == "set")
        {
            sets[op.b / 2].set();
            auto pol = op.a ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo;
            if (op.b % 2) e.set(ex, pol); else e.set(pol);
        }
        else if (op.op == "close") ex->m_refuse = true; // the executor takes nothing from now on
        else if (op.op == "reset") e.reset();
        else if (op.op == "isset") r.s = e.is_set() ? "true" : "false";
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }
